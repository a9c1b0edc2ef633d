#include "rng.h"
#include "mc.h"
#include <string.h>
static uint64_t ctr; static int armed, failed; static long reqs, fail_nth = -1;
static const uint8_t *scr; static size_t scrn;
static uint8_t logb[1 << 20]; static size_t logn;
int rng_partial = 1; void (*rng_hook)(int);
void rng_reset(void) { ctr = 0; armed = failed = 0; reqs = 0; fail_nth = -1; scr = 0; scrn = 0; logn = 0; rng_hook = 0; }
void rng_arm(int on) { armed = on; }
void rng_fail_at(long n) { fail_nth = n < 0 ? -1 : reqs + n; }
void rng_script(const uint8_t *p, size_t n) { scr = p; scrn = n; }
int rng_failed(void) { return failed; }
long rng_requests(void) { return reqs; }
size_t rng_log(const uint8_t **p) { if (p) *p = logb; return logn; }
static uint8_t nextb(void)
{
    if (scrn) { scrn--; return *scr++; }
    uint64_t z = ++ctr * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; return (uint8_t)(z >> 32);
}
static int request(unsigned char *b, size_t n, int ways)
{
    int fail = 0; long me = reqs++;
    if (rng_hook) rng_hook(1);
    if (me == fail_nth) fail = 1;
    else if (armed && mc_in_execution()) fail = mc_choose_dev(ways); /* 2: fails with -1, which RAND_bytes may also return */
    if (fail) { failed++; MC_NOTE("generator request #%ld (%zu bytes) fails", me, n); if (rng_partial) memset(b, 0xEE, n / 2); }
    else for (size_t i = 0; i < n; i++) { b[i] = nextb(); if (logn < sizeof logb) logb[logn++] = b[i]; }
    if (rng_hook) rng_hook(0);
    return fail == 2 || (fail && rng_partial) ? -1 : !fail;
}
int __wrap_RAND_bytes(unsigned char *b, int n) { if (n < 0) return -1; return request(b, n, 3); }
int __wrap_RAND_priv_bytes(unsigned char *b, int n) { return __wrap_RAND_bytes(b, n); }
int __wrap_mbedtls_ctr_drbg_seed(void *c, void *f, void *pe, const unsigned char *cu, size_t l) { (void)c; (void)f; (void)pe; (void)cu; (void)l;
    if (rng_hook) rng_hook(1);
    int fail = armed && mc_in_execution() && mc_choose_dev(2); if (fail) { failed++; MC_NOTE("seeding fails"); }
    if (rng_hook) rng_hook(0);
    return fail ? -0x34 : 0; }
int __wrap_mbedtls_ctr_drbg_random(void *c, unsigned char *b, size_t n) { (void)c; if (n > 1024) return -0x36; return request(b, n, 2) == 1 ? 0 : -0x34; }
