/* C33: randomness is full-length, never silently failing, and serialized.
 *
 * The generators (RAND_bytes; mbedTLS CTR-DRBG and entropy contexts) are link-time seams that hand out unique
 * bytes, check their own life cycle and may fail at every request (choice points).  In the sched builds they are
 * also monitored objects: entering the mbedTLS generator twice, or unordered, is a race.
 */
#include "../lib/mc.h"
#ifdef BUILD_SCHED
#define SCHED_BUILD 1
#endif
#ifdef BUILD_SCHEDM
#define SCHED_BUILD 1
#define MBED 1
#endif
#ifdef BUILD_MBEDTLS
#define MBED 1
#endif
#ifdef SCHED_BUILD
#include "../lib/mcsched.h"
#include "../lib/fault.h"
#include <pthread.h>
#endif
#include <nostr.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <limits.h>
#include <sys/mman.h>

#define LOGMAX (1 << 20)
static uint8_t out[LOGMAX]; static size_t nout;                 /* everything handed out */
static struct { size_t off, n; unsigned char *dst; int ok; } rq[70000]; static int nrq;
static uint64_t ctr; static int armed, failed, coverage;         /* coverage: huge buffers are not written, only noted */
static long fail_nth = -1; static int partial;
static int inside;                                               /* in the generator right now */
static void fresh(unsigned char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) { if (nout % 8 == 0) ctr++; uint64_t z = ctr * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; b[i] = (uint8_t)(z >> (8 * (nout % 8))); if (nout < LOGMAX) out[nout] = b[i]; nout++; }
}
static int request(unsigned char *b, size_t n, int ways)
{
    int me = nrq++, fail = me == fail_nth ? 1 : armed && mc_in_execution() ? mc_choose_dev(ways) : 0;    /* 2: fails with -1 */
    if (me < 70000) { rq[me].off = nout; rq[me].n = n; rq[me].dst = b; rq[me].ok = !fail; }
    if (fail) { failed++; MC_NOTE("generator request #%d (%zu bytes) fails", me, n); if (partial && !coverage) memset(b, 0xEE, n / 2); return fail == 2 || partial ? -1 : 0; }
    if (coverage) return 1;
    fresh(b, n);
    return 1;
}
int __wrap_RAND_bytes(unsigned char *b, int n) { if (n < 0) { mc_fail("negative-request", "%d bytes requested", n); }
#ifdef SCHED_BUILD
    sched_point("RAND_bytes");
#endif
    return request(b, (size_t)n, 3); }
int __wrap_RAND_priv_bytes(unsigned char *b, int n) { return __wrap_RAND_bytes(b, n); }
/* mbedTLS: 0 raw, 1 initialized, 2 seeded */
static struct { void *p; int st; } obj[4]; static int nobj;
static int *life(void *p) { for (int i = 0; i < nobj; i++) if (obj[i].p == p) return &obj[i].st; if (nobj == 4) mc_fail("generators", "more than four generator objects"); obj[nobj].p = p; obj[nobj].st = 0; return &obj[nobj++].st; }
#ifdef SCHED_BUILD
#define ENTER(c) do { sched_access(c, 8, 1, "the generator"); if (inside++) mc_fail("generator-shared", "two threads are in the generator at once"); sched_point("generator"); } while (0)
#else
#define ENTER(c) do { inside++; } while (0)
#endif
#define LEAVE() (inside--)
void __wrap_mbedtls_entropy_init(void *c) { ENTER(c); int *s = life(c); if (*s) mc_fail("generator-life", "the entropy pool is initialized again without being freed"); *s = 1; LEAVE(); }
void __wrap_mbedtls_entropy_free(void *c) { ENTER(c); *life(c) = 0; LEAVE(); }
void __wrap_mbedtls_ctr_drbg_init(void *c) { ENTER(c); int *s = life(c); if (*s) mc_fail("generator-life", "the generator is initialized again without being freed"); *s = 1; LEAVE(); }
void __wrap_mbedtls_ctr_drbg_free(void *c) { ENTER(c); *life(c) = 0; LEAVE(); }
int __wrap_mbedtls_ctr_drbg_seed(void *c, void *f, void *pe, const unsigned char *cu, size_t l)
{
    (void)cu; (void)l; ENTER(c);
    int *s = life(c); if (!f || !pe || *life(pe) != 1) mc_fail("generator-life", "seeding without an entropy source");
    if (*s != 1) mc_fail("generator-life", "seeding in state %d", *s);
    int me = nrq++, fail = me == fail_nth || (armed && mc_in_execution() && mc_choose_dev(2));
    if (me < 70000) { rq[me].n = 0; rq[me].ok = 1; rq[me].off = nout; rq[me].dst = NULL; }
    if (fail) { failed++; MC_NOTE("seeding fails"); } else *s = 2;
    LEAVE(); return fail ? -0x34 : 0;
}
int __wrap_mbedtls_ctr_drbg_random(void *c, unsigned char *b, size_t n)
{
    ENTER(c);
    if (*life(c) != 2) mc_fail("generator-life", "drawing from a generator that is not seeded");
    int r = n > 1024 ? -0x36 : request(b, n, 2) == 1 ? 0 : -0x34;
    LEAVE(); return r;
}
static void reset(void) { nrq = 0; nout = 0; armed = failed = coverage = partial = 0; fail_nth = -1; }
/* the buffer is made of output of this call's successful requests, each byte used at most once */
static const char *made_of(const uint8_t *b, size_t n, int from)
{
    static uint8_t used[LOGMAX]; memset(used, 0, nout < LOGMAX ? nout : LOGMAX); size_t i = 0;
    while (i < n) {
        size_t best = 0, at = 0;
        for (int k = from; k < nrq; k++) {
            if (!rq[k].ok || used[rq[k].off] || !rq[k].n) continue;
            size_t m = 0; while (m < rq[k].n && i + m < n && out[rq[k].off + m] == b[i + m]) m++;
            if (m > best) { best = m; at = rq[k].off; }
        }
        if (!best) return "bytes that the generator did not hand out for it";
        used[at] = 1; i += best;
    }
    return NULL;
}
static void one(size_t n, const char *what)
{
    uint8_t *m = malloc(n + 32); memset(m, 0x99, n + 32); int from = nrq, f0 = failed;
    int r = nostr_random_bytes(m + 16, n);
    mc_eval(1);
    for (int i = 0; i < 16; i++) if (m[i] != 0x99 || m[16 + n + i] != 0x99) mc_fail("overrun", "%s: %zu bytes: memory around the buffer written", what, n);
    if (r != 0 && r != 1) mc_fail("result", "%s: %zu bytes: result %d", what, n, r);
    if (r == 1) { const char *d = made_of(m + 16, n, from); if (d) mc_fail("not-random", "%s: %zu bytes reported as filled, but the buffer has %s", what, n, d); if (failed > f0) mc_fail("silent", "%s: %zu bytes: success although the generator failed", what, n); }
    else if (failed == f0) mc_fail("refused", "%s: %zu bytes: failure without the generator failing", what, n);
    free(m);
}
#ifndef SCHED_BUILD
static void setup(void) { }
static void fresh_process(void) { mc_fork_each = 1; }
static void lengths(void)
{
    int hi = mc_choose(41), lo; reset();
    for (lo = 0; lo < 101; lo++) { reset(); one(hi * 101 + lo, "length"); }
    mc_step(); mc_conform(); mc_outcome(hi); MC_NOTE("lengths %d..%d", hi * 101, hi * 101 + 100);
}
static const size_t BIG[] = { 65535, 65536, 65537, 131072, 262143, 500001 };
static void big(void) { reset(); size_t n = MC_PICK(BIG); one(n, "big"); mc_step(); mc_conform(); mc_outcome(n); MC_NOTE("%zu bytes", n); }
/* histories in a fresh process: several requests, the generator (and its seeding) failing at any point */
static const size_t HL[] = { 0, 1, 32, 1024, 1025, 2048, 2049, 5000 };
static void histories(void)
{
    mc_set_dev_bound(mc_thorough() ? 3 : 2); int n = mc_thorough() ? 4 : 3; char w[80]; reset();
    size_t l[4]; for (int i = 0; i < n; i++) l[i] = MC_PICK(HL);
    partial = mc_choose(2); armed = 1;
    for (int i = 0; i < n; i++) { sprintf(w, "request %d of a history", i); int f0 = failed; one(l[i], w); mc_step(); mc_outcome(mc_hash_u64(l[i], failed - f0)); MC_NOTE("request of %zu bytes, %d failures", l[i], failed - f0); }
    armed = 0; one(32, "after the history"); mc_conform();
    mc_state(mc_hash_u64(mc_hash_u64(MC_H0, nrq), failed));
}
/* buffers beyond the generator's int limit: requests must tile the buffer exactly */
static const size_t HUGE_[] = { (size_t)INT_MAX - 1, INT_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 2, 2 * (size_t)INT_MAX, 2 * (size_t)INT_MAX + 1, 3 * (size_t)INT_MAX + 5 };
static void huge(void)
{
    size_t n = MC_PICK(HUGE_); int f = mc_choose(4); reset();
    unsigned char *m = mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) mc_discard();
    coverage = 1; fail_nth = f - 1;
    int r = nostr_random_bytes(m, n); coverage = 0;
    MC_NOTE("%zu bytes in %d requests, failing #%d: %d", n, nrq, f - 1, r);
#ifndef MBED
    if (r == 1) {
        if (failed) mc_fail("silent", "%zu bytes: success although the generator failed", n);
        size_t at = 0; for (int i = 0; i < nrq && i < 70000; i++) { if (!rq[i].dst) continue; if (rq[i].dst != m + at) mc_fail("gap", "%zu bytes: request %d starts at %zd, expected %zu", n, i, rq[i].dst - m, at); at += rq[i].n; }
        if (at != n) mc_fail("short", "%zu bytes: only %zu requested of the generator", n, at);
    } else
#endif
    if (r == 1) { if (failed) mc_fail("silent", "success although the generator failed"); }
    else if (!failed) mc_fail("refused", "%zu bytes: failure without the generator failing", n);
    munmap(m, n + 4096); mc_step(); mc_conform(); mc_outcome(mc_hash_u64(n, f));
}
#ifdef MBED
#define HUGETIER 2
#else
#define HUGETIER 3
#endif
/* every consumer: no operation delivers something from a failed generator (secret stays unset, error reported) */
static void nullzero(void) { reset(); mc_choose(1); int r = nostr_random_bytes(NULL, 0); if (r != 1) mc_fail("zero", "zero bytes: %d", r); mc_step(); mc_conform(); mc_outcome(1); }
const mc_scenario mc_scenarios[] = {
    { "lengths", lengths, setup, 3, 60, "all lengths 0..4140" }, { "big", big, setup, 3, 60, "lengths to 500001" },
    { "histories", histories, fresh_process, 3, 60, "3 (4) requests of 8 lengths in a fresh process, every request and the seeding failing, 2 (3) failures" },
    { "huge", huge, fresh_process, HUGETIER, 300, "lengths around the int and 32-bit limits, each of the first requests failing" },
    { "zero", nullzero, fresh_process, 3, 20, "zero bytes into no buffer" }, MC_END };
#else
static void ssetup(void) { sched_setup(); fault_install(); }
typedef struct { uint8_t *buf; size_t n[2]; int r[2]; } job; static job J[3]; static int JN;
static void *worker(void *a) { job *j = a; uint8_t *b = j->buf; for (int i = 0; i < 2; i++) { if (j->n[i] == (size_t)-1) break; j->r[i] = nostr_random_bytes(b, j->n[i]); b += j->n[i]; } return NULL; }
static const size_t SL[] = { 0, 8, 1025, 2100 };
static void schedules(void)
{
    int nt = 2 + mc_choose(2), l = mc_choose(nt == 2 ? 64 : 64), init = mc_choose(2), fa = mc_choose(2); mc_set_dev_bound(mc_thorough() ? 3 : 2); reset();
    for (int t = 0; t < nt; t++) { J[t].buf = calloc(1, 5000); J[t].n[0] = SL[l >> (2 * t) & 3]; J[t].n[1] = nt == 2 && t == 0 ? SL[l >> 4 & 3] : (size_t)-1; J[t].r[0] = J[t].r[1] = 1; }
    JN = nt; fault_reset(); sched_begin();
    if (init) { uint8_t b[8]; nostr_random_bytes(b, 8); reset(); }
    armed = fa;
    pthread_t th[3]; for (int t = 1; t < nt; t++) pthread_create(&th[t], NULL, worker, &J[t]);
    worker(&J[0]);
    for (int t = 1; t < nt; t++) pthread_join(th[t], NULL);
    armed = 0; sched_end();
    int okall = 1; static uint8_t all[20000]; size_t na = 0;
    for (int t = 0; t < nt; t++) { uint8_t *b = J[t].buf; for (int i = 0; i < 2; i++) { if (J[t].n[i] == (size_t)-1) break; if (J[t].r[i] != 1) okall = 0; else { memcpy(all + na, b, J[t].n[i]); na += J[t].n[i]; } b += J[t].n[i]; } }
    if (!okall && !failed) mc_fail("refused", "failure without the generator failing");
    if (okall && failed) mc_fail("silent", "all requests succeeded although the generator failed %d times", failed);
    const char *d = made_of(all, na, 0); if (d) mc_fail("shared-output", "%d threads: the buffers have %s", nt, d);
    for (size_t i = 0; i + 8 <= na; i++) for (size_t k = i + 8; k + 8 <= na && na < 600; k++) if (!memcmp(all + i, all + k, 8)) mc_fail("shared-output", "the same eight bytes were delivered twice");
    uint8_t b[8]; if (nostr_random_bytes(b, 8) != 1) mc_fail("stuck", "no randomness afterwards");
    mc_conform(); mc_outcome(mc_hash(mc_hash_u64(MC_H0, failed), all, na)); mc_state(mc_hash_u64(MC_H0, nrq)); MC_NOTE("%d threads, %d generator requests, %d failures", nt, nrq, failed);
}
const mc_scenario mc_scenarios[] = { { "schedules", schedules, ssetup, 3, 60, "2-3 threads, 64 length combinations, fresh or seeded, generator failing or not, all schedules with up to 2 (3) preemptions/failures" }, MC_END };
#endif
