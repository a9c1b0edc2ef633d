/* Randomness seam: RAND_bytes (OpenSSL) and mbedtls_ctr_drbg_random/seed (mbedTLS) are replaced by
 * a deterministic generator whose requests may fail (choice points) or be scripted. */
#ifndef RNG_H
#define RNG_H
#include <stddef.h>
#include <stdint.h>
void rng_reset(void);                       /* start of an execution                       */
void rng_arm(int on);                       /* requests may fail: mc_choose_dev            */
void rng_fail_at(long nth);                 /* the nth request from now (0-based) fails, -1 never */
void rng_script(const uint8_t *p, size_t n);/* next bytes handed out; then the counter stream */
int  rng_failed(void);                      /* failures so far                              */
long rng_requests(void);
size_t rng_log(const uint8_t **p);          /* every byte handed out so far                 */
extern int rng_partial;                     /* a failing request scribbles over its buffer first */
extern void (*rng_hook)(int enter);         /* called around every request                  */
#endif
