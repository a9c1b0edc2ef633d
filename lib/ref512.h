/* SHA-512, HMAC-SHA512 and PBKDF2 written from FIPS 180-4, RFC 2104 and RFC 8018; constants are computed. */
#ifndef REF512_H
#define REF512_H
#include <stdint.h>
#include <string.h>
typedef struct { uint64_t h[8]; uint8_t b[128]; uint64_t n; } r512;
static uint64_t R512K[80], R512H[8];
typedef unsigned __int128 r_u128;
static uint64_t r512_root(int p, int cube)      /* first 64 bits of the fractional part of the root of p */
{
    /* largest x with x^k <= p * 2^(64k): compare in 320-bit arithmetic by binary search on 68-bit x */
    r_u128 lo = 0, hi = (r_u128)32 << 64;
    while (hi - lo > 1) {
        r_u128 x = lo + (hi - lo) / 2; uint32_t a[4] = { (uint32_t)x, (uint32_t)(x >> 32), (uint32_t)(x >> 64), 0 }, r[12] = { 1 }; int le = 1;
        for (int k = 0; k < (cube ? 3 : 2); k++) { uint32_t t[12] = { 0 }; for (int i = 0; i < 12; i++) { uint64_t c = 0; for (int j = 0; j < 3 && i + j < 12; j++) { uint64_t v = (uint64_t)r[i] * a[j] + t[i + j] + c; t[i + j] = (uint32_t)v; c = v >> 32; } for (int j = i + 3; c && j < 12; j++) { uint64_t v = (uint64_t)t[j] + c; t[j] = (uint32_t)v; c = v >> 32; } } memcpy(r, t, sizeof r); }
        uint32_t q[12] = { 0 }; q[cube ? 6 : 4] = (uint32_t)p; for (int i = 11; i >= 0; i--) if (r[i] != q[i]) { le = r[i] < q[i]; break; }
        if (le) lo = x; else hi = x;
    }
    return (uint64_t)lo;
}
static void r512_setup(void) { if (R512H[0]) return; int n = 0; for (int p = 2; n < 80; p++) { int pr = 1; for (int d = 2; d * d <= p; d++) if (p % d == 0) pr = 0; if (!pr) continue; if (n < 8) R512H[n] = r512_root(p, 0); R512K[n++] = r512_root(p, 1); } }
#define R5(x, n) ((x) >> (n) | (x) << (64 - (n)))
static void r512_block(r512 *s, const uint8_t *p)
{
    uint64_t w[80], v[8]; memcpy(v, s->h, 64); for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[i * 8 + j]; }
    for (int i = 16; i < 80; i++) w[i] = (R5(w[i - 2], 19) ^ R5(w[i - 2], 61) ^ w[i - 2] >> 6) + w[i - 7] + (R5(w[i - 15], 1) ^ R5(w[i - 15], 8) ^ w[i - 15] >> 7) + w[i - 16];
    for (int i = 0; i < 80; i++) { uint64_t t1 = v[7] + (R5(v[4], 14) ^ R5(v[4], 18) ^ R5(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + R512K[i] + w[i], t2 = (R5(v[0], 28) ^ R5(v[0], 34) ^ R5(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2; }
    for (int i = 0; i < 8; i++) s->h[i] += v[i];
}
static void r512_init(r512 *s) { r512_setup(); memcpy(s->h, R512H, 64); s->n = 0; }
static void r512_add(r512 *s, const void *d, size_t n) { const uint8_t *p = d; while (n--) { s->b[s->n++ % 128] = *p++; if (s->n % 128 == 0) r512_block(s, s->b); } }
static void r512_end(r512 *s, uint8_t out[64]) { uint64_t bits = s->n * 8; uint8_t c = 0x80; r512_add(s, &c, 1); c = 0; while (s->n % 128 != 112) r512_add(s, &c, 1); uint8_t l[16] = { 0 }; for (int i = 0; i < 8; i++) l[15 - i] = (uint8_t)(bits >> 8 * i); r512_add(s, l, 16); for (int i = 0; i < 64; i++) out[i] = (uint8_t)(s->h[i / 8] >> (56 - 8 * (i % 8))); }
typedef struct { r512 i, o; } rhmac;
static void rhmac_key(rhmac *m, const void *key, size_t kl) { uint8_t k[128] = { 0 }, x[128]; if (kl > 128) { r512 s; r512_init(&s); r512_add(&s, key, kl); r512_end(&s, k); } else if (kl) memcpy(k, key, kl); r512_init(&m->i); r512_init(&m->o); for (int j = 0; j < 128; j++) x[j] = k[j] ^ 0x36; r512_add(&m->i, x, 128); for (int j = 0; j < 128; j++) x[j] = k[j] ^ 0x5c; r512_add(&m->o, x, 128); }
static void rhmac_do(const rhmac *m, const void *a, size_t an, const void *b, size_t bn, uint8_t out[64]) { r512 s = m->i; r512_add(&s, a, an); if (bn) r512_add(&s, b, bn); uint8_t t[64]; r512_end(&s, t); s = m->o; r512_add(&s, t, 64); r512_end(&s, out); }
static void ref_hmac512(const void *key, size_t kl, const void *d, size_t n, uint8_t out[64]) { rhmac m; rhmac_key(&m, key, kl); rhmac_do(&m, d, n, 0, 0, out); }
static void ref_pbkdf2(const char *pw, const void *salt, size_t sl, int iter, uint8_t out[64]) __attribute__((unused));
static void ref_pbkdf2(const char *pw, const void *salt, size_t sl, int iter, uint8_t out[64]) { rhmac m; rhmac_key(&m, pw, strlen(pw)); uint8_t u[64], one[4] = { 0, 0, 0, 1 }; rhmac_do(&m, salt, sl, one, 4, u); memcpy(out, u, 64); for (int i = 1; i < iter; i++) { rhmac_do(&m, u, 64, 0, 0, u); for (int j = 0; j < 64; j++) out[j] ^= u[j]; } }
#endif
