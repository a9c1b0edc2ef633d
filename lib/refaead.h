/* XChaCha20-Poly1305 written from RFC 8439 and draft-irtf-cfrg-xchacha (byte-wise arithmetic). */
#ifndef REFAEAD_H
#define REFAEAD_H
#include <stdint.h>
#include <string.h>
#define RA_ROT(v, n) ((v) << (n) | (v) >> (32 - (n)))
static void ra_qr(uint32_t *s, int a, int b, int c, int d) { s[a] += s[b]; s[d] = RA_ROT(s[d] ^ s[a], 16); s[c] += s[d]; s[b] = RA_ROT(s[b] ^ s[c], 12); s[a] += s[b]; s[d] = RA_ROT(s[d] ^ s[a], 8); s[c] += s[d]; s[b] = RA_ROT(s[b] ^ s[c], 7); }
static uint32_t ra_le(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void ra_core(uint32_t o[16], const uint32_t in[16], int add) { uint32_t s[16]; memcpy(s, in, 64); for (int r = 0; r < 10; r++) { for (int i = 0; i < 4; i++) ra_qr(s, i, 4 + i, 8 + i, 12 + i); for (int i = 0; i < 4; i++) ra_qr(s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); } for (int i = 0; i < 16; i++) o[i] = s[i] + (add ? in[i] : 0); }
static void ra_state(uint32_t s[16], const uint8_t k[32]) { memcpy(s, "expand 32-byte k", 16); for (int i = 0; i < 4; i++) s[i] = ra_le((const uint8_t *)"expand 32-byte k" + 4 * i); for (int i = 0; i < 8; i++) s[4 + i] = ra_le(k + 4 * i); }
static void ra_bytes(const uint32_t *w, int n, uint8_t *o) { for (int i = 0; i < n; i++) for (int j = 0; j < 4; j++) o[i * 4 + j] = (uint8_t)(w[i] >> 8 * j); }
static void ra_block(const uint8_t k[32], uint32_t ctr, const uint8_t n12[12], uint8_t o[64]) { uint32_t s[16], r[16]; ra_state(s, k); s[12] = ctr; for (int i = 0; i < 3; i++) s[13 + i] = ra_le(n12 + 4 * i); ra_core(r, s, 1); ra_bytes(r, 16, o); }
/* poly1305 with schoolbook arithmetic on bytes */
static void ra_poly(const uint8_t key[32], const uint8_t *m, size_t n, uint8_t tag[16])
{
    uint32_t r[17] = { 0 }, h[17] = { 0 }; for (int i = 0; i < 16; i++) r[i] = key[i]; r[3] &= 15; r[7] &= 15; r[11] &= 15; r[15] &= 15; r[4] &= 252; r[8] &= 252; r[12] &= 252;
    while (n) { uint32_t c[17] = { 0 }; size_t j; for (j = 0; j < 16 && j < n; j++) c[j] = m[j]; c[j] = 1; m += j; n -= j; uint32_t u = 0; for (j = 0; j < 17; j++) { u += h[j] + c[j]; h[j] = u & 255; u >>= 8; }
        uint32_t x[17]; for (int i = 0; i < 17; i++) { x[i] = 0; for (int k = 0; k < 17; k++) x[i] += h[k] * (k <= i ? r[i - k] : 320 * r[i + 17 - k]); } for (int i = 0; i < 17; i++) h[i] = x[i];
        u = 0; for (j = 0; j < 16; j++) { u += h[j]; h[j] = u & 255; u >>= 8; } u += h[16]; h[16] = u & 3; u = 5 * (u >> 2); for (j = 0; j < 16; j++) { u += h[j]; h[j] = u & 255; u >>= 8; } h[16] += u; }
    uint32_t g[17]; memcpy(g, h, sizeof g); uint32_t u = 5; for (int j = 0; j < 16; j++) { u += g[j]; g[j] = u & 255; u >>= 8; } u += g[16]; if (u >> 2) memcpy(h, g, 16 * sizeof *g);
    u = 0; for (int j = 0; j < 16; j++) { u += h[j] + key[16 + j]; tag[j] = (uint8_t)u; u >>= 8; }
}
static void ref_xchacha_seal(const uint8_t k[32], const uint8_t n24[24], const uint8_t *aad, size_t an, const uint8_t *pt, size_t n, uint8_t *ct, uint8_t tag[16])
{
    uint32_t s[16], r[16]; uint8_t sub[32], n12[12] = { 0 }, b[64], pk[64], mac[512] = { 0 }; ra_state(s, k); for (int i = 0; i < 4; i++) s[12 + i] = ra_le(n24 + 4 * i); ra_core(r, s, 0); ra_bytes(r, 4, sub); ra_bytes(r + 12, 4, sub + 16); memcpy(n12 + 4, n24 + 16, 8);
    ra_block(sub, 0, n12, pk); for (size_t i = 0; i < n; i++) { if (i % 64 == 0) ra_block(sub, 1 + i / 64, n12, b); ct[i] = pt[i] ^ b[i % 64]; }
    size_t q = 0; memcpy(mac, aad, an); q = (an + 15) / 16 * 16; memcpy(mac + q, ct, n); q += (n + 15) / 16 * 16; for (int i = 0; i < 8; i++) { mac[q + i] = (uint8_t)((uint64_t)an >> 8 * i); mac[q + 8 + i] = (uint8_t)((uint64_t)n >> 8 * i); } ra_poly(pk, mac, q + 16, tag);
}
#endif
