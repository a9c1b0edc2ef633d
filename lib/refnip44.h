/* Reference NIP-44 v2 and NIP-04 payloads, base64, HMAC/HKDF-SHA256, AES-256-CBC: written from the
 * specifications (RFC 2104, 5869, 8439, 4648, FIPS 197), nothing shared with the library. */
#ifndef REFNIP44_H
#define REFNIP44_H
#include <stdlib.h>
#include <string.h>
#include "ref.h"
#include "refaead.h"
#pragma GCC diagnostic ignored "-Wunused-function"
static void r44_hmac(const uint8_t *key, size_t kl, const void *a, size_t an, const void *b, size_t bn, uint8_t out[32])
{
    uint8_t k[64] = { 0 }, d[32], *m = malloc(64 + an + bn + 32);
    if (kl > 64) ref_sha256(key, kl, k); else memcpy(k, key, kl);
    for (int i = 0; i < 64; i++) m[i] = k[i] ^ 0x36;
    if (an) memcpy(m + 64, a, an);
    if (bn) memcpy(m + 64 + an, b, bn);
    ref_sha256(m, 64 + an + bn, d);
    for (int i = 0; i < 64; i++) m[i] = k[i] ^ 0x5c;
    memcpy(m + 64, d, 32); ref_sha256(m, 96, out);
    free(m);
}
static void r44_conv(const uint8_t shared_x[32], uint8_t ck[32]) { r44_hmac((const uint8_t *)"nip44-v2", 8, shared_x, 32, 0, 0, ck); }
/* message keys: chacha key 32 | chacha nonce 12 | hmac key 32 */
static void r44_keys(const uint8_t ck[32], const uint8_t nonce[32], uint8_t o[96])
{
    uint8_t t[32 + 33], prev[32]; size_t pl = 0;
    for (int i = 1; i <= 3; i++) { if (pl) memcpy(t, prev, 32); memcpy(t + pl, nonce, 32); t[pl + 32] = (uint8_t)i; r44_hmac(ck, 32, t, pl + 33, 0, 0, prev); memcpy(o + 32 * (i - 1), prev, 32); pl = 32; }
}
static void r44_chacha(const uint8_t k[32], const uint8_t n[12], const uint8_t *in, uint8_t *out, size_t len)
{
    uint8_t b[64]; for (size_t i = 0; i < len; i++) { if (i % 64 == 0) ra_block(k, (uint32_t)(i / 64), n, b); out[i] = in[i] ^ b[i % 64]; }
}
/* NIP-44: smallest padded size, in the steps the specification draws */
static size_t r44_padlen(size_t n)
{
    if (n <= 32) return 32;
    size_t p = 1; while (p < n) p *= 2;              /* next power of two >= n */
    size_t chunk = p <= 256 ? 32 : p / 8;
    size_t r = 0; while (r < n) r += chunk;
    return r;
}
static const char r44_b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static char *r44_enc64(const uint8_t *d, size_t n)
{
    char *o = malloc((n + 2) / 3 * 4 + 1); size_t k = 0;
    for (size_t i = 0; i < n; i += 3) { uint32_t v = (uint32_t)d[i] << 16 | (i + 1 < n ? (uint32_t)d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
        o[k++] = r44_b64[v >> 18]; o[k++] = r44_b64[v >> 12 & 63]; o[k++] = i + 1 < n ? r44_b64[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? r44_b64[v & 63] : '='; }
    o[k] = 0; return o;
}
/* RFC 4648 section 4, padded, no other characters; *canonical: the unused bits are zero. -1: not base64 */
static long r44_dec64(const char *s, size_t n, uint8_t *o, int *canonical)
{
    long k = 0; *canonical = 1; if (n % 4) return -1;
    for (size_t i = 0; i < n; i += 4) { uint32_t v = 0; int pad = 0;
        for (int j = 0; j < 4; j++) { const char *p = s[i + j] ? strchr(r44_b64, s[i + j]) : NULL;
            if (s[i + j] == '=' && i + 4 == n && j >= 2) { pad++; v <<= 6; continue; }
            if (!p || pad) return -1; v = v << 6 | (uint32_t)(p - r44_b64); }
        o[k++] = (uint8_t)(v >> 16); if (pad < 2) o[k++] = (uint8_t)(v >> 8); if (pad < 1) o[k++] = (uint8_t)v;
        if (pad == 1 && (v & 0xff)) *canonical = 0; if (pad == 2 && (v & 0xffff)) *canonical = 0; }
    return k;
}
/* raw payload of `padded` (already padded) bytes */
static uint8_t *r44_seal_raw(const uint8_t ck[32], const uint8_t nonce[32], int version, const uint8_t *padded, size_t n, size_t *len)
{
    uint8_t k[96], *o = malloc(n + 65); r44_keys(ck, nonce, k);
    o[0] = (uint8_t)version; memcpy(o + 1, nonce, 32); r44_chacha(k, k + 32, padded, o + 33, n);
    r44_hmac(k + 44, 32, nonce, 32, o + 33, n, o + 33 + n); *len = n + 65; return o;
}
static char *r44_seal(const uint8_t ck[32], const uint8_t nonce[32], const void *pt, size_t n)
{
    size_t pl = r44_padlen(n) + 2, rl; uint8_t *p = calloc(1, pl); p[0] = (uint8_t)(n >> 8); p[1] = (uint8_t)n; memcpy(p + 2, pt, n);
    uint8_t *r = r44_seal_raw(ck, nonce, 2, p, pl, &rl); char *o = r44_enc64(r, rl); free(p); free(r); return o;
}
/* opens a raw payload: NULL or the plaintext (malloc, *n bytes) */
static uint8_t *r44_open_raw(const uint8_t ck[32], const uint8_t *p, size_t len, size_t *n)
{
    if (len < 99 || len > 65603 || p[0] != 2) return NULL;
    uint8_t k[96], mac[32]; r44_keys(ck, p + 1, k); size_t cl = len - 65; r44_hmac(k + 44, 32, p + 1, 32, p + 33, cl, mac);
    if (memcmp(mac, p + len - 32, 32)) return NULL;
    uint8_t *d = malloc(cl); r44_chacha(k, k + 32, p + 33, d, cl); *n = (size_t)d[0] << 8 | d[1];
    if (!*n || *n + 2 > cl || cl != 2 + r44_padlen(*n)) { free(d); return NULL; }
    memmove(d, d + 2, *n); return d;
}
static uint8_t *r44_open(const uint8_t ck[32], const char *s, size_t *n)
{
    size_t l = strlen(s); uint8_t *raw = malloc(l + 4); int can; long rl = r44_dec64(s, l, raw, &can); uint8_t *r = rl < 0 ? NULL : r44_open_raw(ck, raw, (size_t)rl, n); free(raw); return r;
}
/* AES-256 (FIPS 197), one block at a time */
static uint8_t r44_sb[256], r44_isb[256];
static uint8_t r44_xt(uint8_t a) { return (uint8_t)(a << 1 ^ (a >> 7) * 0x1b); }
static uint8_t r44_gm(uint8_t a, uint8_t b) { uint8_t r = 0; for (; b; b >>= 1, a = r44_xt(a)) if (b & 1) r ^= a; return r; }
static void r44_aes_init(void)
{
    if (r44_sb[0]) return; 
    for (int i = 0; i < 256; i++) { uint8_t v = 0; if (i) for (int j = 1; j < 256; j++) if (r44_gm((uint8_t)i, (uint8_t)j) == 1) v = (uint8_t)j;
        uint8_t s = 0x63; for (int b = 0; b < 5; b++) s ^= (uint8_t)(v << b | v >> (8 - b)); r44_sb[i] = s; }
    for (int i = 0; i < 256; i++) r44_isb[r44_sb[i]] = (uint8_t)i;
}
static void r44_aes_key(const uint8_t k[32], uint8_t w[240])
{
    r44_aes_init(); memcpy(w, k, 32); uint8_t rc = 1;
    for (int i = 32; i < 240; i += 4) { uint8_t t[4]; memcpy(t, w + i - 4, 4);
        if (i % 32 == 0) { uint8_t x = t[0]; t[0] = r44_sb[t[1]] ^ rc; t[1] = r44_sb[t[2]]; t[2] = r44_sb[t[3]]; t[3] = r44_sb[x]; rc = r44_xt(rc); }
        else if (i % 32 == 16) for (int j = 0; j < 4; j++) t[j] = r44_sb[t[j]];
        for (int j = 0; j < 4; j++) w[i + j] = w[i - 32 + j] ^ t[j]; }
}
static void r44_aes_block(const uint8_t w[240], const uint8_t in[16], uint8_t out[16], int dec)
{
    uint8_t s[16], t[16]; memcpy(s, in, 16);
    if (!dec) { for (int i = 0; i < 16; i++) s[i] ^= w[i];
        for (int r = 1; r <= 14; r++) { for (int c = 0; c < 4; c++) for (int y = 0; y < 4; y++) t[c * 4 + y] = r44_sb[s[(c + y) % 4 * 4 + y]];
            for (int c = 0; c < 4; c++) for (int y = 0; y < 4; y++) s[c * 4 + y] = (r == 14 ? t[c * 4 + y] : (uint8_t)(r44_gm(t[c * 4 + y], 2) ^ r44_gm(t[c * 4 + (y + 1) % 4], 3) ^ t[c * 4 + (y + 2) % 4] ^ t[c * 4 + (y + 3) % 4])) ^ w[r * 16 + c * 4 + y]; } }
    else { for (int i = 0; i < 16; i++) s[i] ^= w[224 + i];
        for (int r = 13; r >= 0; r--) { for (int c = 0; c < 4; c++) for (int y = 0; y < 4; y++) t[(c + y) % 4 * 4 + y] = r44_isb[s[c * 4 + y]];
            for (int i = 0; i < 16; i++) t[i] ^= w[r * 16 + i];
            if (r) for (int c = 0; c < 4; c++) for (int y = 0; y < 4; y++) s[c * 4 + y] = (uint8_t)(r44_gm(t[c * 4 + y], 14) ^ r44_gm(t[c * 4 + (y + 1) % 4], 11) ^ r44_gm(t[c * 4 + (y + 2) % 4], 13) ^ r44_gm(t[c * 4 + (y + 3) % 4], 9));
            else memcpy(s, t, 16); } }
    memcpy(out, s, 16);
}
static char *r04_seal(const uint8_t key[32], const uint8_t iv[16], const void *pt, size_t n)
{
    size_t m = (n / 16 + 1) * 16; uint8_t w[240], *b = malloc(m), x[16]; memcpy(b, pt, n); memset(b + n, (int)(m - n), m - n); r44_aes_key(key, w); memcpy(x, iv, 16);
    for (size_t i = 0; i < m; i += 16) { for (int j = 0; j < 16; j++) b[i + j] ^= x[j]; r44_aes_block(w, b + i, b + i, 0); memcpy(x, b + i, 16); }
    char *c = r44_enc64(b, m), *v = r44_enc64(iv, 16), *o = malloc(strlen(c) + strlen(v) + 5); strcpy(o, c); strcat(o, "?iv="); strcat(o, v); free(b); free(c); free(v); return o;
}
static uint8_t *r04_open_raw(const uint8_t key[32], const uint8_t iv[16], const uint8_t *ct, size_t m, size_t *n)
{
    if (!m || m % 16) return NULL;
    uint8_t w[240], *b = malloc(m), x[16]; r44_aes_key(key, w); memcpy(x, iv, 16);
    for (size_t i = 0; i < m; i += 16) { r44_aes_block(w, ct + i, b + i, 1); for (int j = 0; j < 16; j++) b[i + j] ^= x[j]; memcpy(x, ct + i, 16); }
    int p = b[m - 1]; if (p < 1 || p > 16) { free(b); return NULL; }
    for (int j = 1; j <= p; j++) if (b[m - (size_t)j] != p) { free(b); return NULL; }
    *n = m - (size_t)p; return b;
}
#endif
