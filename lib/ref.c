#include "ref.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
static uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static void blk(uint32_t h[8], const uint8_t *p)
{
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 64; i++) {
        uint32_t s0 = rr(w[i-15],7) ^ rr(w[i-15],18) ^ (w[i-15] >> 3), s1 = rr(w[i-2],17) ^ rr(w[i-2],19) ^ (w[i-2] >> 10);
        w[i] = w[i-16] + s0 + w[i-7] + s1;
    }
    uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = hh + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i];
        uint32_t t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&b)^(a&c)^(b&c));
        hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=hh;
}
void ref_sha256(const void *vp, size_t n, uint8_t out[32])
{
    uint32_t h[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    const uint8_t *p = vp; size_t i;
    for (i = 0; i + 64 <= n; i += 64) blk(h, p + i);
    uint8_t t[128] = {0}; size_t r = n - i;
    memcpy(t, p + i, r); t[r] = 0x80;
    size_t tl = r < 56 ? 64 : 128; uint64_t bits = (uint64_t)n * 8;
    for (int k = 0; k < 8; k++) t[tl - 1 - k] = bits >> (8 * k);
    blk(h, t); if (tl == 128) blk(h, t + 64);
    for (int k = 0; k < 8; k++) { out[4*k]=h[k]>>24; out[4*k+1]=h[k]>>16; out[4*k+2]=h[k]>>8; out[4*k+3]=h[k]; }
}
void ref_hex(const void *vp, size_t n, char *o) { const uint8_t *p = vp; static const char d[] = "0123456789abcdef"; for (size_t i=0;i<n;i++){o[2*i]=d[p[i]>>4];o[2*i+1]=d[p[i]&15];} o[2*n]=0; }
static int nib(int c) { return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
int ref_is_hex(const char *s, size_t n) { for (size_t i=0;i<n;i++) if (nib((unsigned char)s[i])<0) return 0; return 1; }
int ref_unhex(const char *s, size_t n, uint8_t *o) { if (n&1) return -1; for (size_t i=0;i<n/2;i++){int a=nib((unsigned char)s[2*i]),b=nib((unsigned char)s[2*i+1]); if(a<0||b<0)return -1; o[i]=a<<4|b;} return 0; }
void rb_free(ref_buf *b) { free(b->s); b->s = 0; b->n = b->cap = 0; }
void rb_putn(ref_buf *b, const char *s, size_t n)
{
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2 + 64; b->s = realloc(b->s, b->cap); }
    memcpy(b->s + b->n, s, n); b->n += n; b->s[b->n] = 0;
}
void rb_put(ref_buf *b, const char *s) { rb_putn(b, s, strlen(s)); }
void rb_fmt(ref_buf *b, const char *f, ...)
{
    char t[2048]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap); rb_put(b, t);
}
void rb_json(ref_buf *b, const char *s)
{
    rb_put(b, "\"");
    for (; *s; s++) {
        unsigned char c = *s;
        switch (c) {
        case '"': rb_put(b, "\\\""); break; case '\\': rb_put(b, "\\\\"); break;
        case '\b': rb_put(b, "\\b"); break; case '\f': rb_put(b, "\\f"); break;
        case '\n': rb_put(b, "\\n"); break; case '\r': rb_put(b, "\\r"); break; case '\t': rb_put(b, "\\t"); break;
        default: if (c < 0x20) rb_fmt(b, "\\u%04x", c); else rb_putn(b, s, 1);
        }
    }
    rb_put(b, "\"");
}
const char ref_b32[33] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static uint32_t pm(uint32_t c, int v)
{
    static const uint32_t G[5] = {0x3b6a57b2,0x26508e6d,0x1ea119fa,0x3d4233dd,0x2a1462b3};
    int t = c >> 25; c = (c & 0x1ffffff) << 5 ^ v;
    for (int i = 0; i < 5; i++) if (t >> i & 1) c ^= G[i];
    return c;
}
int ref_bech32_encode5(const char *hrp, const uint8_t *d, size_t n, char *out)
{
    uint32_t c = 1; size_t h = strlen(hrp);
    for (size_t i=0;i<h;i++) c = pm(c, (unsigned char)hrp[i] >> 5);
    c = pm(c, 0);
    for (size_t i=0;i<h;i++) c = pm(c, hrp[i] & 31);
    char *o = out; memcpy(o, hrp, h); o += h; *o++ = '1';
    for (size_t i=0;i<n;i++) { c = pm(c, d[i]); *o++ = ref_b32[d[i]]; }
    for (int i=0;i<6;i++) c = pm(c, 0);
    c ^= 1;
    for (int i=0;i<6;i++) *o++ = ref_b32[(c >> 5*(5-i)) & 31];
    *o = 0; return 0;
}
int ref_bech32_encode(const char *hrp, const uint8_t *data, size_t n, char *out)
{
    uint8_t *d = malloc(n * 2 + 2); size_t k = 0; uint32_t acc = 0; int b = 0;
    for (size_t i=0;i<n;i++) { acc = (acc << 8 | data[i]) & 0xffff; b += 8; while (b >= 5) { b -= 5; d[k++] = acc >> b & 31; } }
    if (b) d[k++] = acc << (5 - b) & 31;
    ref_bech32_encode5(hrp, d, k, out); free(d); return 0;
}
int ref_bech32_decode5(const char *s, char *hrp, uint8_t *d5, size_t *n)
{
    size_t L = strlen(s); const char *sep = strrchr(s, '1');
    if (!sep || sep == s || (size_t)(s + L - sep) < 7) return -1;
    size_t h = sep - s; int lo = 0, up = 0;
    for (size_t i=0;i<L;i++) { unsigned char c = s[i]; if (c<33||c>126) return -1; if (c>='a'&&c<='z') lo=1; if (c>='A'&&c<='Z') up=1; }
    if (lo && up) return -1;
    for (size_t i=0;i<h;i++) hrp[i] = s[i]>='A'&&s[i]<='Z' ? s[i]+32 : s[i];
    hrp[h] = 0;
    uint32_t c = 1;
    for (size_t i=0;i<h;i++) c = pm(c, (unsigned char)hrp[i] >> 5);
    c = pm(c, 0);
    for (size_t i=0;i<h;i++) c = pm(c, hrp[i] & 31);
    size_t k = 0;
    for (size_t i=h+1;i<L;i++) {
        char ch = s[i]>='A'&&s[i]<='Z' ? s[i]+32 : s[i];
        const char *q = ch ? strchr(ref_b32, ch) : 0; if (!q) return -1;
        c = pm(c, q - ref_b32); d5[k++] = q - ref_b32;
    }
    if (c != 1) return -1;
    *n = k - 6; return 0;
}
