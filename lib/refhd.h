/* BIP-32 private derivation: own HMAC-SHA512 and arithmetic modulo n; libsecp256k1 for points. */
#ifndef REFHD_H
#define REFHD_H
#include "ref512.h"
#include <nostr.h>
#include <secp256k1.h>
static secp256k1_context *C;
#ifndef RAW
#define RAW(fn) fn
#endif
/* ---- reference ---- */
static const uint8_t N[32] = { 0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,0xd0,0x36,0x41,0x41 };
typedef struct { uint8_t k[32], c[32], x[32], P[33]; } hk;
static int inrange(const uint8_t *k) { int z = 1; for (int i = 0; i < 32; i++) if (k[i]) z = 0; return !z && memcmp(k, N, 32) < 0; }
static int pubs(hk *h) { secp256k1_pubkey p; size_t l = 33; if (!inrange(h->k) || !RAW(secp256k1_ec_pubkey_create)(C, &p, h->k)) return 0; RAW(secp256k1_ec_pubkey_serialize)(C, h->P, &l, &p, SECP256K1_EC_COMPRESSED); memcpy(h->x, h->P + 1, 32); return 1; }
static int split(const uint8_t I[64], const hk *par, hk *o)
{
    if (!par) { memcpy(o->k, I, 32); memcpy(o->c, I + 32, 32); return pubs(o); }
    if (memcmp(I, N, 32) >= 0) return 0;
    unsigned c = 0; uint8_t s[33], d[33]; for (int i = 31; i >= 0; i--) { c += I[i] + par->k[i]; s[i + 1] = (uint8_t)c; c >>= 8; } s[0] = (uint8_t)c;
    int b = 0; for (int i = 32; i >= 0; i--) { int v = s[i] - (i ? N[i - 1] : 0) - b; b = v < 0; d[i] = (uint8_t)(v + 256 * b); } memcpy(o->k, (b ? s : d) + 1, 32); memcpy(o->c, I + 32, 32); return pubs(o);
}
static int __attribute__((unused)) ref_master(const uint8_t *seed, size_t n, hk *o) { uint8_t I[64]; ref_hmac512("Bitcoin seed", 12, seed, n, I); return split(I, NULL, o); }
static int __attribute__((unused)) ref_child(const hk *p, uint32_t i, hk *o) { uint8_t d[37], I[64]; if (i >> 31) { d[0] = 0; memcpy(d + 1, p->k, 32); } else memcpy(d, p->P, 33); for (int j = 0; j < 4; j++) d[33 + j] = (uint8_t)(i >> (24 - 8 * j)); ref_hmac512(p->c, 32, d, 37, I); hk t; int r = split(I, p, &t); *o = t; return r; }
static int __attribute__((unused)) same(const nostr_hd_key *g, const hk *w) { return !memcmp(g->privkey.data, w->k, 32) && !memcmp(g->pubkey.data, w->x, 32) && !memcmp(g->chain_code, w->c, 32); }
static void __attribute__((unused)) put(nostr_hd_key *g, const hk *w) { memset(g, 0, sizeof *g); memcpy(g->privkey.data, w->k, 32); memcpy(g->pubkey.data, w->x, 32); memcpy(g->chain_code, w->c, 32); }
#endif
