/* Parties with keys, everything about them computed without the library: public keys, NIP-44 conversation
 * keys and NIP-04 secrets with each other (libsecp256k1 in a context of its own), signatures, payloads. */
#ifndef PARTY_H
#define PARTY_H
#include "refev.h"
#include "refnip44.h"
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <secp256k1_ecdh.h>
#define NK 4
static secp256k1_context *PX; static nostr_privkey SK[NK]; static nostr_key PK[NK]; static char PKH[NK][65], SKH[NK][65];
static int party_cx(unsigned char *o, const unsigned char *x, const unsigned char *y, void *d) { (void)y; (void)d; memcpy(o, x, 32); return 1; }
static void party_pub(const uint8_t sk[32], uint8_t pk[32]) { secp256k1_keypair kp; secp256k1_xonly_pubkey x; if (!secp256k1_keypair_create(PX, &kp, sk)) mc_fail("party", "bad key"); secp256k1_keypair_xonly_pub(PX, &x, NULL, &kp); secp256k1_xonly_pubkey_serialize(PX, pk, &x); }
static void party_setup(void)
{
    if (PX) return; PX = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
    static const char *const K[NK] = { "0000000000000000000000000000000000000000000000000000000000000001", "0000000000000000000000000000000000000000000000000000000000000002", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd036413e" };
    for (int i = 0; i < NK; i++) { ref_unhex(K[i], 64, SK[i].data); strcpy(SKH[i], K[i]); party_pub(SK[i].data, PK[i].data); ref_hex(PK[i].data, 32, PKH[i]); }
}
/* shared x coordinate of a private and an x-only public key; 0: not a point */
static int party_shared(const uint8_t sk[32], const uint8_t pk[32], uint8_t out[32])
{
    uint8_t c[33] = { 2 }; memcpy(c + 1, pk, 32); secp256k1_pubkey p; return secp256k1_ec_pubkey_parse(PX, &p, c, 33) && secp256k1_ecdh(PX, out, &p, sk, party_cx, NULL);
}
static uint8_t *party_open44(const uint8_t sk[32], const uint8_t pk[32], const char *payload, size_t *n) { uint8_t s[32], ck[32]; if (!party_shared(sk, pk, s)) return NULL; r44_conv(s, ck); return r44_open(ck, payload, n); }
static char *party_seal44(const uint8_t sk[32], const uint8_t pk[32], const void *d, size_t n) { uint8_t s[32], ck[32], no[32]; if (!party_shared(sk, pk, s)) mc_fail("party", "no shared secret"); r44_conv(s, ck); ref_sha256(d, n, no); return r44_seal(ck, no, d, n); }
static char *party_seal04(const uint8_t sk[32], const uint8_t pk[32], const void *d, size_t n) { uint8_t s[32], iv[16]; if (!party_shared(sk, pk, s)) mc_fail("party", "no shared secret"); memset(iv, 0x42, 16); iv[3] = (uint8_t)n; return r04_seal(s, iv, d, n); }
static uint8_t *party_open04(const uint8_t sk[32], const uint8_t pk[32], const char *t, size_t *n)
{
    uint8_t s[32], iv[64]; int c; const char *q = strstr(t, "?iv="); if (!q || !party_shared(sk, pk, s) || strlen(q + 4) > 40) return NULL; uint8_t *raw = malloc(strlen(t) + 8); long l = r44_dec64(t, (size_t)(q - t), raw, &c), m = r44_dec64(q + 4, strlen(q + 4), iv, &c);
    uint8_t *p = l > 0 && m == 16 ? r04_open_raw(s, iv, raw, (size_t)l, n) : NULL; free(raw); return p;
}
/* fills in pubkey, id and signature of an event with the reference's own means */
static void party_sign(nostr_event *e, const uint8_t sk[32]) { secp256k1_keypair kp; uint8_t aux[32] = { 7 }; party_pub(sk, e->pubkey.data); refev_id(e, e->id); if (!secp256k1_keypair_create(PX, &kp, sk) || !secp256k1_schnorrsig_sign32(PX, e->sig, e->id, &kp, aux)) mc_fail("party", "cannot sign"); }
static int party_signed(const nostr_event *e) { secp256k1_xonly_pubkey x; uint8_t id[32]; refev_id(e, id); return !memcmp(id, e->id, 32) && secp256k1_xonly_pubkey_parse(PX, &x, e->pubkey.data) && secp256k1_schnorrsig_verify(PX, e->sig, e->id, 32, &x); }
static inline void party_unused(void) { (void)party_open44; (void)party_seal44; (void)party_seal04; (void)party_open04; (void)party_sign; (void)party_signed; (void)party_unused; }
#endif
