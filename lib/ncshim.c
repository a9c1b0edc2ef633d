#include <string.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <secp256k1_ecdh.h>
#include "noscrypt/noscrypt.h"
#include "refnip44.h"
struct nc_ctx_struct { secp256k1_context *c; int live; };
static NCContext shared;
static secp256k1_context *S(void) { static secp256k1_context *c; if (!c) c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); return c; }
int (*ncshim_fault)(const char *fn);
#define ENTER(ctx) do { if (!(ctx) || !(ctx)->live) return -3; if (ncshim_fault && ncshim_fault(__func__)) return -9; } while (0)
#define SIMPLE() do { if (ncshim_fault && ncshim_fault(__func__)) return -9; } while (0)
NCContext *NCGetSharedContext(void) { if (ncshim_fault && ncshim_fault(__func__)) return NULL; return &shared; }
NCResult NCInitContext(NCContext *x, const uint8_t e[32]) { (void)e; SIMPLE(); if (!x) return -1; x->c = S(); x->live = 1; return NC_SUCCESS; }
NCResult NCDestroyContext(NCContext *x) { if (!x) return -1; x->live = 0; x->c = NULL; return NC_SUCCESS; }
static int kp(const uint8_t k[32], secp256k1_keypair *o) { return secp256k1_keypair_create(S(), o, k); }
NCResult NCGetPublicKey(const NCContext *x, const NCSecretKey *sk, NCPublicKey *pk) { ENTER(x); secp256k1_keypair k; secp256k1_xonly_pubkey p; if (!kp(sk->key, &k) || !secp256k1_keypair_xonly_pub(S(), &p, NULL, &k) || !secp256k1_xonly_pubkey_serialize(S(), pk->key, &p)) return -5; return NC_SUCCESS; }
NCResult NCValidateSecretKey(const NCContext *x, const NCSecretKey *sk) { ENTER(x); return secp256k1_ec_seckey_verify(S(), sk->key) ? NC_SUCCESS : -5; }
NCResult NCSignDigest(const NCContext *x, const NCSecretKey *sk, const uint8_t r[32], const uint8_t d[32], uint8_t sig[64]) { ENTER(x); secp256k1_keypair k; if (!kp(sk->key, &k) || !secp256k1_schnorrsig_sign32(S(), sig, d, &k, r)) return -5; return NC_SUCCESS; }
NCResult NCVerifyDigest(const NCContext *x, const NCPublicKey *pk, const uint8_t d[32], const uint8_t sig[64]) { ENTER(x); secp256k1_xonly_pubkey p; if (!secp256k1_xonly_pubkey_parse(S(), &p, pk->key) || !secp256k1_schnorrsig_verify(S(), sig, d, 32, &p)) return -5; return NC_SUCCESS; }
static int copyx(unsigned char *o, const unsigned char *x, const unsigned char *y, void *d) { (void)y; (void)d; memcpy(o, x, 32); return 1; }
static int ecdh(const uint8_t sk[32], const uint8_t pk[32], uint8_t o[32]) { uint8_t c[33] = { 2 }; secp256k1_pubkey p; memcpy(c + 1, pk, 32); return secp256k1_ec_pubkey_parse(S(), &p, c, 33) && secp256k1_ecdh(S(), o, &p, sk, copyx, NULL); }
NCResult NCGetSharedSecret(const NCContext *x, const NCSecretKey *sk, const NCPublicKey *pk, uint8_t o[32]) { ENTER(x); return ecdh(sk->key, pk->key, o) ? NC_SUCCESS : -5; }
uint32_t NCEncryptionGetIvSize(uint32_t v) { return v == NC_ENC_VERSION_NIP44 ? 32 : v == NC_ENC_VERSION_NIP04 ? 16 : 0; }
NCResult NCEncryptionSetProperty(NCEncryptionArgs *a, uint32_t p, uint32_t v) { SIMPLE(); if (p != NC_ENC_SET_VERSION) return -1; a->version = v; return NC_SUCCESS; }
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs *a, uint32_t p, uint8_t *v, uint32_t n) { SIMPLE(); if (n != 32) return -2; if (p == NC_ENC_SET_IV) a->ivData = v; else if (p == NC_ENC_SET_NIP44_MAC_KEY) a->keyData = v; else return -1; return NC_SUCCESS; }
NCResult NCEncryptionSetData(NCEncryptionArgs *a, const uint8_t *in, uint8_t *out, uint32_t n) { SIMPLE(); if (!in || !out || !n) return -1; a->inputData = in; a->outputData = out; a->dataSize = n; return NC_SUCCESS; }
/* the stand-in's own allocations are not the library's */
int fault_pause(void) __attribute__((weak)); void fault_resume(int) __attribute__((weak));
static int P(void) { return fault_pause ? fault_pause() : 0; }
static void R(int p) { if (fault_resume) fault_resume(p); }
static int conv(const NCSecretKey *sk, const NCPublicKey *pk, uint8_t ck[32]) { uint8_t s[32]; if (!ecdh(sk->key, pk->key, s)) return 0; r44_conv(s, ck); return 1; }
NCResult NCEncrypt(const NCContext *x, const NCSecretKey *sk, const NCPublicKey *pk, NCEncryptionArgs *a)
{
    ENTER(x); int q = P(); uint8_t ck[32], k[96]; if (a->version != NC_ENC_VERSION_NIP44 || !a->ivData || !a->keyData || !a->inputData) { R(q); return -1; }
    if (!conv(sk, pk, ck)) { R(q); return -5; }
    r44_keys(ck, a->ivData, k); memcpy(a->keyData, k + 44, 32); r44_chacha(k, k + 32, a->inputData, a->outputData, a->dataSize); R(q); return NC_SUCCESS;
}
NCResult NCDecrypt(const NCContext *x, const NCSecretKey *sk, const NCPublicKey *pk, NCEncryptionArgs *a)
{
    ENTER(x); int q = P(); uint8_t ck[32], k[96]; if (a->version != NC_ENC_VERSION_NIP44 || !a->ivData || !a->inputData) { R(q); return -1; }
    if (!conv(sk, pk, ck)) { R(q); return -5; }
    r44_keys(ck, a->ivData, k); r44_chacha(k, k + 32, a->inputData, a->outputData, a->dataSize); R(q); return NC_SUCCESS;
}
NCResult NCComputeMac(const NCContext *x, const uint8_t hk[32], const uint8_t *p, uint32_t n, uint8_t mac[32]) { ENTER(x); int q = P(); r44_hmac(hk, 32, p, n, 0, 0, mac); R(q); return NC_SUCCESS; }
NCResult NCVerifyMac(const NCContext *x, const NCSecretKey *sk, const NCPublicKey *pk, NCMacVerifyArgs *a)
{
    ENTER(x); int q = P(); uint8_t ck[32], k[96], m[32]; if (!conv(sk, pk, ck)) { R(q); return -5; }
    r44_keys(ck, a->nonce32, k); r44_hmac(k + 44, 32, a->payload, a->payloadSize, 0, 0, m); R(q); return memcmp(m, a->mac32, 32) ? -6 : NC_SUCCESS;
}
