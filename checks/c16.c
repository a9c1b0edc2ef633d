/* C16: initialization and cleanup in any order and from any thread.
 *
 * The curve backend is a link-time seam: contexts created by the library are counted, marked dead when destroyed
 * (their memory is kept), and every use of a context is checked (and, in the sched builds, is a monitored read).
 * Expected keys and signatures are computed with libsecp256k1 in a context of the harness's own.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#if defined(BUILD_SCHED) || defined(BUILD_SCHEDM)
#define SCHED_BUILD 1
#include "../lib/mcsched.h"
#include "../lib/fault.h"
#include <pthread.h>
#endif
#include <nostr.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <secp256k1_ecdh.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

typedef secp256k1_context ctx_t;
static ctx_t *C;                                                 /* the harness's own */
static int seam;                                                 /* off: the harness itself calls */
static struct { const ctx_t *p; int live; } made[64]; static int nmade, nlive, maxlive, armed, failed;
static void use(const ctx_t *c, int write, const char *fn)
{
    if (!seam || c == C) return;
    if (c == secp256k1_context_static) return;
    int k = -1; for (int i = 0; i < nmade; i++) if (made[i].p == c) k = i;
    if (!c) mc_fail("no-context", "%s is called without a context", fn);
    if (k < 0) mc_fail("foreign-context", "%s is called with something that is not a context", fn);
    if (!made[k].live) mc_fail("dead-context", "%s is called with a destroyed context", fn);
#ifdef SCHED_BUILD
    sched_access(c, 8, write, fn);
#endif
    (void)write;
}
ctx_t *__real_secp256k1_context_create(unsigned); void __real_secp256k1_context_destroy(ctx_t *);
ctx_t *__wrap_secp256k1_context_create(unsigned f)
{
    if (!seam) return __real_secp256k1_context_create(f);
#ifdef SCHED_BUILD
    sched_point("context_create");
#endif
    if (armed && mc_in_execution() && mc_choose_dev(2)) { failed++; MC_NOTE("  context creation fails"); return NULL; }
    ctx_t *c = __real_secp256k1_context_create(f); if (nmade == 64) mc_discard();
    made[nmade].p = c; made[nmade++].live = 1; if (++nlive > maxlive) maxlive = nlive;
    if (nlive > 1) mc_fail("created-twice", "a second context is created while the first one lives");
#ifdef SCHED_BUILD
    sched_access(c, 8, 1, "context_create");
#endif
    return c;
}
void __wrap_secp256k1_context_destroy(ctx_t *c)
{
    if (!seam) { __real_secp256k1_context_destroy(c); return; }
    if (!c) return;
    use(c, 1, "context_destroy");
    for (int i = 0; i < nmade; i++) if (made[i].p == c) made[i].live = 0;
    nlive--;
}
#define USE(T, fn, decl, call) T __real_##fn decl; T __wrap_##fn decl { use(c, 0, #fn); return __real_##fn call; }
USE(int, secp256k1_ec_seckey_verify, (const ctx_t *c, const unsigned char *k), (c, k))
USE(int, secp256k1_ec_pubkey_create, (const ctx_t *c, secp256k1_pubkey *p, const unsigned char *k), (c, p, k))
USE(int, secp256k1_ec_pubkey_parse, (const ctx_t *c, secp256k1_pubkey *p, const unsigned char *k, size_t n), (c, p, k, n))
USE(int, secp256k1_ec_pubkey_serialize, (const ctx_t *c, unsigned char *o, size_t *n, const secp256k1_pubkey *p, unsigned f), (c, o, n, p, f))
USE(int, secp256k1_ec_seckey_tweak_add, (const ctx_t *c, unsigned char *k, const unsigned char *t), (c, k, t))
USE(int, secp256k1_xonly_pubkey_from_pubkey, (const ctx_t *c, secp256k1_xonly_pubkey *x, int *par, const secp256k1_pubkey *p), (c, x, par, p))
USE(int, secp256k1_xonly_pubkey_serialize, (const ctx_t *c, unsigned char *o, const secp256k1_xonly_pubkey *x), (c, o, x))
USE(int, secp256k1_xonly_pubkey_parse, (const ctx_t *c, secp256k1_xonly_pubkey *x, const unsigned char *o), (c, x, o))
USE(int, secp256k1_keypair_create, (const ctx_t *c, secp256k1_keypair *kp, const unsigned char *k), (c, kp, k))
USE(int, secp256k1_keypair_xonly_pub, (const ctx_t *c, secp256k1_xonly_pubkey *x, int *par, const secp256k1_keypair *kp), (c, x, par, kp))
USE(int, secp256k1_schnorrsig_sign32, (const ctx_t *c, unsigned char *s, const unsigned char *m, const secp256k1_keypair *kp, const unsigned char *a), (c, s, m, kp, a))
USE(int, secp256k1_schnorrsig_verify, (const ctx_t *c, const unsigned char *s, const unsigned char *m, size_t n, const secp256k1_xonly_pubkey *x), (c, s, m, n, x))
USE(int, secp256k1_ecdh, (const ctx_t *c, unsigned char *o, const secp256k1_pubkey *p, const unsigned char *k, secp256k1_ecdh_hash_function h, void *d), (c, o, p, k, h, d))
int __real_secp256k1_context_randomize(ctx_t *, const unsigned char *); int __wrap_secp256k1_context_randomize(ctx_t *c, const unsigned char *s) { use(c, 1, "context_randomize"); return __real_secp256k1_context_randomize(c, s); }

/* ---- generator: unique bytes ---- */
static uint64_t rctr;
int __wrap_RAND_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { if (i % 8 == 0) rctr++; uint64_t z = rctr * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; b[i] = z >> (8 * (i % 8)); } return 1; }
int __wrap_RAND_priv_bytes(unsigned char *b, int n) { return __wrap_RAND_bytes(b, n); }
int __wrap_mbedtls_ctr_drbg_seed(void *c, void *f, void *pe, const unsigned char *cu, size_t l) { (void)c; (void)f; (void)pe; (void)cu; (void)l; return 0; }
int __wrap_mbedtls_ctr_drbg_random(void *c, unsigned char *b, size_t n) { (void)c;
#ifdef SCHED_BUILD
    sched_access(c, 8, 1, "generator");
#endif
    return __wrap_RAND_bytes(b, (int)n) ? 0 : -1; }

/* ---- expectations ---- */
static uint8_t SK1[32], SK2[32], PK1[32], PK2[32], SHARED[32]; static nostr_event *GOOD, *BAD;
static void pub(const uint8_t *sk, uint8_t pk[32]) { secp256k1_pubkey p; secp256k1_xonly_pubkey x; __real_secp256k1_ec_pubkey_create(C, &p, sk); __real_secp256k1_xonly_pubkey_from_pubkey(C, &x, NULL, &p); __real_secp256k1_xonly_pubkey_serialize(C, pk, &x); }
static nostr_event *made_event(int bad)
{
    nostr_event *e = refev_new(); nostr_event_set_content(e, "in any order"); refev_tag(e, 2, "p", "x", 0, 0); memcpy(e->pubkey.data, PK1, 32); refev_id(e, e->id);
    secp256k1_keypair kp; __real_secp256k1_keypair_create(C, &kp, SK1); __real_secp256k1_schnorrsig_sign32(C, e->sig, e->id, &kp, NULL); if (bad) e->sig[40] ^= 4; return e;
}
static int sig_ok(const nostr_event *e) { uint8_t id[32]; secp256k1_xonly_pubkey x; refev_id(e, id); return !memcmp(id, e->id, 32) && __real_secp256k1_xonly_pubkey_parse(C, &x, e->pubkey.data) && __real_secp256k1_schnorrsig_verify(C, e->sig, e->id, 32, &x); }
static void common(void)
{
    seam = 0; C = __real_secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
    memset(SK1, 0x11, 32); memset(SK2, 0x2b, 32); pub(SK1, PK1); pub(SK2, PK2);
    uint8_t s[33] = {2}; memcpy(s + 1, PK2, 32); secp256k1_pubkey p; size_t l = 33; __real_secp256k1_ec_pubkey_parse(C, &p, s, 33); secp256k1_ec_pubkey_tweak_mul(C, &p, SK1); __real_secp256k1_ec_pubkey_serialize(C, s, &l, &p, SECP256K1_EC_COMPRESSED); memcpy(SHARED, s + 1, 32);
    GOOD = made_event(0); BAD = made_event(1); seam = 1; mc_fork_each = 1;
}
static void reset(void) { nmade = nlive = maxlive = armed = failed = 0; rctr = 0; }

/* ---- operations: 0 ok and right, else the error; wrong results end the execution ---- */
enum { INIT, CLEANUP, INITCFG, GEN, FROM, VALIDATE, SIGN, VERIFY, VERIFYBAD, ECDH, HD, DERIVE, DELEG, RANDOM, NOPS };
static const char *const NAME[] = { "init", "cleanup", "init with configuration", "generate", "key pair from private key", "validate pair", "sign", "verify", "verify a wrong signature", "ecdh", "hd key from seed", "hd derive", "delegate", "random" };
#define OPFAIL(...) mc_fail("result", __VA_ARGS__)
static nostr_error_t op(int o)
{
    nostr_error_t r = NOSTR_OK; uint8_t pk[32];
    switch (o) {
    case INIT: return nostr_init();
    case CLEANUP: nostr_cleanup(); return NOSTR_OK;
    case INITCFG: return nostr_init_with_config(NULL);
    case GEN: { nostr_privkey a; nostr_key b; r = nostr_key_generate(&a, &b); if (r == NOSTR_OK) { pub(a.data, pk); if (memcmp(pk, b.data, 32)) OPFAIL("generated keys do not belong together"); } return r; }
    case FROM: { nostr_privkey a; memcpy(a.data, SK1, 32); nostr_keypair k; nostr_keypair_init(&k); r = nostr_keypair_from_private_key(&k, &a); if (r == NOSTR_OK && (!nostr_keypair_public_key(&k) || memcmp(nostr_keypair_public_key(&k)->data, PK1, 32))) OPFAIL("wrong public key for a private key"); nostr_keypair_destroy(&k); return r; }
    case VALIDATE: { nostr_privkey a; memcpy(a.data, SK1, 32); nostr_keypair k; nostr_keypair_init(&k); r = nostr_keypair_from_private_key(&k, &a); if (r == NOSTR_OK) r = nostr_keypair_validate(&k); if (r == NOSTR_ERR_INVALID_KEY) OPFAIL("a right pair does not validate"); nostr_keypair_destroy(&k); return r; }
    case SIGN: { nostr_event *e = refev_new(); nostr_event_set_content(e, "signed"); nostr_privkey a; memcpy(a.data, SK2, 32); r = nostr_event_sign(e, &a); if (r == NOSTR_OK && (memcmp(e->pubkey.data, PK2, 32) || !sig_ok(e))) OPFAIL("a signed event does not verify"); nostr_event_destroy(e); return r; }
    case VERIFY: r = nostr_event_verify(GOOD); if (r == NOSTR_ERR_INVALID_SIGNATURE || r == NOSTR_ERR_INVALID_EVENT) OPFAIL("a right signature is refused"); return r;
    case VERIFYBAD: r = nostr_event_verify(BAD); if (r == NOSTR_OK) OPFAIL("a wrong signature is accepted"); return r == NOSTR_ERR_INVALID_SIGNATURE ? NOSTR_OK : r;
    case ECDH: { nostr_privkey a; nostr_key b; memcpy(a.data, SK1, 32); memcpy(b.data, PK2, 32); uint8_t s[32]; r = nostr_key_ecdh(&a, &b, s); if (r == NOSTR_OK && memcmp(s, SHARED, 32)) OPFAIL("wrong shared secret"); if (r == NOSTR_ERR_INVALID_KEY) OPFAIL("shared secret of right keys refused"); return r; }
    case HD: case DERIVE: { nostr_hd_key m, c; uint8_t seed[16]; memset(seed, 7, 16); r = nostr_hd_key_from_seed(seed, 16, &m); if (r == NOSTR_OK) { pub(m.privkey.data, pk); if (memcmp(pk, m.pubkey.data, 32)) OPFAIL("wrong public key of a master key"); if (o == DERIVE) { r = nostr_hd_key_derive(&m, 3, &c); if (r == NOSTR_OK) { pub(c.privkey.data, pk); if (memcmp(pk, c.pubkey.data, 32)) OPFAIL("wrong public key of a child key"); } } } return r; }
    case DELEG: { nostr_privkey a; nostr_key b; memcpy(a.data, SK1, 32); memcpy(b.data, PK2, 32); nostr_delegation d; memset(&d, 0, sizeof d); r = nostr_delegation_create(&a, &b, "kind=1", &d); if (r == NOSTR_OK) { nostr_error_t v = nostr_delegation_verify(&d, &b); if (v == NOSTR_ERR_INVALID_SIGNATURE) OPFAIL("a right delegation is refused"); r = v; nostr_delegation_free(&d); } return r; }
    case RANDOM: { uint8_t a[32]; memset(a, 0, 32); if (nostr_random_bytes(a, 32) != 1) OPFAIL("no randomness"); int z = 0; for (int i = 0; i < 32; i++) z += !a[i]; if (z > 8) OPFAIL("random bytes not written"); return NOSTR_OK; }
    }
    return r;
}
static void afterwards(void)
{
    armed = 0;
    for (int o = GEN; o < NOPS; o++) { nostr_error_t r = op(o); if (r != NOSTR_OK) mc_fail("unusable", "afterwards %s fails with %d", NAME[o], r); }
    if (nlive != 1) mc_fail("contexts", "%d live contexts after use", nlive);
    nostr_cleanup(); if (nlive) mc_fail("leak", "%d contexts survive cleanup", nlive);
    nostr_cleanup(); if (nlive) mc_fail("leak", "%d contexts survive cleanup", nlive);
    if (nostr_init() != NOSTR_OK) mc_fail("unusable", "init fails after cleanup");
    if (op(SIGN) || op(VERIFY)) mc_fail("unusable", "unusable after cleanup and init");
    nostr_cleanup(); if (nlive) mc_fail("leak", "%d contexts survive cleanup", nlive);
    mc_conform();
}
#ifndef SCHED_BUILD
/* with the context creation failing at any point: that operation reports an error, others work */
static void sequence(int n, const int *ops, int nops, int dev)
{
    reset(); mc_set_dev_bound(dev); armed = 1; int inited = 0; uint64_t tr = MC_H0;
    for (int i = 0; i < n; i++) {
        int o = mc_choose(nops); if (ops) o = ops[o];
        int f0 = failed; nostr_error_t r = op(o); int f = failed - f0; mc_step(); mc_eval(1);
        MC_NOTE("%s: %d%s", NAME[o], r, f ? " (no context)" : "");
        if (r == NOSTR_OK && f) mc_fail("silent", "%s succeeds although the context could not be created", NAME[o]);
        if (r != NOSTR_OK && !f) mc_fail("refused", "%s fails with %d", NAME[o], r);
        if (o == CLEANUP) { inited = 0; if (nlive) mc_fail("leak", "%d contexts survive cleanup", nlive); }
        else if (o == INIT && r == NOSTR_OK) { inited = 1; if (nlive != 1) mc_fail("contexts", "%d contexts after init", nlive); }
        if (inited && f) mc_fail("recreated", "%s creates a context although the library is initialized", NAME[o]);
        tr = mc_hash_u64(tr, o * 4 + f * 2 + (r != 0)); mc_state(mc_hash_u64(mc_hash_u64(MC_H0, nlive), inited));
    }
    mc_outcome(tr); afterwards();
}
static void sequences(void) { sequence(mc_thorough() ? 4 : 3, NULL, NOPS, mc_thorough() ? 3 : 2); }
static const int LIFE[] = { INIT, CLEANUP, INITCFG, SIGN, GEN };
static void lives(void) { sequence(mc_thorough() ? 7 : 5, LIFE, 5, mc_thorough() ? 3 : 1); }
const mc_scenario mc_scenarios[] = {
    { "sequences", sequences, common, 3, 60, "all sequences of 3 (4) of 14 operations in a fresh process, context creation failing up to 2 (3) times, then every operation" },
    { "lives", lives, common, 3, 60, "all sequences of 5 (7) of init, cleanup, init with configuration, sign, generate; creation failing once (3 times)" }, MC_END };
#else
static void ssetup(void) { sched_setup(); fault_install(); common(); }
typedef struct { int o[2]; nostr_error_t r[2]; } job; static job J[3];
static void *worker(void *a) { job *j = a; for (int i = 0; i < 2; i++) if (j->o[i] >= 0) j->r[i] = op(j->o[i]); return NULL; }
static void run_threads(int nt, const char *what)
{
    fault_reset(); sched_begin(); pthread_t th[3];
    for (int t = 1; t < nt; t++) pthread_create(&th[t], NULL, worker, &J[t]);
    worker(&J[0]);
    for (int t = 1; t < nt; t++) pthread_join(th[t], NULL);
    sched_end(); (void)what;
}
/* the library is fresh, initialized, or cleaned up; then two (three) threads use it at once */
static void start_state(void) { int s = mc_choose(3); reset(); armed = 0; if (s) nostr_init(); if (s == 2) nostr_cleanup(); MC_NOTE("start: %s", s == 0 ? "fresh" : s == 1 ? "initialized" : "cleaned up"); }
static void judge(int nt)
{
    int bad = 0; uint64_t h = MC_H0;
    for (int t = 0; t < nt; t++) for (int i = 0; i < 2; i++) if (J[t].o[i] >= 0) { bad += J[t].r[i] != NOSTR_OK; h = mc_hash_u64(h, J[t].o[i] * 2 + (J[t].r[i] != 0)); MC_NOTE("thread %d: %s: %d", t, NAME[J[t].o[i]], J[t].r[i]); }
    if (bad != failed) mc_fail("results", "%d operations failed, context creation failed %d times", bad, failed);
    mc_outcome(h); mc_state(mc_hash_u64(mc_hash_u64(MC_H0, nlive), nmade)); afterwards();
}
static void pairs(void)
{
    start_state(); armed = 1; mc_set_dev_bound(mc_thorough() ? 3 : 2);
    int a = mc_choose(NOPS), b = mc_choose(NOPS); if (a == CLEANUP || b == CLEANUP) mc_discard();
    if (b < a) mc_discard();
    J[0] = (job){ { a, -1 }, { 0 } }; J[1] = (job){ { b, -1 }, { 0 } };
    run_threads(2, "pairs"); judge(2);
}
static const int OP3[] = { INIT, GEN, SIGN, VERIFY, RANDOM, INITCFG };
static void triples(void)
{
    start_state(); armed = 1; mc_set_dev_bound(2);
    int a = mc_choose(6), b = mc_choose(6), c = mc_choose(6); if (b < a || c < b) mc_discard();
    J[0] = (job){ { OP3[a], -1 }, { 0 } }; J[1] = (job){ { OP3[b], -1 }, { 0 } }; J[2] = (job){ { OP3[c], -1 }, { 0 } };
    run_threads(3, "triples"); judge(3);
}
/* initialization and cleanup against each other */
static const int OPC[] = { INIT, CLEANUP, INITCFG };
static void lifecycle(void)
{
    start_state(); mc_set_dev_bound(mc_thorough() ? 3 : 2); armed = 1;
    int nt = 2 + mc_choose(2);
    for (int t = 0; t < nt; t++) { J[t].o[0] = OPC[mc_choose(3)]; J[t].o[1] = nt == 2 ? (int[]){ -1, INIT, CLEANUP }[mc_choose(3)] : -1; J[t].r[0] = J[t].r[1] = 0; }
    run_threads(nt, "lifecycle");
    for (int t = 0; t < nt; t++) for (int i = 0; i < 2; i++) if (J[t].o[i] >= 0 && J[t].r[i] != NOSTR_OK && !failed) mc_fail("results", "%s fails with %d", NAME[J[t].o[i]], J[t].r[i]);
    if (maxlive > 1) mc_fail("created-twice", "two contexts at once");
    int cl = 0; for (int t = 0; t < nt; t++) for (int i = 0; i < 2; i++) cl += J[t].o[i] == CLEANUP;
    if (!cl && nmade > 2) mc_fail("created-twice", "%d contexts made without a cleanup", nmade);
    mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, nmade), nlive)); mc_state(mc_hash_u64(mc_hash_u64(MC_H0, nlive), nmade)); afterwards();
}
const mc_scenario mc_scenarios[] = {
    { "pairs", pairs, ssetup, 3, 60, "two threads, all pairs of 13 operations, fresh/initialized/cleaned up, context creation failing or not" },
    { "triples", triples, ssetup, 3, 60, "three threads, all triples of 6 operations" },
    { "lifecycle", lifecycle, ssetup, 3, 60, "2-3 threads that initialize and clean up" }, MC_END };
#endif
