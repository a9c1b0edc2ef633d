/* C19: a key pair never claims to be usable with mismatched or failed keys.
 *
 * The oracle computes public keys and shared points with libsecp256k1 in a context of its own.  The
 * generator and the curve backend are link-time seams whose calls may fail (choice points).
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rng.h"
#include <nostr.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

static secp256k1_context *C; static int armed;
/* ---- backend seam ---- */
#define SEAM(T, fn, decl, call, bad) T __real_##fn decl; T __wrap_##fn decl { if (armed && mc_in_execution() && mc_choose_dev(2)) { armed++; MC_NOTE(#fn " fails"); return bad; } return __real_##fn call; }
SEAM(secp256k1_context *, secp256k1_context_create, (unsigned f), (f), NULL)
SEAM(int, secp256k1_ec_pubkey_create, (const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *k), (c, p, k), 0)
SEAM(int, secp256k1_xonly_pubkey_from_pubkey, (const secp256k1_context *c, secp256k1_xonly_pubkey *x, int *par, const secp256k1_pubkey *p), (c, x, par, p), 0)
SEAM(int, secp256k1_xonly_pubkey_serialize, (const secp256k1_context *c, unsigned char *o, const secp256k1_xonly_pubkey *x), (c, o, x), 0)
static void setup(void) { uint8_t b; C = __real_secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); nostr_random_bytes(&b, 1); /* seeded for good: C33 has failing seeds */ }

static int valid_sk(const uint8_t *k) { return secp256k1_ec_seckey_verify(C, k); }
static int ref_pub(const uint8_t *sk, uint8_t pk[32], int *odd)
{
    secp256k1_pubkey p; secp256k1_xonly_pubkey x; if (!valid_sk(sk) || !__real_secp256k1_ec_pubkey_create(C, &p, sk)) return 0;
    __real_secp256k1_xonly_pubkey_from_pubkey(C, &x, odd, &p); __real_secp256k1_xonly_pubkey_serialize(C, pk, &x); return 1;
}
static int ref_ecdh(const uint8_t *sk, const uint8_t *pk, uint8_t out[32])
{
    uint8_t s[33]; secp256k1_pubkey p; size_t l = 33; s[0] = 2; memcpy(s + 1, pk, 32); if (!valid_sk(sk) || !secp256k1_ec_pubkey_parse(C, &p, s, 33)) return 0;
    if (!secp256k1_ec_pubkey_tweak_mul(C, &p, sk)) return 0; secp256k1_ec_pubkey_serialize(C, s, &l, &p, SECP256K1_EC_COMPRESSED); memcpy(out, s + 1, 32); return 1;
}
static const char *const KEY[] = {
    "0000000000000000000000000000000000000000000000000000000000000001", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef", "0000000000000000000000000000000000000000000000000000000000000006",
    "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", "0c28fca386c7a227600b2fe50b7cae11ec86d3bf1fbe471be89827e19d72aa1d",
    /* invalid from here (6): */
    "0000000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "ffffffffffffffffffffffffffffffff00000000000000000000000000000000" };
static const char *const BADTEXT[] = { "", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfe", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfeff", "g7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfeg", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cf  " };
#define NVALID 6
static nostr_privkey sk(int i) { nostr_privkey k; ref_unhex(KEY[i], 64, k.data); return k; }

/* ---- secrets seen in the execution: none may stay behind in a pair that does not hold it ---- */
static uint8_t secret[400][32]; static int nsecret;
static void remember(const uint8_t *k) { uint8_t o[32]; ref_unhex(KEY[7], 64, o); if (!valid_sk(k) || !memcmp(k + 8, o + 8, 12)) return; /* n-1: looks like n */ for (int i = 0; i < nsecret; i++) if (!memcmp(secret[i], k, 32)) return; if (nsecret < 400) memcpy(secret[nsecret++], k, 32); }
static int constant4(const uint8_t *p) { return p[0] == p[1] && p[1] == p[2] && p[2] == p[3]; }
static int leftover(const void *obj, size_t n)
{
    const uint8_t *b = obj;
    for (int s = 0; s < nsecret; s++) for (int o = 0; o + 4 <= 32; o++) if (!constant4(secret[s] + o)) for (size_t i = 0; i + 4 <= n; i++) if (!memcmp(b + i, secret[s] + o, 4)) return 1;
    return 0;
}
/* what the public interface says about the pair */
static int claims(const nostr_keypair *kp)
{
    char h[80]; int c = 0; c |= nostr_keypair_public_key(kp) != NULL; c |= (nostr_keypair_private_key(kp) != NULL) << 1; c |= (nostr_keypair_export_private_hex(kp, h, 65) == NOSTR_OK) << 2; c |= (nostr_keypair_export_public_hex(kp, h, 65) == NOSTR_OK) << 3; return c;
}
/* pair against what it should hold: want = NULL (not usable) or a private key */
static void inspect(const nostr_keypair *kp, const uint8_t *want, const char *op)
{
    int save = armed; armed = 0; rng_arm(0); int c = claims(kp); nostr_error_t v = nostr_keypair_validate(kp);
    if (!want) {
        if (c) mc_fail("usable", "after %s: accessors %x hand out keys of a pair that holds none", op, c);
        if (v == NOSTR_OK) mc_fail("validates", "after %s: a pair that holds no key validates", op);
        if (leftover(kp, sizeof *kp)) mc_fail("leftover", "after %s: private key bytes remain in a pair that is not usable", op);
    } else {
        uint8_t pk[32]; ref_pub(want, pk, NULL); char h[80], w[80];
        if (c != 15) mc_fail("unusable", "after %s: accessors %x of a usable pair", op, c);
        if (memcmp(nostr_keypair_private_key(kp)->data, want, 32) || memcmp(nostr_keypair_public_key(kp)->data, pk, 32)) mc_fail("mismatch", "after %s: the pair holds %s / %s", op, mc_hex(nostr_keypair_private_key(kp)->data, 32), mc_hex(nostr_keypair_public_key(kp)->data, 32));
        if (v != NOSTR_OK) mc_fail("rejected", "after %s: a right pair does not validate: %d", op, v);
        memset(h, 'x', sizeof h); nostr_keypair_export_private_hex(kp, h, 65); ref_hex(want, 32, w); if (strcmp(h, w) || h[65] != 'x') mc_fail("export", "after %s: %s", op, mc_q(h));
        memset(h, 'x', sizeof h); nostr_keypair_export_public_hex(kp, h, 65); ref_hex(pk, 32, w); if (strcmp(h, w) || h[65] != 'x') mc_fail("export", "after %s: %s", op, mc_q(h));
        for (size_t n = 0; n < 65; n++) { memset(h, 'x', sizeof h); if (nostr_keypair_export_private_hex(kp, h, n) == NOSTR_OK || nostr_keypair_export_public_hex(kp, h, n) == NOSTR_OK || h[n] != 'x') mc_fail("export-size", "export into %zu bytes", n); }
    }
    mc_eval(1); armed = save;
}
typedef struct { int has; uint8_t k[32]; } mpair;
/* after a failed operation: as before, or not usable */
static void failed(nostr_keypair *kp, const nostr_keypair *before, mpair *m, const char *op)
{
    if (!claims(kp)) { inspect(kp, NULL, op); m->has = 0; return; }
    if (!m->has || memcmp(&kp->privkey, &before->privkey, 32) || memcmp(&kp->pubkey, &before->pubkey, 32)) mc_fail("half-updated", "failed %s leaves a usable pair with %s private and %s public key", op, memcmp(&kp->privkey, &before->privkey, 32) ? "another" : "the same", memcmp(&kp->pubkey, &before->pubkey, 32) ? "another" : "the same");
    inspect(kp, m->k, op);
}
static int SCR; static uint8_t script[130 * 32];
static const char *gen_script(int which, uint8_t *expect)   /* scripted draws; expect: the first key in range, or none */
{
    static const int S[][4] = { { 2, -1 }, { 6, 2, -1 }, { 7, 9, 0, -1 }, { 8, 1, -1 }, { 10, 3, -1 } };
    if (which == 5) { memset(script, 0xff, sizeof script); rng_script(script, sizeof script); return NULL; }
    size_t n = 0; int last = 0; for (int i = 0; S[which][i] >= 0; i++) { ref_unhex(KEY[S[which][i]], 64, script + n); n += 32; last = S[which][i]; } rng_script(script, n); ref_unhex(KEY[last], 64, expect); return "x"; }
static void start(int dev) { mc_set_dev_bound(dev); armed = 0; nsecret = 0; rng_reset(); nostr_cleanup(); }
static int step(nostr_keypair *kp, mpair *m, int op)
{
    nostr_keypair before = *kp; uint8_t e[32]; nostr_error_t r; char nm[60]; int rf = rng_failed(); if (m->has) remember(m->k);
    if (op < 6) { const char *ok = gen_script(op, e); snprintf(nm, sizeof nm, "generate (draws %d)", op); armed = 1; rng_arm(1); r = nostr_keypair_generate(kp); armed--; int f = armed || rng_failed() > rf; armed = 0; rng_arm(0);
        const uint8_t *lg; size_t n = rng_log(&lg); for (size_t i = 0; i + 32 <= n && i < 400 * 32; i += 32) remember(lg + i); if (op < 5) remember(e);
        MC_NOTE("%s -> %d", nm, r); rng_script(NULL, 0);
        if (r == NOSTR_OK) { if (!ok || f) mc_fail("generated", "%s succeeds %s", nm, ok ? "although randomness or the backend failed" : "without a key in range"); memcpy(m->k, e, 32); m->has = 1; inspect(kp, m->k, nm); return r; }
        if (ok && !f) mc_fail("generate-fails", "%s: error %d", nm, r); failed(kp, &before, m, nm); return r; }
    if (op < 17) { nostr_privkey k = sk(op - 6); remember(k.data); snprintf(nm, sizeof nm, "from_private_hex (key %d)", op - 6); armed = 1; r = nostr_keypair_from_private_hex(kp, KEY[op - 6]); int f = armed > 1; armed = 0; MC_NOTE("%s -> %d", nm, r); int ok = op - 6 < NVALID;
        if (r == NOSTR_OK) { if (!ok || f) mc_fail("accepted", "%s accepted", nm); memcpy(m->k, k.data, 32); m->has = 1; inspect(kp, k.data, nm); return r; }
        if (ok && !f) mc_fail("refused", "%s: error %d", nm, r); failed(kp, &before, m, nm); return r; }
    if (op < 28) { nostr_privkey k = sk(op - 17); remember(k.data); snprintf(nm, sizeof nm, "from_private_key (key %d)", op - 17); armed = 1; r = nostr_keypair_from_private_key(kp, &k); int f = armed > 1; armed = 0; MC_NOTE("%s -> %d", nm, r); int ok = op - 17 < NVALID;
        if (r == NOSTR_OK) { if (!ok || f) mc_fail("accepted", "%s accepted", nm); memcpy(m->k, k.data, 32); m->has = 1; inspect(kp, k.data, nm); return r; }
        if (ok && !f) mc_fail("refused", "%s: error %d", nm, r); failed(kp, &before, m, nm); return r; }
    if (op < 34) { snprintf(nm, sizeof nm, "from_private_hex (text %d)", op - 28); r = nostr_keypair_from_private_hex(kp, BADTEXT[op - 28]); MC_NOTE("%s -> %d", nm, r); if (r == NOSTR_OK) mc_fail("accepted", "%s accepted", nm); failed(kp, &before, m, nm); return r; }
    switch (op) {
    case 34: nostr_keypair_destroy(kp); m->has = 0; MC_NOTE("destroy"); inspect(kp, NULL, "destroy"); break;
    case 35: nostr_keypair_init(kp); m->has = 0; MC_NOTE("init"); inspect(kp, NULL, "init"); break;
    case 36: nostr_cleanup(); MC_NOTE("library cleanup"); if (m->has) inspect(kp, m->k, "library cleanup"); else inspect(kp, NULL, "library cleanup"); break;
    case 37: { armed = 1; r = nostr_keypair_validate(kp); int f = armed > 1; armed = 0; MC_NOTE("validate -> %d", r); if (r == NOSTR_OK && (f || !m->has)) mc_fail("validates", "validation succeeds although %s", f ? "the backend failed" : "the pair holds no key"); if (memcmp(&before, kp, sizeof before)) mc_fail("validate-writes", "validation changed the pair"); break; }
    case 38: { if (!m->has) break; r = nostr_keypair_from_private_key(kp, &kp->privkey); MC_NOTE("from its own private key -> %d", r); if (r != NOSTR_OK) mc_fail("refused", "pair from its own private key: %d", r); inspect(kp, m->k, "from its own private key"); break; }
    }
    return NOSTR_OK;
}
static const int OPS[] = { 0, 2, 5, 6, 7, 8, 12, 13, 15, 19, 21, 23, 26, 29, 30, 34, 35, 36, 37, 38 };
static void histories(void)
{
    start(mc_thorough() ? 2 : 1); nostr_keypair kp; memset(&kp, 0, sizeof kp); mpair m = { 0 }; nostr_keypair_init(&kp); inspect(&kp, NULL, "init"); uint64_t h = MC_H0;
    int n = mc_thorough() ? 4 : 3; for (int i = 0; i < n; i++) { int op = MC_PICK(OPS), r = step(&kp, &m, op); mc_step(); h = mc_hash_u64(h, op * 64 + (r + 20)); mc_state(mc_hash(mc_hash_u64(MC_H0, m.has), m.k, m.has ? 32 : 0)); }
    nostr_keypair_destroy(&kp); inspect(&kp, NULL, "destroy"); mc_conform(); mc_outcome(h);
}
/* all keys and operations after every previous one, with single and double faults */
static void single(void)
{
    start(2); nostr_keypair kp; memset(&kp, 0, sizeof kp); mpair m = { 0 }; nostr_keypair_init(&kp); int a = mc_choose(39), pre = mc_choose(4);
    if (pre == 1) step(&kp, &m, 8); else if (pre == 2) { armed = 0; step(&kp, &m, 6); step(&kp, &m, 34); } else if (pre == 3) step(&kp, &m, 15);
    int r = step(&kp, &m, a); mc_step(); nostr_keypair_destroy(&kp); inspect(&kp, NULL, "destroy"); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, a * 4 + pre), r));
}
/* nostr_key_generate itself */
static void generate(void)
{
    start(2); int which = mc_choose(6); uint8_t e[32]; nostr_privkey k; nostr_key p; memset(&k, 0, sizeof k); memset(&p, 0, sizeof p); const char *ok = gen_script(which, e); if (which < 5) remember(e);
    armed = 1; rng_arm(1); nostr_error_t r = nostr_key_generate(&k, &p); int f = armed > 1 || rng_failed(); armed = 0; rng_arm(0); mc_step(); MC_NOTE("key_generate, draws %d -> %d", which, r);
    if (r == NOSTR_OK) { uint8_t w[32]; if (!ok || f) mc_fail("generated", "success %s", ok ? "although randomness or the backend failed" : "without a key in range"); ref_pub(e, w, NULL); if (memcmp(k.data, e, 32) || memcmp(p.data, w, 32)) mc_fail("mismatch", "private %s public %s", mc_hex(k.data, 32), mc_hex(p.data, 32)); }
    else { if (ok && !f) mc_fail("generate-fails", "error %d", r); if (leftover(&k, sizeof k)) mc_fail("leftover", "error %d leaves the private key in the output", r); }
    mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, which), r));
}
/* a pair altered by any single bit, or made of two pairs, does not validate; the negated key does */
static void altered(void)
{
    start(0); int bit = mc_choose(512 + 2 * 11), a = mc_choose(NVALID); nostr_keypair kp; nostr_privkey k = sk(a); if (nostr_keypair_from_private_key(&kp, &k) != NOSTR_OK) mc_fail("refused", "key %d", a);
    if (bit < 256) kp.privkey.data[bit / 8] ^= 1 << bit % 8; else if (bit < 512) kp.pubkey.data[(bit - 256) / 8] ^= 1 << bit % 8; else if (bit < 523) kp.privkey = sk(bit - 512); else { uint8_t p[32]; nostr_privkey o = sk(bit - 523); if (!ref_pub(o.data, p, NULL)) memcpy(p, o.data, 32); memcpy(kp.pubkey.data, p, 32); }
    uint8_t w[32]; int ok = ref_pub(kp.privkey.data, w, NULL) && !memcmp(w, kp.pubkey.data, 32); nostr_error_t r = nostr_keypair_validate(&kp); mc_step();
    MC_NOTE("pair of key %d, alteration %d: %d", a, bit, r);
    if ((r == NOSTR_OK) != ok) mc_fail(ok ? "rejected" : "validates", "private %s public %s: %d", mc_hex(kp.privkey.data, 32), mc_hex(kp.pubkey.data, 32), r);
    if (bit == 0) { memcpy(kp.privkey.data, k.data, 32); secp256k1_ec_seckey_negate(C, kp.privkey.data); ref_pub(k.data, kp.pubkey.data, NULL); if (nostr_keypair_validate(&kp) != NOSTR_OK) mc_fail("rejected", "negated private key"); }
    kp.initialized = 0; if (nostr_keypair_validate(&kp) == NOSTR_OK) mc_fail("validates", "an uninitialized pair validates");
    mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, bit), ok));
}
/* shared secrets */
static void small(int i, uint8_t k[32]) { memset(k, 0, 32); if (i < 64) k[31] = i + 1; else if (i < 128) { nostr_privkey m1 = sk(1); memcpy(k, m1.data, 32); k[31] -= i - 64; } else { nostr_privkey x = sk(i - 128); memcpy(k, x.data, 32); } }
static void ecdh(void)
{
    start(0); int a = mc_choose(139); uint8_t ka[32], pa[32]; int oa = 0; small(a, ka); int va = ref_pub(ka, pa, &oa); nostr_privkey A; nostr_key PA; memcpy(A.data, ka, 32); memcpy(PA.data, pa, 32);
    for (int b = 0; b < 139; b++) {
        uint8_t kb[32], pb[32]; int ob = 0; small(b, kb); if (!ref_pub(kb, pb, &ob)) continue; nostr_privkey B; nostr_key PB; memcpy(B.data, kb, 32); memcpy(PB.data, pb, 32);
        uint8_t s[34], t[34], w[32]; memset(s, 0x77, 34); memset(t, 0x77, 34); nostr_error_t r = nostr_key_ecdh(&A, &PB, s + 1); mc_eval(1); mc_step();
        if (s[0] != 0x77 || s[33] != 0x77) mc_fail("ecdh-bounds", "wrote outside the 32 bytes");
        if (!va) { if (r == NOSTR_OK) mc_fail("ecdh-badkey", "a private key out of range gives a shared secret"); continue; }
        if (r != NOSTR_OK) mc_fail("ecdh-refused", "private %s public %s: %d", mc_hex(ka, 32), mc_hex(pb, 32), r);
        if (nostr_key_ecdh(&B, &PA, t + 1) != NOSTR_OK) mc_fail("ecdh-refused", "other side");
        if (memcmp(s + 1, t + 1, 32)) mc_report(oa || ob ? "ecdh-disagree" : "ecdh-disagree-even", "private keys %s (%s y) and %s (%s y): the two shared secrets differ", mc_hex(ka, 32), oa ? "odd" : "even", mc_hex(kb, 32), ob ? "odd" : "even");
        ref_ecdh(ka, pb, w); if (memcmp(s + 1, w, 32)) mc_report("ecdh-x", "private %s public %s: not the x coordinate", mc_hex(ka, 32), mc_hex(pb, 32));
    }
    for (int v = 0; v < 256; v++) for (int pat = 0; pat < 4; pat++) {      /* x-only keys: on the curve or not */
        nostr_key P; memset(P.data, pat == 3 ? 0xff : pat * 0x11, 32); P.data[pat == 2 ? 0 : 31] = (uint8_t)v; uint8_t w[32], s[32]; int ok = va && ref_ecdh(ka, P.data, w); nostr_error_t r = nostr_key_ecdh(&A, &P, s); mc_eval(1);
        if ((r == NOSTR_OK) != ok) mc_report("ecdh-point", "public %s: %d, the reference %s", mc_hex(P.data, 32), r, ok ? "accepts" : "refuses"); else if (ok && memcmp(s, w, 32)) mc_report("ecdh-x", "public %s: not the x coordinate", mc_hex(P.data, 32));
    }
    mc_conform(); mc_outcome(a); MC_NOTE("private key %s (%s)", mc_hex(ka, 32), va ? oa ? "odd y" : "even y" : "out of range");
}
static void params(void)
{
    start(0); nostr_keypair kp; nostr_keypair_init(&kp); nostr_privkey k = sk(0); nostr_key p; char h[65]; uint8_t s[32];
    MC_CHECK(nostr_keypair_init(NULL) != NOSTR_OK && nostr_keypair_generate(NULL) != NOSTR_OK && nostr_keypair_from_private_hex(NULL, KEY[0]) != NOSTR_OK && nostr_keypair_from_private_hex(&kp, NULL) != NOSTR_OK && nostr_keypair_from_private_key(NULL, &k) != NOSTR_OK && nostr_keypair_from_private_key(&kp, NULL) != NOSTR_OK, "null", "a NULL argument is accepted");
    MC_CHECK(nostr_keypair_export_private_hex(NULL, h, 65) != NOSTR_OK && nostr_keypair_export_private_hex(&kp, h, 65) != NOSTR_OK && nostr_keypair_validate(NULL) != NOSTR_OK && !nostr_keypair_public_key(NULL) && !nostr_keypair_private_key(NULL), "null", "a NULL argument is accepted");
    nostr_keypair_destroy(NULL); MC_CHECK(nostr_key_generate(NULL, &p) != NOSTR_OK && nostr_key_generate(&k, NULL) != NOSTR_OK && nostr_key_ecdh(NULL, &p, s) != NOSTR_OK && nostr_key_ecdh(&k, NULL, s) != NOSTR_OK && nostr_key_ecdh(&k, &p, NULL) != NOSTR_OK, "null", "a NULL argument is accepted");
    nostr_keypair_from_private_hex(&kp, KEY[0]); MC_CHECK(nostr_keypair_export_private_hex(&kp, NULL, 65) != NOSTR_OK && nostr_keypair_export_public_hex(&kp, NULL, 65) != NOSTR_OK, "null", "a NULL buffer is accepted"); mc_steps(15); mc_conform(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    { "histories", histories, setup, 3, 0, "operation sequences on one pair x boundary keys and draws x failing randomness/backend" },
    { "single", single, setup, 3, 0, "every operation after every kind of predecessor, with up to two failures" },
    { "generate", generate, setup, 3, 0, "key generation with scripted draws and up to two failures" },
    { "altered", altered, setup, 3, 0, "every single-bit alteration and mix of pairs against validation" },
    { "ecdh", ecdh, setup, 3, 0, "139 x 139 key pairs, both sides; x-only keys on and off the curve" },
    { "params", params, setup, 3, 0, "NULL arguments" },
    MC_END
};
