/* C02: only intact events verify; signing always yields a verifying event. */
#include "refev.h"
#include "rng.h"
#include <nostr_relay_protocol.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
static secp256k1_context *C;
static int ref_pub(const uint8_t sk[32], uint8_t pk[32])
{
    secp256k1_keypair kp; secp256k1_xonly_pubkey x;
    if (!secp256k1_keypair_create(C, &kp, sk)) return 0;
    secp256k1_keypair_xonly_pub(C, &x, NULL, &kp); secp256k1_xonly_pubkey_serialize(C, pk, &x); return 1;
}
/* reference verdict */
static int ref_verify(const nostr_event *e)
{
    uint8_t id[32]; secp256k1_xonly_pubkey x; refev_id(e, id);
    if (memcmp(id, e->id, 32)) return 0;
    if (!secp256k1_xonly_pubkey_parse(C, &x, e->pubkey.data)) return 0;
    return secp256k1_schnorrsig_verify(C, e->sig, e->id, 32, &x);
}
static const char *const KEYS[] = {
    "0000000000000000000000000000000000000000000000000000000000000001", "0000000000000000000000000000000000000000000000000000000000000002",
    "0000000000000000000000000000000000000000000000000000000000000003", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140",
    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd036413f", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0",
    "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef", "8000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000", "00000000000000000000000000000000000000000000000000000000000000ff" };
static const char *const BADKEYS[] = {
    "0000000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364143",
    "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "fffffffffffffffffffffffffffffffec00000000000000000000000000000000",
    "ffffffffffffffffffffffffffffffff00000000000000000000000000000000" };
static void key(const char *h, nostr_privkey *k) { ref_unhex(h, 64, k->data); }
static nostr_event *shape(int s)
{
    nostr_event *e = refev_new();
    switch (s) {
    case 0: break;
    case 1: nostr_event_set_content(e, "hello"); break;
    case 2: refev_tag(e, 2, "e", "ab", 0, 0); nostr_event_set_content(e, "\"\\\n\x01\xc3\xa9"); break;
    case 3: e->kind = 65535; e->created_at = 0; refev_tag(e, 1, "t", 0, 0, 0); refev_tag(e, 3, "p", "", "x", 0); break;
    case 4: e->kind = 0; e->created_at = 4102444800LL; break;
    case 5: for (int i = 0; i < 40; i++) refev_tag(e, 2, "t", "value value value value value value", 0, 0); break;
    }
    return e;
}
enum { NSHAPE = 6 };
static void dirty(nostr_event *e, int d)
{
    if (d == 1) { memset(e->id, 0xff, 32); memset(e->sig, 0xff, 64); memset(e->pubkey.data, 0xff, 32); }
    if (d == 2) { nostr_privkey k; key(KEYS[6], &k); nostr_event_sign(e, &k); }
    if (d == 3) { nostr_privkey k; key(KEYS[2], &k); nostr_event_sign(e, &k); nostr_event_set_content(e, "changed"); }
}
static int full(const nostr_event *e, int64_t fut) { nostr_validation_result_t r; memset(&r, 0, sizeof r); nostr_relay_error_t c = nostr_event_validate_full(e, fut, &r);
    if ((c == NOSTR_RELAY_OK) != r.valid) mc_report("validate_full:inconsistent", "code %d, valid %d", c, r.valid); return c == NOSTR_RELAY_OK; }
#define FUT 10000000000LL
static void must_not_verify(const nostr_event *e, const char *what)
{
    uint64_t h = refev_hash(e);
    nostr_error_t r = nostr_event_verify(e); mc_step(); mc_eval(1);
    if (r == NOSTR_OK) mc_report("forged-accepted", "%s: verifies", what);
    if (full(e, FUT)) mc_report("forged-accepted-full", "%s: passes full validation", what);
    if (refev_hash(e) != h) mc_report("verify:side-effect", "%s: verification changed the event", what);
    mc_outcome(mc_hash_u64(h, r));
}
static void sign(void)
{
    rng_reset(); int s = mc_choose(NSHAPE), k = mc_choose(MC_LEN(KEYS)), d = mc_choose(4); nostr_privkey sk; key(KEYS[k], &sk);
    nostr_event *e = shape(s); dirty(e, d); nostr_event *w = shape(s); if (d == 3) nostr_event_set_content(w, "changed");
    nostr_error_t r = nostr_event_sign(e, &sk); mc_step(); MC_NOTE("shape %d key %s before %d -> %d", s, KEYS[k], d, r);
    MC_CHECK(r == NOSTR_OK, "sign:failed", "signing with %s failed: %d", KEYS[k], r);
    uint8_t pk[32]; ref_pub(sk.data, pk); MC_CHECK(!memcmp(pk, e->pubkey.data, 32), "sign:pubkey", "wrong public key for %s", KEYS[k]);
    MC_CHECK(ref_verify(e), "sign:invalid", "the signed event is not valid (key %s)", KEYS[k]);
    MC_CHECK(nostr_event_verify(e) == NOSTR_OK, "verify:rejected", "a freshly signed event does not verify (key %s)", KEYS[k]);
    MC_CHECK(full(e, FUT), "validate_full:rejected", "a freshly signed event fails full validation");
    memcpy(w->id, e->id, 32); memcpy(w->sig, e->sig, 64); w->pubkey = e->pubkey; MC_CHECK(refev_equal(e, w), "sign:side-effect", "signing changed another field");
    uint8_t sv[32]; ref_unhex(KEYS[k], 64, sv); MC_CHECK(!memcmp(sv, sk.data, 32), "sign:key-changed", "the private key was modified");
    mc_state(refev_hash(e)); mc_outcome(refev_hash(e)); nostr_event_destroy(e); nostr_event_destroy(w); mc_conform();
}
static void badkey(void)
{
    rng_reset(); int s = mc_choose(NSHAPE), k = mc_choose(MC_LEN(BADKEYS)), d = mc_choose(4); nostr_privkey sk; key(BADKEYS[k], &sk);
    nostr_event *e = shape(s); dirty(e, d); int was = ref_verify(e); uint8_t pub0[32]; memcpy(pub0, e->pubkey.data, 32);
    nostr_error_t r = nostr_event_sign(e, &sk); mc_step();
    int valid = (k == 5); /* ...fec0.. is above n as well: recomputed below */
    uint8_t pk[32]; valid = ref_pub(sk.data, pk);
    if (!valid) {
        MC_CHECK(r != NOSTR_OK, "badkey:accepted", "invalid private key %s accepted", BADKEYS[k]);
        if (!was) must_not_verify(e, "after a refused signature");
        else MC_CHECK(!memcmp(pub0, e->pubkey.data, 32) || nostr_event_verify(e) != NOSTR_OK, "badkey:signed", "an invalid key changed the author of a verifying event");
    }
    mc_outcome(mc_hash_u64(MC_H0, k * 10 + r)); nostr_event_destroy(e); mc_conform();
}
static void rngfail(void)
{
    mc_set_dev_bound(2); rng_reset(); int s = mc_choose(NSHAPE), d = mc_choose(4); nostr_privkey sk; key(KEYS[1], &sk);
    nostr_event *e = shape(s); dirty(e, d); rng_arm(1);
    nostr_error_t r = nostr_event_sign(e, &sk); rng_arm(0); mc_step();
    if (rng_failed()) MC_CHECK(r != NOSTR_OK || ref_verify(e), "rng:invalid-success", "signing reports success with an invalid signature after a generator failure");
    if (r == NOSTR_OK) MC_CHECK(ref_verify(e) && nostr_event_verify(e) == NOSTR_OK, "rng:success-invalid", "success but not verifying");
    else { MC_CHECK(rng_failed(), "rng:failed", "signing failed without a cause"); 
           r = nostr_event_sign(e, &sk); MC_CHECK(r == NOSTR_OK && ref_verify(e), "rng:retry", "the event cannot be signed after a failed attempt (%d)", r); }
    mc_outcome(mc_hash_u64(MC_H0, s * 100 + d * 10 + rng_failed())); nostr_event_destroy(e); mc_conform();
}
static void flips(void)
{
    rng_reset(); int byte = mc_choose(128); int s = mc_choose(mc_thorough() ? NSHAPE : 2) ; nostr_privkey sk; key(KEYS[6], &sk);
    nostr_event *e = shape(s * (mc_thorough() ? 1 : 2)); nostr_event_sign(e, &sk);
    uint8_t *p = byte < 32 ? &e->id[byte] : byte < 64 ? &e->pubkey.data[byte - 32] : &e->sig[byte - 64];
    for (int b = 0; b < 8; b++) { *p ^= 1 << b; must_not_verify(e, byte < 32 ? "id bit" : byte < 64 ? "pubkey bit" : "signature bit");
        if (byte >= 32 && byte < 64) { uint8_t sv[32]; memcpy(sv, e->id, 32); nostr_event_compute_id(e); must_not_verify(e, "pubkey bit with a matching id"); memcpy(e->id, sv, 32); }
        *p ^= 1 << b; }
    for (int v = 0; v < 256; v += 17) { uint8_t o = *p; if (v != o) { *p = v; must_not_verify(e, "byte replaced"); *p = o; } }
    MC_CHECK(nostr_event_verify(e) == NOSTR_OK, "verify:rejected", "the restored event does not verify");
    MC_NOTE("byte %d of id|pubkey|sig, shape %d", byte, s); nostr_event_destroy(e); mc_conform();
}
/* family of structurally close events: every ordered pair, id and signature of one on the body of the other */
static const char *const PART[] = { "", "a", "b", "ab", "a\",\"b", "\\" };
#define FAM 2600
static nostr_event *fam[FAM]; static int nfam;
static void add(nostr_event *e) { if (nfam < FAM) fam[nfam++] = e; else nostr_event_destroy(e); }
static void build(void)
{
    C = secp256k1_context_create(SECP256K1_CONTEXT_NONE); nostr_init();
    nostr_privkey sk; key(KEYS[2], &sk);
    for (int nt = 0; nt <= 2; nt++) for (int a = 0; a < MC_LEN(PART); a++) for (int b = 0; b < MC_LEN(PART); b++) for (int sh = 0; sh < 3; sh++) for (int c = 0; c < 3; c++) {
        if (nt == 0 && (a || b || sh)) continue;
        if (nt == 1 && sh == 0 && b) continue;
        nostr_event *e = refev_new(); const char *A = PART[a], *B = PART[b];
        if (nt == 1) { if (sh == 0) refev_tag(e, 1, A, 0, 0, 0); else if (sh == 1) refev_tag(e, 2, A, B, 0, 0); else refev_tag(e, 3, A, B, "", 0); }
        if (nt == 2) { if (sh == 0) { refev_tag(e, 1, A, 0, 0, 0); refev_tag(e, 1, B, 0, 0, 0); } else if (sh == 1) { refev_tag(e, 2, A, B, 0, 0); refev_tag(e, 1, "a", 0, 0, 0); } else { refev_tag(e, 1, A, 0, 0, 0); refev_tag(e, 2, "a", B, 0, 0); } }
        nostr_event_set_content(e, PART[c]); add(e);
    }
    for (int i = 0; i < 12; i++) { nostr_event *e = refev_new(); if (i < 6) e->kind = (int[]){ 0, 2, 10, 11, 257, 65535 }[i]; else e->created_at = (int64_t[]){ 1699999999, 1700000001, 17000000001, 170000000, -1700000000, 1700000000 + 4294967296LL }[i - 6]; nostr_event_set_content(e, ""); add(e); }
    for (int i = 0; i < nfam; i++) if (nostr_event_sign(fam[i], &sk) != NOSTR_OK) abort();
}
static void swaps(void)
{
    int a = mc_choose(nfam); nostr_event *x = fam[a]; 
    MC_CHECK(ref_verify(x) && nostr_event_verify(x) == NOSTR_OK, "verify:rejected", "family event %d does not verify", a);
    int n = 0;
    for (int b = 0; b < nfam; b++) if (b != a) {
        nostr_event t = *fam[b]; memcpy(t.id, x->id, 32); memcpy(t.sig, x->sig, 64);
        ref_buf p = {0}, q = {0}; refev_canonical(&p, x); refev_canonical(&q, &t); int same = p.n == q.n && !memcmp(p.s, q.s, p.n); rb_free(&p); rb_free(&q);
        nostr_error_t r = nostr_event_verify(&t); n++;
        if ((r == NOSTR_OK) != same) mc_report("swap", "id and signature of event %d on the body of event %d: verify says %d, contents %s", a, b, r, same ? "equal" : "differ");
        if (!same && b % 16 == a % 16) { memcpy(t.id, fam[b]->id, 32); if (nostr_event_verify(&t) == NOSTR_OK || full(&t, FUT)) mc_report("swap-sig", "signature of event %d accepted on event %d", a, b); }
    }
    mc_steps(n); mc_eval(n); mc_outcome(mc_hash_u64(MC_H0, a)); mc_conform();
}
static void edits(void)
{
    /* a signed event edited through the API, with and without recomputing the id */
    rng_reset(); nostr_privkey sk; key(KEYS[0], &sk); int s = mc_choose(NSHAPE), op = mc_choose(14), rec = mc_choose(2);
    nostr_event *e = shape(s); if (!e->content) nostr_event_set_content(e, "c"); nostr_event_sign(e, &sk);
    switch (op) {
    case 0: nostr_event_set_content(e, "other"); break;
    case 1: nostr_event_set_content(e, ""); break;
    case 2: refev_tag(e, 1, "x", 0, 0, 0); break;
    case 3: e->kind ^= 1; break; case 4: e->kind += 256; break;
    case 5: e->created_at++; break; case 6: e->created_at += 4294967296LL; break; case 7: e->created_at = -e->created_at - 1; break;
    case 8: if (e->tags_count) e->tags_count--; else mc_discard(); break;
    case 9: if (e->tags_count > 1) { nostr_tag t = e->tags[0]; e->tags[0] = e->tags[1]; e->tags[1] = t; if (s == 5) mc_discard(); } else mc_discard(); break;
    case 10: if (e->tags_count && e->tags[0].count > 1) e->tags[0].count--; else mc_discard(); break;
    case 11: if (e->tags_count && e->tags[0].values[0][0]) e->tags[0].values[0][0] ^= 1; else mc_discard(); break;
    case 12: { nostr_privkey k2; key(KEYS[6], &k2); ref_pub(k2.data, e->pubkey.data); } break;
    case 13: if (e->content[0]) e->content[strlen(e->content) - 1] ^= 0x20; else mc_discard(); break;
    }
    if (rec) nostr_event_compute_id(e);
    must_not_verify(e, rec ? "edited, id recomputed" : "edited"); MC_NOTE("edit %d recompute %d", op, rec);
    nostr_error_t r = nostr_event_sign(e, &sk); MC_CHECK(r == NOSTR_OK && nostr_event_verify(e) == NOSTR_OK && ref_verify(e), "resign", "re-signing after edit %d fails (%d)", op, r);
    nostr_event_destroy(e); mc_conform();
}
/* signatures and keys outside their ranges */
static void ranges(void)
{
    static const char *const V[] = { "0000000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000001",
        "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
        "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "0000000000000000000000000000000000000000000000000000000000000005" };
    rng_reset(); int s = mc_choose(3), r = mc_choose(MC_LEN(V) + 1), q = mc_choose(MC_LEN(V) + 1), p = mc_choose(MC_LEN(V) + 1);
    nostr_privkey sk; key(KEYS[0], &sk); nostr_event *e = shape(s); nostr_event_sign(e, &sk);
    if (r) ref_unhex(V[r - 1], 64, e->sig); if (q) ref_unhex(V[q - 1], 64, e->sig + 32); if (p) { ref_unhex(V[p - 1], 64, e->pubkey.data); nostr_event_compute_id(e); }
    int want = ref_verify(e), got = nostr_event_verify(e) == NOSTR_OK; mc_step();
    MC_CHECK(want == got, "verify:range", "r=%d s=%d pk=%d: reference %d library %d", r, q, p, want, got);
    MC_CHECK(full(e, FUT) == want, "validate_full:range", "r=%d s=%d pk=%d: reference %d", r, q, p, want);
    mc_outcome(mc_hash_u64(MC_H0, r * 10000 + q * 100 + p)); nostr_event_destroy(e); mc_conform();
}
/* histories: sign / edit / verify in any order on one event; verification is always the reference verdict */
static void histories(void)
{
    rng_reset(); nostr_privkey k1, k2, bad; key(KEYS[0], &k1); key(KEYS[6], &k2); key(BADKEYS[1], &bad);
    nostr_event *e = refev_new(); int d = mc_thorough() ? 6 : 4; uint8_t sid[32], ssig[64]; memset(sid, 0, 32); memset(ssig, 0, 64);
    for (int i = 0; i < d; i++) {
        int o = mc_choose(10); MC_NOTE("op %d", o);
        switch (o) {
        case 0: MC_CHECK(nostr_event_sign(e, &k1) == NOSTR_OK, "sign:failed", "history"); break;
        case 1: MC_CHECK(nostr_event_sign(e, &k2) == NOSTR_OK, "sign:failed", "history"); break;
        case 2: MC_CHECK(nostr_event_sign(e, &bad) != NOSTR_OK, "badkey:accepted", "history"); break;
        case 3: nostr_event_set_content(e, "A"); break; case 4: nostr_event_set_content(e, "B"); break;
        case 5: refev_tag(e, 2, "t", "x", 0, 0); break;
        case 6: nostr_event_compute_id(e); break;
        case 7: memcpy(sid, e->id, 32); memcpy(ssig, e->sig, 64); break;
        case 8: memcpy(e->id, sid, 32); memcpy(e->sig, ssig, 64); break;
        case 9: e->created_at ^= 1; break;
        }
        int want = ref_verify(e), got = nostr_event_verify(e) == NOSTR_OK; mc_step();
        MC_CHECK(want == got, "verify:history", "after step %d (op %d): reference %d library %d", i, o, want, got);
        mc_state(refev_hash(e));
    }
    mc_outcome(refev_hash(e)); nostr_event_destroy(e); mc_conform();
}
static void ini(void) { C = secp256k1_context_create(SECP256K1_CONTEXT_NONE); nostr_init(); }
static void ini_fork(void) { ini(); mc_fork_each = 1; }    /* a generator seeded in one execution stays seeded */
const mc_scenario mc_scenarios[] = {
    {"sign", sign, ini, 3, 0, "6 shapes x 10 keys (range extremes) x 4 previous states"},
    {"badkey", badkey, ini, 3, 0, "out-of-range private keys x shapes x previous states"},
    {"rngfail", rngfail, ini_fork, 3, 0, "the generator failing at any request while signing"},
    {"flips", flips, ini, 3, 0, "every bit (and 16 values of every byte) of id, pubkey and signature"},
    {"swaps", swaps, build, 3, 0, "all ordered pairs of a family of ~700 structurally close events"},
    {"edits", edits, ini, 3, 0, "14 edits of a signed event, id stale or recomputed, then re-signed"},
    {"ranges", ranges, ini, 3, 0, "extreme r, s and pubkey values"},
    {"histories", histories, ini, 3, 0, "all sign/edit/verify sequences of length 4 (6)"},
    MC_END
};
