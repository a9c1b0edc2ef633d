/* C35: encrypted message payloads (NIP-44 v2, NIP-04).
 *
 * The library's framing, padding, base64 and checks run for real in the builds that have the noscrypt backend
 * (lib/ncshim.c stands in for that library); the oracle is lib/refnip44.h, written from the specifications.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include "../lib/guard.h"
#include "../lib/refnip44.h"
#include "../lib/noscrypt/noscrypt.h"
#include <nostr.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_ecdh.h>
#include <stdio.h>
#ifdef BUILD_NOSCRYPTM
#define NIP04 0
#else
#define NIP04 1
#endif
#define NK 4
static secp256k1_context *X; static int ossl;
static nostr_privkey SK[NK]; static nostr_key PK[NK]; static uint8_t SH[NK][NK][32], CK[NK][NK][32];
static int cx(unsigned char *o, const unsigned char *x, const unsigned char *y, void *d) { (void)y; (void)d; memcpy(o, x, 32); return 1; }
static int nc_armed, nc_faults;
static int nc_fault(const char *fn) { if (!nc_armed || !mc_in_execution()) return 0; if (mc_choose_dev(2)) { nc_faults++; MC_NOTE("%s fails", fn); return 1; } return 0; }
static void setup(void)
{
    static int once; if (once) return; once = 1; fault_install(); X = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
    static const char *const K[NK] = { "0000000000000000000000000000000000000000000000000000000000000001", "0000000000000000000000000000000000000000000000000000000000000002", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140" };
    for (int i = 0; i < NK; i++) { ref_unhex(K[i], 64, SK[i].data); secp256k1_keypair kp; secp256k1_xonly_pubkey x; secp256k1_keypair_create(X, &kp, SK[i].data); secp256k1_keypair_xonly_pub(X, &x, NULL, &kp); secp256k1_xonly_pubkey_serialize(X, PK[i].data, &x); }
    for (int i = 0; i < NK; i++) for (int j = 0; j < NK; j++) { uint8_t c[33] = { 2 }; memcpy(c + 1, PK[j].data, 32); secp256k1_pubkey p; secp256k1_ec_pubkey_parse(X, &p, c, 33); secp256k1_ecdh(X, SH[i][j], &p, SK[i].data, cx, NULL); r44_conv(SH[i][j], CK[i][j]); }
    rng_reset(); nostr_init(); ncshim_fault = nc_fault; char *o = NULL; if (nostr_nip04_encrypt(&SK[0], &PK[1], "x", &o) == NOSTR_OK) { char *q; if (nostr_nip04_decrypt(&SK[1], &PK[0], o, &q) == NOSTR_OK) free(q); free(o); }   /* OpenSSL's own lazy initialization is not under test */
}
static void setup_ossl(void) { ossl = fault_openssl(); setup(); }
static void begin(void) { rng_reset(); fault_reset(); nc_faults = 0; nc_armed = 0; }
static void fill(uint8_t *p, size_t n, int pat) { for (size_t i = 0; i < n; i++) p[i] = pat == 0 ? 'a' : pat == 1 ? (uint8_t)(i * 7 + 1) : pat == 2 ? 0 : pat == 3 ? 0xff : (uint8_t)(0xc3 - (i & 1) * 0x1a); }
static uint8_t NO[32]; static void nonce(int k) { for (int i = 0; i < 32; i++) NO[i] = k == 0 ? (uint8_t)(i == 31) : k == 1 ? 0xff : (uint8_t)(i * 37 + k); rng_script(NO, 32); }
static char *const UNSET = (char *)0x5a5a;
/* decrypt must do exactly what the reference says: want NULL = refused, nothing handed out */
static void dec44(int to, int from, const char *c, const uint8_t *want, size_t wn, const char *what)
{
    char *o = UNSET; size_t n = 0x5a5a; nostr_error_t r = nostr_nip44_decrypt(&SK[to], &PK[from], c, &o, &n); mc_eval(1);
    if (!want) { if (r == NOSTR_OK) mc_report("accepted", "%s decrypts (to %zu bytes %s)", what, n, mc_qn(o, n < 40 ? n : 40)); else if (o != UNSET && o != NULL) mc_report("output-on-error", "%s is refused (%d) but sets the plaintext pointer", what, r); if (r == NOSTR_OK) free(o); return; }
    if (r != NOSTR_OK) { mc_report("refused", "%s does not decrypt: %d", what, r); return; }
    if (n != wn || memcmp(o, want, wn)) mc_report("plaintext", "%s decrypts to %zu bytes, not the %zu encrypted", what, n, wn); else if (o[n]) mc_report("terminator", "%s: the plaintext is not terminated", what);
    free(o);
}
static void one_len(size_t n, int pat, int a, int b)
{
    uint8_t *pt = malloc(n + 1); fill(pt, n, pat); char *c = UNSET; char what[80]; snprintf(what, sizeof what, "a plaintext of %zu bytes", n);
    nonce((int)(n % 5)); uint8_t *g = malloc(n); memcpy(g, pt, n);        /* exact size: ASan sees a read past it */
    nostr_error_t r = nostr_nip44_encrypt(&SK[a], &PK[b], (char *)g, n, &c); free(g); mc_eval(1); mc_step();
    if (r != NOSTR_OK) mc_fail("encrypt", "%s is refused: %d", what, r);
    char *w = r44_seal(CK[a][b], NO, pt, n); if (strcmp(w, c)) { size_t d = 0; while (w[d] == c[d]) d++; mc_fail("payload", "%s: the payload (%zu characters) differs from NIP-44's (%zu) at character %zu", what, strlen(c), strlen(w), d); }
    dec44(b, a, c, pt, n, what); dec44(a, b, c, pt, n, what);
    mc_outcome(mc_hash(MC_H0, w, strlen(w))); mc_conform(); free(w); free(c); free(pt);
}
static void lengths(void)
{
    begin(); size_t lo, hi; int k;
    if (mc_thorough()) { k = mc_choose(256); lo = (size_t)k * 256; hi = lo + 255; } else { k = mc_choose(50); lo = k < 40 ? (size_t)k * 32 : ((size_t)1 << (k - 40 + 7)) - 3; hi = k < 40 ? lo + 31 : lo + 6; if (k == 49) { lo = 61430; hi = 61450; } }
    if (k == 0) lo = 1;
    if (hi > 65535) hi = 65535;
    for (size_t n = lo; n <= hi; n++) one_len(n, (int)(n % 5), (int)(n % NK), (int)(n / 2 % NK));
}
static void extremes(void)
{
    begin(); static const size_t N[] = { 0, 1, 2, 31, 32, 33, 255, 256, 257, 511, 512, 513, 16384, 24577, 32768, 32769, 40960, 40961, 61440, 61441, 65407, 65534, 65535, 65536, 65537, 131071, 131072, 1 << 20 }; size_t n = MC_PICK(N); int pat = mc_choose(5);
    if (n >= 1 && n <= 65535) { one_len(n, pat, mc_choose(NK), mc_choose(NK)); return; }
    uint8_t *pt = malloc(n + 1); fill(pt, n, pat); pt[n] = 0; char *c = UNSET; nonce(1); nostr_error_t r = nostr_nip44_encrypt(&SK[0], &PK[1], (char *)pt, n, &c); mc_step();
    if (r == NOSTR_OK) mc_fail("size", "a plaintext of %zu bytes is encrypted", n); MC_CHECK(c == UNSET || !c, "output-on-error", "%zu bytes are refused but the output is set", n); free(pt); mc_conform();
}
static void contents(void)      /* every byte at the start, in the middle and at the end of three lengths: never read as a string */
{
    begin(); static const size_t N[] = { 1, 2, 32, 33, 47 }; size_t n = MC_PICK(N); int pos = mc_choose(3); uint8_t pt[64];
    for (int b = 0; b < 256; b++) { fill(pt, n, 1); pt[pos == 0 ? 0 : pos == 1 ? n / 2 : n - 1] = (uint8_t)b; char *c = NULL; nonce(b % 5); nostr_error_t r = nostr_nip44_encrypt(&SK[2], &PK[1], (char *)pt, n, &c); if (r != NOSTR_OK) mc_fail("encrypt", "%zu bytes with byte %02x refused: %d", n, b, r); char *w = r44_seal(CK[2][1], NO, pt, n); if (strcmp(w, c)) mc_report("payload", "%zu bytes with byte %02x at %d: the payload is not NIP-44's", n, b, pos); dec44(1, 2, w, pt, n, "a payload"); free(w); free(c); }
    mc_conform();
}
static void vectors(void)       /* published: the reference itself */
{
    begin(); nonce(0); char *w = r44_seal(CK[0][1], NO, "a", 1); char h[65]; ref_hex(CK[0][1], 32, h);
    MC_CHECK(!strcmp(h, "c41c775356fd92eadc63ff5a0dc1da211b268cbea22316767095b2871ea1412d"), "reference", "conversation key %s", h);
    MC_CHECK(!strcmp(w, "AgAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAABee0G5VSK0/9YypIObAtDKfYEAjD35uVkHyB0F4DwrcNaCXlCWZKaArsGrY6M9wnuTMxWfp1RTN9Xga8no+kF5Vsb"), "reference", "payload %s", w);
    static const int P[][2] = { { 16, 32 }, { 32, 32 }, { 33, 64 }, { 37, 64 }, { 45, 64 }, { 49, 64 }, { 64, 64 }, { 65, 96 }, { 100, 128 }, { 111, 128 }, { 200, 224 }, { 250, 256 }, { 320, 320 }, { 383, 384 }, { 384, 384 }, { 400, 448 }, { 500, 512 }, { 512, 512 }, { 515, 640 }, { 700, 768 }, { 800, 896 }, { 900, 1024 }, { 1020, 1024 }, { 65535, 65536 } };
    for (int i = 0; i < MC_LEN(P); i++) MC_CHECK(r44_padlen((size_t)P[i][0]) == (size_t)P[i][1], "reference", "padding of %d is %zu", P[i][0], r44_padlen((size_t)P[i][0]));
    dec44(1, 0, w, (const uint8_t *)"a", 1, "the published vector"); mc_conform();
}
/* ---- what must not decrypt ---- */
static const char *const PT[] = { "x", "hello from nobody in particular, 33", "\xf0\x9f\x98\x80" };
static void bitflips(void)
{
    begin(); int i = mc_choose(3); nonce(2); char *c = r44_seal(CK[1][2], NO, PT[i], strlen(PT[i])); size_t l = strlen(c); uint8_t *raw = malloc(l); int can; long n = r44_dec64(c, l, raw, &can);
    for (long k = 0; k < n * 8; k++) { raw[k / 8] ^= (uint8_t)(1 << k % 8); char *t = r44_enc64(raw, (size_t)n), what[60]; snprintf(what, sizeof what, "a payload with bit %ld changed", k); dec44(2, 1, t, NULL, 0, what); free(t); raw[k / 8] ^= (uint8_t)(1 << k % 8); }
    for (long k = 0; k < n; k++) { char *t = r44_enc64(raw, (size_t)k); dec44(2, 1, t, NULL, 0, "a truncated payload"); free(t); }
    for (int k = 1; k < 70; k++) { uint8_t *big = calloc(1, (size_t)n + 70); memcpy(big, raw, (size_t)n); char *t = r44_enc64(big, (size_t)(n + k)); dec44(2, 1, t, NULL, 0, "an extended payload"); free(t); free(big); }
    for (int to = 0; to < NK; to++) for (int from = 0; from < NK; from++) { int ok = !memcmp(CK[to][from], CK[1][2], 32); dec44(to, from, c, ok ? (const uint8_t *)PT[i] : NULL, strlen(PT[i]), "the payload, under another key pair"); }
    free(raw); free(c); mc_conform();
}
static void characters(void)    /* every character at every place of the base64 text; insertions, deletions */
{
    begin(); int i = mc_choose(2), mode = mc_choose(3); nonce(3); char *c = r44_seal(CK[1][2], NO, PT[i], strlen(PT[i])); size_t l = strlen(c); char *t = malloc(l + 8); int part = mc_choose(4);
    for (size_t p = l * (size_t)part / 4; p < l * (size_t)(part + 1) / 4 + (part == 3 && mode == 1); p++) for (int b = 1; b < 256; b++) {
        if (mode == 2 && b > 1) break;
        if (mode == 0) { if (c[p] == (char)b) continue; strcpy(t, c); t[p] = (char)b; } else if (mode == 1) { memcpy(t, c, p); t[p] = (char)b; strcpy(t + p + 1, c + p); } else { memcpy(t, c, p); strcpy(t + p, c + p + 1); }
        uint8_t *raw = malloc(l + 8); int can; long n = r44_dec64(t, strlen(t), raw, &can); size_t pn = 0; uint8_t *w = n < 0 ? NULL : r44_open_raw(CK[2][1], raw, (size_t)n, &pn);
        char what[120]; snprintf(what, sizeof what, "a payload with %s %02x at character %zu of %zu", mode == 0 ? "character" : mode == 1 ? "an inserted" : "one removed", b, p, l);
        if (n >= 0 && !can) { char *o = UNSET; size_t on; if (nostr_nip44_decrypt(&SK[2], &PK[1], t, &o, &on) == NOSTR_OK) { if (!w || on != pn || memcmp(o, w, pn)) mc_report("accepted", "%s decrypts to something else", what); free(o); } mc_eval(1); }
        else dec44(2, 1, t, w, pn, what);
        free(raw); free(w); }
    free(t); free(c); mc_conform();
}
static void forged(void)        /* made by someone who holds the key: right MAC, wrong inside */
{
    begin(); int mode = mc_choose(4); uint8_t pad[2300]; size_t rl; nonce(4);
    if (mode == 0) for (int v = 0; v < 256; v++) { fill(pad, 34, 0); pad[0] = 0; pad[1] = 1; uint8_t *r = r44_seal_raw(CK[0][3], NO, v, pad, 34, &rl); char *t = r44_enc64(r, rl); char what[50]; snprintf(what, sizeof what, "version %d", v); dec44(3, 0, t, v == 2 ? (uint8_t *)"a" : NULL, 1, what); free(t); free(r); }
    else {
        /* stated length against real size */
        static const int SZ[] = { 1, 2, 3, 31, 32, 33, 34, 35, 64, 66, 67, 98, 130, 258, 290, 322, 386, 514, 642, 770, 1026, 2050 }; int sz = MC_PICK(SZ);
        static const int LN[] = { 0, 1, 2, 31, 32, 33, 34, 63, 64, 65, 96, 97, 128, 129, 224, 225, 256, 257, 288, 289, 319, 320, 321, 383, 384, 385, 448, 449, 511, 512, 513, 640, 641, 768, 769, 1023, 1024, 1025, 1792, 1793, 2047, 2048, 2049, 4096, 32767, 32768, 32769, 65534, 65535 };
        for (int i = 0; i < MC_LEN(LN); i++) { fill(pad, (size_t)sz, 3); pad[0] = (uint8_t)(LN[i] >> 8); if (sz > 1) pad[1] = (uint8_t)LN[i]; if (mode == 2) memset(pad + 2, 0, (size_t)(sz > 2 ? sz - 2 : 0));
            uint8_t *r = r44_seal_raw(CK[0][3], NO, 2, pad, (size_t)sz, &rl); char *t = r44_enc64(r, rl); size_t n = 0; uint8_t *w = r44_open(CK[0][3], t, &n); char what[70]; snprintf(what, sizeof what, "%d padded bytes that state %d", sz, LN[i]); dec44(3, 0, t, w, n, what); free(w);
            if (mode == 3) { char *x = malloc(strlen(t) + 2); sprintf(x, "#%s", t); dec44(3, 0, x, NULL, 0, "a payload after '#'"); free(x); }
            free(t); free(r); } }
    mc_conform();
}
static void badkeys(void)
{
    begin(); static const char *const K[] = { "0000000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0000000000000000000000000000000000000000000000000000000000000005" };
    int pub = mc_choose(2), op = mc_choose(2), k = mc_choose(MC_LEN(K)); nostr_privkey s = SK[0]; nostr_key p = PK[1]; uint8_t b[32]; ref_unhex(K[k], 64, b); int bad;
    if (pub) { memcpy(p.data, b, 32); secp256k1_xonly_pubkey q; bad = !secp256k1_xonly_pubkey_parse(X, &q, b); } else { memcpy(s.data, b, 32); bad = !secp256k1_ec_seckey_verify(X, b); }
    if (!bad) mc_discard();
    char *o = UNSET; size_t n = 0; nonce(0); char *c = r44_seal(CK[0][1], NO, "a", 1); fault_track(1); nostr_error_t r = op ? nostr_nip44_decrypt(&s, &p, c, &o, &n) : nostr_nip44_encrypt(&s, &p, "a", 1, &o); fault_track(0); mc_step();
    MC_CHECK(r != NOSTR_OK, "bad-key", "%s with the %s key %s succeeds", op ? "decrypting" : "encrypting", pub ? "public" : "private", K[k]); MC_CHECK(o == UNSET || !o, "output-on-error", "an invalid key is refused but the output is set"); MC_CHECK(!fault_live(), "leak", "%s", fault_live_desc()); free(c); mc_conform();
}
static void nulls(void)
{
    begin(); int f = mc_choose(2), a = mc_choose(5); char *o = UNSET; size_t n; nostr_error_t r;
    if (f) r = nostr_nip44_decrypt(a == 0 ? NULL : &SK[0], a == 1 ? NULL : &PK[0], a == 2 ? NULL : "AA", a == 3 ? NULL : &o, a == 4 ? NULL : &n); else { if (a == 4) mc_discard(); r = nostr_nip44_encrypt(a == 0 ? NULL : &SK[0], a == 1 ? NULL : &PK[0], a == 2 ? NULL : "AA", 2, a == 3 ? NULL : &o); }
    mc_step(); MC_CHECK(r != NOSTR_OK, "null", "a NULL argument %d is accepted", a); mc_conform();
}
static void configured(void)    /* the configured bounds on plaintext sizes are respected both ways */
{
    begin(); static const uint32_t B[] = { 1, 2, 31, 32, 33, 64, 1000, 65534, 65535 }; uint32_t lo = MC_PICK(B), hi = MC_PICK(B); if (lo > hi) mc_discard(); nostr_config c; nostr_config_get_defaults(&c); c.nip44_min_plaintext_size = lo; c.nip44_max_plaintext_size = hi;
    static int on; if (!on) { on = 1; nostr_config d; nostr_config_get_defaults(&d); nostr_init_with_config(&d); } if (nostr_config_update(&c) != NOSTR_OK) mc_discard();
    for (int i = 0; i < MC_LEN(B); i++) for (int d = -1; d <= 1; d++) { long n = (long)B[i] + d; if (n < 0 || n > 65536) continue; uint8_t *pt = malloc((size_t)n + 1); fill(pt, (size_t)n, 1); char *o = UNSET; nonce(1); nostr_error_t r = nostr_nip44_encrypt(&SK[0], &PK[1], (char *)pt, (size_t)n, &o); int ok = n >= lo && n <= hi; mc_eval(1);
        if ((r == NOSTR_OK) != ok) mc_report("configured", "%ld bytes with bounds %u..%u: %d", n, lo, hi, r); if (r == NOSTR_OK) free(o);
        if (n >= 1 && n <= 65535) { char *w = r44_seal(CK[0][1], NO, pt, (size_t)n); if (n > hi) dec44(1, 0, w, NULL, 0, "a plaintext above the configured size"); else if (n >= lo) dec44(1, 0, w, pt, (size_t)n, "a plaintext within the configured bounds"); free(w); }
        free(pt); }
    nostr_config_get_defaults(&c); nostr_config_update(&c); mc_conform();
}
static void nonces(void)        /* a fresh nonce for every message; a failing generator sends nothing */
{
    begin(); int depth = 3; rng_arm(1); mc_set_dev_bound(mc_thorough() ? 2 : 1); uint8_t seen[8][32]; int ns = 0;
    for (int i = 0; i < depth; i++) { int op = mc_choose(2 + NIP04); if (op == 2) { char *o = UNSET; int f0 = rng_failed(); nostr_error_t r = nostr_nip04_encrypt(&SK[0], &PK[1], "hi", &o); if (rng_failed() > f0) MC_CHECK(r != NOSTR_OK && (o == UNSET || !o), "weak-nonce", "NIP-04 encrypts although the generator failed"); else { MC_CHECK(r == NOSTR_OK, "encrypt", "NIP-04: %d", r); free(o); } mc_step(); continue; }
        char *o = UNSET; int f0 = rng_failed(); const uint8_t *lg; size_t l0 = rng_log(&lg); nostr_error_t r = nostr_nip44_encrypt(&SK[0], &PK[op], "hi", 2, &o); mc_step();
        if (rng_failed() > f0) { MC_CHECK(r != NOSTR_OK, "weak-nonce", "a message is encrypted although the generator failed"); MC_CHECK(o == UNSET || !o, "output-on-error", "the output is set"); continue; }
        MC_CHECK(r == NOSTR_OK, "encrypt", "%d", r); size_t l1 = rng_log(&lg); uint8_t raw[300]; int can; long n = r44_dec64(o, strlen(o), raw, &can); MC_CHECK(n == 99, "payload", "%ld bytes", n); int from = 0; for (size_t k = l0; k + 32 <= l1; k++) if (!memcmp(lg + k, raw + 1, 32)) from = 1;
        MC_CHECK(from, "nonce-source", "the nonce %s was not drawn from the generator for this message", mc_hex(raw + 1, 32)); for (int k = 0; k < ns; k++) MC_CHECK(memcmp(seen[k], raw + 1, 32), "nonce-reuse", "two messages share the nonce %s", mc_hex(raw + 1, 32)); memcpy(seen[ns++], raw + 1, 32); free(o); }
    mc_conform();
}
static void faults(void)        /* memory, backend or OpenSSL failing anywhere */
{
    begin(); mc_set_dev_bound(mc_thorough() ? 2 : 1); int op = mc_choose(2 + 2 * NIP04), sz = mc_choose(2); uint8_t pt[600]; size_t n = sz ? 599 : 5; fill(pt, 599, 1); pt[n] = 0; nonce(1); uint8_t iv[16]; memcpy(iv, NO, 16);
    char *c44 = r44_seal(CK[0][1], NO, pt, n), *c04 = r04_seal(SH[0][1], iv, pt, strlen((char *)pt)), *o = UNSET; size_t on = 0; nostr_error_t r;
    fault_track(1); fault_arm(); nc_armed = 1; if (ossl) fault_openssl_arm(1);
    if (op == 0) r = nostr_nip44_encrypt(&SK[0], &PK[1], (char *)pt, n, &o); else if (op == 1) r = nostr_nip44_decrypt(&SK[1], &PK[0], c44, &o, &on); else if (op == 2) r = nostr_nip04_encrypt(&SK[0], &PK[1], (char *)pt, &o); else r = nostr_nip04_decrypt(&SK[1], &PK[0], c04, &o);
    nc_armed = 0; fault_disarm(); if (ossl) fault_openssl_arm(0); mc_step();
    if (r == NOSTR_OK) { MC_CHECK(o != UNSET && o, "no-output", "success without output"); const char *w = op == 0 ? c44 : op == 2 ? c04 : (char *)pt; if (op == 1 ? on != n || memcmp(o, pt, n) : strcmp(o, w)) mc_fail("wrong-after-fault", "operation %d succeeds with a wrong result after a failure", op); free(o); }
    else { MC_CHECK(o == UNSET || !o, "output-on-error", "operation %d fails (%d) but sets its output", op, r); if (!mc_dev_used()) mc_fail("refused", "operation %d fails without a fault: %d", op, r); }
    fault_track(0); MC_CHECK(!fault_live(), "leak", "operation %d returned %d: %s", op, r, fault_live_desc()); free(c44); free(c04); mc_conform();
}
/* ---- NIP-04 ---- */
static void dec04(int to, int from, const char *c, const uint8_t *want, const char *what)
{
    char *o = UNSET; fault_track(1); nostr_error_t r = nostr_nip04_decrypt(&SK[to], &PK[from], c, &o); mc_eval(1);
    if (!want) { if (r == NOSTR_OK) { mc_report("nip04-accepted", "%s decrypts", what); free(o); } else if (o != UNSET && o) mc_report("output-on-error", "%s is refused (%d) but the output is set", what, r); }
    else if (r != NOSTR_OK) mc_report("nip04-refused", "%s does not decrypt: %d", what, r); else { if (strcmp(o, (const char *)want)) mc_report("nip04-plaintext", "%s decrypts to %s", what, mc_q(o)); free(o); }
    fault_track(0); if (fault_live()) { mc_report("leak", "%s: %s", what, fault_live_desc()); fault_reset(); }
}
static void nip04_lengths(void)
{
    if (!NIP04) { char *o = UNSET; MC_CHECK(nostr_nip04_encrypt(&SK[0], &PK[1], "x", &o) != NOSTR_OK && nostr_nip04_decrypt(&SK[0], &PK[1], "x", &o) != NOSTR_OK && o == UNSET, "nip04", "not available, yet succeeds"); mc_conform(); return; }
    begin(); int k = mc_choose(mc_thorough() ? 64 : 16);
    for (int n = k * 32; n < k * 32 + 32; n++) { uint8_t pt[2100]; for (int i = 0; i < n; i++) pt[i] = (uint8_t)(1 + (i * 7 + k) % 255); pt[n] = 0; int a = n % NK, b = n / 3 % NK; nonce(n % 5); char *o = UNSET; nostr_error_t r = nostr_nip04_encrypt(&SK[a], &PK[b], (char *)pt, &o); mc_eval(1); if (r != NOSTR_OK) mc_fail("encrypt", "NIP-04: %d bytes: %d", n, r);
        char *w = r04_seal(SH[a][b], NO, pt, (size_t)n); if (strcmp(w, o)) mc_report("nip04-payload", "%d bytes: %s instead of %s", n, mc_q(o), mc_q(w)); dec04(b, a, o, pt, "a message"); dec04(a, b, w, pt, "a message, by its sender"); mc_outcome(mc_hash_str(MC_H0, w)); free(o); free(w); }
    mc_conform();
}
static int judge04(int to, int from, const char *t, uint8_t **w)   /* 0 must be refused, 1 must decrypt to *w, 2 either (non-canonical base64) */
{
    *w = NULL; const char *q = strstr(t, "?iv="); if (!q) return 0;
    uint8_t *raw = malloc(strlen(t) + 8), iv[400]; int c1, c2; long n = r44_dec64(t, (size_t)(q - t), raw, &c1), m = strlen(q + 4) > 500 ? -1 : r44_dec64(q + 4, strlen(q + 4), iv, &c2); size_t pn; uint8_t *p = n > 0 && m == 16 ? r04_open_raw(SH[to][from], iv, raw, (size_t)n, &pn) : NULL; free(raw);
    if (!p) return 0;
    *w = malloc(pn + 1); memcpy(*w, p, pn); (*w)[pn] = 0; free(p); return c1 && c2 ? 1 : 2;
}
static void both04(const char *t, const char *what) { uint8_t *w; int j = judge04(1, 0, t, &w); if (j == 2) { char *o = UNSET; if (nostr_nip04_decrypt(&SK[1], &PK[0], t, &o) == NOSTR_OK) { if (strcmp(o, (char *)w)) mc_report("nip04-plaintext", "%s decrypts to %s", what, mc_q(o)); free(o); } } else dec04(1, 0, t, w, what); free(w); }
static void nip04_characters(void)
{
    if (!NIP04) mc_discard(); begin(); int mode = mc_choose(3), sz = mc_choose(2); nonce(2); char *c = r04_seal(SH[0][1], NO, "The quick brown fox jumps", sz ? 25 : 3), t[200]; size_t l = strlen(c);
    for (size_t p = 0; p < l + (mode == 1); p++) for (int b = 1; b < 256; b++) { if (mode == 2 && b > 1) break; if (mode == 0) { strcpy(t, c); t[p] = (char)b; } else if (mode == 1) { memcpy(t, c, p); t[p] = (char)b; strcpy(t + p + 1, c + p); } else { memcpy(t, c, p); strcpy(t + p, c + p + 1); } char what[300]; snprintf(what, sizeof what, "%s", mc_q(t)); both04(t, what); }
    free(c); mc_conform();
}
static void nip04_forms(void)
{
    if (!NIP04) mc_discard(); begin(); nonce(2); char *c = r04_seal(SH[0][1], NO, "The quick brown fox jumps", 25), *q = strstr(c, "?iv="); *q = 0; static const char *const A[] = { "", "A", "AA", "AAA", "AA==", "AAAA", "=", "====", "A===", "\n", " ", "AAAA\n", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAA", "-", "?", "?iv=", "AAAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAA", NULL, NULL }; static const char *const S[] = { "?iv=", "?iv", "?IV=", "iv=", "", "?iv=?iv=", "&iv=", " ?iv=" };
    int a = mc_choose(MC_LEN(A)), b = mc_choose(MC_LEN(A)), s = mc_choose(MC_LEN(S)), e = mc_choose(3); const char *x = A[a] ? A[a] : a == MC_LEN(A) - 1 ? c : q + 4, *y = A[b] ? A[b] : b == MC_LEN(A) - 1 ? c : q + 4; char t[400]; snprintf(t, sizeof t, "%s%s%s%s", x, S[s], y, e == 0 ? "" : e == 1 ? "\n" : "?iv="); mc_step(); both04(t, mc_q(t)); free(c); mc_conform();
}
static void nip04_blocks(void)  /* every padding byte value, lengths around blocks, every last-block length */
{
    if (!NIP04) mc_discard(); begin(); int len = mc_choose(50), pb = mc_choose(18); nonce(1); uint8_t w[240], blk[64] = { 0 }, x[16]; for (int i = 0; i < 64; i++) blk[i] = 'a'; r44_aes_key(SH[0][1], w); int full = len / 16 * 16; for (int i = 0; i < (pb > 17 ? 17 : pb) && i < full; i++) blk[full - 1 - i] = (uint8_t)pb; memcpy(x, NO, 16);
    uint8_t ct[80]; for (int i = 0; i < full; i += 16) { for (int j = 0; j < 16; j++) blk[i + j] ^= x[j]; r44_aes_block(w, blk + i, ct + i, 0); memcpy(x, ct + i, 16); } for (int i = full; i < len; i++) ct[i] = 0x33;
    char *a = r44_enc64(ct, (size_t)len), *v = r44_enc64(NO, 16), t[300]; sprintf(t, "%s?iv=%s", a, v); char what[80]; snprintf(what, sizeof what, "%d bytes of ciphertext whose padding byte is %d", len, pb); both04(t, what);
    for (int n = 0; n < 40; n++) { uint8_t iv[40]; memset(iv, 7, 40); char *z = r44_enc64(iv, (size_t)n); sprintf(t, "%s?iv=%s", a, z); both04(t, "an iv of another length"); free(z); }
    free(a); free(v); mc_conform();
}
const mc_scenario mc_scenarios[] = {
    { "vectors", vectors, setup, 3, 0, "published NIP-44 vectors hold for the reference and for the library" },
    { "lengths", lengths, setup, 3, 120, "plaintext lengths 1..1279 and around every power of two (thorough: all of 1..65535): payload identical to NIP-44's, decrypted by both parties" },
    { "extremes", extremes, setup, 3, 0, "boundary lengths, empty and oversize plaintexts x contents x key pairs" },
    { "contents", contents, setup, 3, 0, "every byte value (also 0) at the start, middle and end" },
    { "bitflips", bitflips, setup, 3, 0, "every bit, truncation and extension of three payloads; every other key pair" },
    { "characters", characters, setup, 3, 0, "every character at every place of the text, inserted everywhere, removed everywhere" },
    { "forged", forged, setup, 3, 0, "payloads with a right MAC: every version, 22 sizes x 49 stated lengths" },
    { "badkeys", badkeys, setup, 3, 0, "keys outside the group" },
    { "nulls", nulls, setup, 3, 0, "missing arguments" },
    { "configured", configured, setup, 3, 0, "45 configured size windows x lengths around their bounds" },
    { "nonces", nonces, setup, 3, 0, "histories of three messages with a failing generator: fresh drawn nonces or nothing sent" },
    { "faults", faults, setup_ossl, 3, 0, "one (two) failures of memory, backend or OpenSSL in each operation" },
    { "nip04-lengths", nip04_lengths, setup, 3, 0, "NIP-04: lengths 0..511 (2047), byte-identical to AES-256-CBC" },
    { "nip04-characters", nip04_characters, setup, 3, 0, "NIP-04: every character replaced, inserted, removed everywhere" },
    { "nip04-forms", nip04_forms, setup, 3, 0, "NIP-04: 22 x 8 x 22 x 3 combinations of parts" },
    { "nip04-blocks", nip04_blocks, setup, 3, 0, "NIP-04: ciphertext lengths 0..49 x padding bytes, iv lengths 0..39" },
    MC_END };
