/* C23: encrypted private keys decrypt only with the right password, unaltered.
 *
 * Reference: own XChaCha20-Poly1305 and bech32.  scrypt is a seam: a cheap function of (password, salt,
 * N, r, p, length) stands in for it, so that every alteration of the payload can be tried; the scenario
 * "vector" runs the real one.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include "../lib/refaead.h"
#include <nostr.h>
#include <openssl/evp.h>
#include <stdlib.h>
#include <stdio.h>

static int real_kdf, kdf_calls, kdf_fail, armed, faults; static uint64_t lastN; static size_t lastpl;
static void stub(const char *pw, size_t pl, const uint8_t *salt, size_t sl, uint64_t N, uint64_t r, uint64_t p, uint8_t out[32]) { uint8_t b[1200]; size_t n = 0; memcpy(b, &N, 8); memcpy(b + 8, &r, 8); memcpy(b + 16, &p, 8); n = 24; b[n++] = (uint8_t)sl; memcpy(b + n, salt, sl); n += sl; memcpy(b + n, pw, pl); n += pl; ref_sha256(b, n, out); }
int __real_EVP_PBE_scrypt(const char *pw, size_t pl, const unsigned char *s, size_t sl, uint64_t N, uint64_t r, uint64_t p, uint64_t mm, unsigned char *key, size_t kl);
int __wrap_EVP_PBE_scrypt(const char *pw, size_t pl, const unsigned char *s, size_t sl, uint64_t N, uint64_t r, uint64_t p, uint64_t mm, unsigned char *key, size_t kl)
{
    kdf_calls++; lastN = N; lastpl = pl; if (real_kdf) return __real_EVP_PBE_scrypt(pw, pl, s, sl, N, r, p, mm, key, kl);
    if (mm < 128 * r * (N + p + 2)) return 0;        /* what scrypt itself needs */
    if (kl != 32 || pl > 1000 || sl > 64) { mc_report("kdf-use", "scrypt called for %zu bytes", kl); return 0; }
    if (kdf_fail || (armed && mc_choose_dev(2))) { faults++; MC_NOTE("scrypt fails"); return 0; }
    stub(pw, pl, s, sl, N, r, p, key); return 1;
}
#define SEAM(T, fn, decl, call, bad) T __real_##fn decl; T __wrap_##fn decl { if (armed && mc_in_execution() && mc_choose_dev(2)) { faults++; MC_NOTE(#fn " fails"); return bad; } return __real_##fn call; }
SEAM(EVP_CIPHER_CTX *, EVP_CIPHER_CTX_new, (void), (), NULL)
SEAM(int, EVP_EncryptInit_ex, (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv), (c, t, e, k, iv), 0)
SEAM(int, EVP_DecryptInit_ex, (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv), (c, t, e, k, iv), 0)
SEAM(int, EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX *c, int t, int a, void *p), (c, t, a, p), mc_choose(2) ? -1 : 0)
SEAM(int, EVP_EncryptUpdate, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int il), (c, o, ol, i, il), 0)
SEAM(int, EVP_DecryptUpdate, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int il), (c, o, ol, i, il), 0)
SEAM(int, EVP_EncryptFinal_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol), (c, o, ol), 0)
SEAM(int, EVP_DecryptFinal_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol), (c, o, ol), 0)
static int have_seam;
static void setup(void) { fault_install(); nostr_init(); nostr_privkey k = { { 1 } }; char o[200]; rng_reset(); nostr_ncryptsec_encrypt(&k, "p", 16, o, sizeof o); have_seam = kdf_calls; if (!have_seam) fprintf(stderr, "scrypt is not called through EVP_PBE_scrypt: only the vector scenario decides\n"); }
static void need(void) { if (!have_seam) mc_discard(); kdf_calls = faults = kdf_fail = real_kdf = armed = 0; fault_reset(); rng_reset(); }

static const char *const KEY[] = { "3501454135014541350145413501453fefb02227e449e57cf4d3a3ce05378683", "0000000000000000000000000000000000000000000000000000000000000001", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef" };
static const char LONG[] = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789";
static const char *const PW[] = { "nostr", "p", "P", "p ", " p", "pp", "password", "Password", "passwor", "password1", "pass\x01word", "\xc3\xa9", "e\xcc\x81", "\xc3\xa9 ", "\xe2\x84\xab", "\xc3\x85", "\xe2\x84\xab\xe2\x84\xa6\xe1\xba\x9b\xcc\xa3", "\xc3\x85\xce\xa9\xe1\xb9\xa9", "\x7f", "\x80", "\xff\xfe", "0123456789012345678901234567890123456789012345678901234567890123", "01234567890123456789012345678901234567890123456789012345678901234", LONG, LONG + 1, "\n", "\t", "nostR", "nostr\n" };
static int nfkc_equal(int a, int b) { static const int G[][2] = { { 11, 12 }, { 14, 15 }, { 16, 17 } }; if (a == b) return 1; for (int i = 0; i < 3; i++) if ((a == G[i][0] && b == G[i][1]) || (b == G[i][0] && a == G[i][1])) return 2; return 0; }
static uint8_t SALT[16], NONCE[24], SCR[40];
static void noise(int k) { for (int i = 0; i < 40; i++) SCR[i] = (uint8_t)(k == 0 ? i + 1 : k == 1 ? 0xff : k == 2 ? 0 : i * 29 + k * 71); memcpy(SALT, SCR, 16); memcpy(NONCE, SCR + 16, 24); }
static void ref_payload(const uint8_t *k, const char *pw, int logn, uint8_t ks, uint8_t p[91]) { uint8_t sym[32]; p[0] = 2; p[1] = (uint8_t)logn; memcpy(p + 2, SALT, 16); memcpy(p + 18, NONCE, 24); p[42] = ks; stub(pw, strlen(pw), SALT, 16, 1ull << logn, 8, 1, sym); ref_xchacha_seal(sym, NONCE, &ks, 1, k, 32, p + 43, p + 75); }
static nostr_privkey key(int i) { nostr_privkey k; ref_unhex(KEY[i], 64, k.data); return k; }
/* decrypt must fail and release nothing of k; the output buffer was filled with 0x5a */
static int has_key(const uint8_t *o, const uint8_t *k) { for (int i = 0; i + 4 <= 32; i++) { if (k[i] == k[i + 1] && k[i] == k[i + 2] && k[i] == k[i + 3]) continue; if (!memcmp(o + i, k + i, 4)) return 1; } return 0; }
/* what a stream decryption without authentication would give */
static void no_release(const char *s, const char *pw, const uint8_t *k, const char *what)
{
    nostr_privkey o; memset(o.data, 0x5a, 32); nostr_error_t r = nostr_ncryptsec_decrypt(s, pw, &o); mc_eval(1);
    if (r == NOSTR_OK) mc_report("decrypts", "%s decrypts", what); int touched = 0, zero = 1; for (int i = 0; i < 32; i++) { if (o.data[i] != 0x5a) touched = 1; if (o.data[i]) zero = 0; }
    if (r != NOSTR_OK && (has_key(o.data, k) || (touched && !zero))) mc_report("released", "%s is refused (%d) but leaves %s in the output", what, r, mc_hex(o.data, 32));
}
static void roundtrip(void)
{
    need(); int pw = mc_choose(MC_LEN(PW)), k = mc_choose(4), logn = 16 + mc_choose(7), nz = mc_choose(4); noise(nz); nostr_privkey K = key(k), o; uint8_t p[91]; char want[300], buf[300]; ref_payload(K.data, PW[pw], logn, 2, p); ref_bech32_encode("ncryptsec", p, 91, want); size_t L = strlen(want);
    rng_script(SCR, 40); memset(buf, 'x', sizeof buf); nostr_error_t r = nostr_ncryptsec_encrypt(&K, PW[pw], (uint8_t)logn, buf, L + 1); mc_step();
    if (r != NOSTR_OK) mc_fail("encrypt", "error %d", r); if (lastN != 1ull << logn) mc_fail("work", "scrypt with N=%llu instead of 2^%d", (unsigned long long)lastN, logn);
    uint8_t got[200]; char hrp[90]; uint8_t d5[400]; size_t n5; (void)got; (void)hrp; if (buf[L + 1] != 'x') mc_fail("overrun", "wrote beyond the buffer");
    /* key security byte is the library's choice: 0..2 */
    int same = !strcmp(buf, want); for (int ks = 0; ks < 2 && !same; ks++) { ref_payload(K.data, PW[pw], logn, (uint8_t)ks, p); char w2[300]; ref_bech32_encode("ncryptsec", p, 91, w2); same = !strcmp(buf, w2); }
    (void)d5; (void)n5; if (!same) { /* other split of the drawn bytes into salt and nonce, or an NFKC form of the password, is fine as long as it reads back */ if (strlen(buf) != L || pw < 11) { const uint8_t *lg; size_t ln = rng_log(&lg); uint8_t d[400]; size_t nn; if (ref_bech32_decode5(buf, hrp, d, &nn) || strcmp(hrp, "ncryptsec") || ln < 40) mc_fail("format", "%s", mc_q(buf)); mc_fail("format", "%s, NIP-49 %s", mc_q(buf), want); } }
    memset(o.data, 0x5a, 32); r = nostr_ncryptsec_decrypt(buf, PW[pw], &o); if (r != NOSTR_OK || memcmp(o.data, K.data, 32)) mc_fail("roundtrip", "decryption with the same password: %d", r); if (nostr_ncryptsec_validate(buf) != NOSTR_OK) mc_fail("validate", "an encrypted key does not validate");
    mc_conform(); mc_outcome(mc_hash_str(MC_H0, buf)); mc_state(pw * 100 + logn); MC_NOTE("key %d, password %s, work factor %d: %s", k, mc_q(PW[pw]), logn, buf);
}
static void sizes(void)
{
    need(); int a = mc_choose(256 + 200); noise(0); nostr_privkey K = key(0), o; char *buf; nostr_error_t r;
    if (a < 256) { char b[200]; rng_script(SCR, 40); kdf_calls = 0; r = nostr_ncryptsec_encrypt(&K, "pw", (uint8_t)a, b, sizeof b); if ((r == NOSTR_OK) != (a >= 16 && a <= 22)) mc_fail("work-factor", "work factor %d: %d", a, r); if (r != NOSTR_OK && kdf_calls) mc_fail("work-factor", "key derivation with a refused work factor");
        uint8_t p[91]; ref_payload(K.data, "pw", a & 63, 2, p); p[1] = (uint8_t)a; char s[300]; ref_bech32_encode("ncryptsec", p, 91, s); kdf_calls = 0; memset(o.data, 0x5a, 32); r = nostr_ncryptsec_decrypt(s, "pw", &o); int ok = a >= 16 && a <= 22; if ((r == NOSTR_OK) != ok || (ok && memcmp(o.data, K.data, 32))) mc_fail("work-factor", "decrypting with work factor %d: %d", a, r); if (!ok && kdf_calls) mc_fail("work-factor", "key derivation for a refused work factor %d", a); if ((nostr_ncryptsec_validate(s) == NOSTR_OK) != ok) mc_fail("validate", "work factor %d", a);
    } else { size_t size = a - 256; buf = malloc(size + 1); memset(buf, 'x', size + 1); rng_script(SCR, 40); r = nostr_ncryptsec_encrypt(&K, "pw", 16, buf, size); if (buf[size] != 'x') mc_fail("overrun", "buffer of %zu bytes overrun", size); if ((r == NOSTR_OK) != (size >= 163)) mc_fail("size", "buffer of %zu bytes: %d", size, r); if (r == NOSTR_OK && strlen(buf) != 162) mc_fail("size", "%zu characters", strlen(buf)); free(buf); }
    mc_step(); mc_conform(); mc_outcome(a); MC_NOTE("work factor or size case %d", a);
}
/* every single-bit (and, in pairs of fields, double-bit) change of the payload with a correct checksum */
static void bits(void)
{
    need(); int b = mc_choose(728), k = mc_choose(2), pw = mc_choose(3); noise(k); uint8_t p[91]; char s[300], w[60]; nostr_privkey K = key(k); ref_payload(K.data, PW[pw], 16, 2, p); p[b / 8] ^= 0x80 >> b % 8; ref_bech32_encode("ncryptsec", p, 91, s); snprintf(w, sizeof w, "payload with bit %d changed", b);
    no_release(s, PW[pw], K.data, w); nostr_error_t v = nostr_ncryptsec_validate(s); int ok = p[0] == 2 && p[1] >= 16 && p[1] <= 22 && p[42] <= 2; if ((v == NOSTR_OK) != ok) mc_report("validate", "%s: %d", w, v);
    int step = 1; for (int c = 0; c < 728; c++) { if (c == b) continue; if (!step && !(c / 8 == 42 || c / 8 == 0 || c / 8 == 1 || c / 8 == b / 8 || c == 727 - b || c / 8 >= 90)) continue; p[c / 8] ^= 0x80 >> c % 8; ref_bech32_encode("ncryptsec", p, 91, s); snprintf(w, sizeof w, "payload with bits %d and %d changed", b, c); no_release(s, PW[pw], K.data, w); p[c / 8] ^= 0x80 >> c % 8; }
    mc_step(); mc_conform(); mc_outcome(b * 6 + k * 3 + pw); MC_NOTE("bit %d of the payload (byte %d)", b, b / 8);
}
/* version, work factor and security byte, with a ciphertext that fits them */
static void fields(void)
{
    need(); int f = mc_choose(2), v = mc_choose(256); noise(3); uint8_t p[91]; char s[300]; nostr_privkey K = key(3), o; memset(o.data, 0x5a, 32); int ok;
    if (f == 0) { ref_payload(K.data, "pw", 16, (uint8_t)v, p); ok = v <= 2; } else { ref_payload(K.data, "pw", 16, 2, p); p[0] = (uint8_t)v; ok = v == 2; }
    ref_bech32_encode("ncryptsec", p, 91, s); nostr_error_t r = nostr_ncryptsec_decrypt(s, "pw", &o); mc_step(); if ((r == NOSTR_OK) != ok) mc_fail("field", "%s %d: %d", f ? "version" : "security byte", v, r); if (ok && memcmp(o.data, K.data, 32)) mc_fail("field", "another key"); if (!ok && has_key(o.data, K.data)) mc_fail("released", "%s %d refused but the key is in the output", f ? "version" : "security byte", v); if ((nostr_ncryptsec_validate(s) == NOSTR_OK) != ok) mc_fail("validate", "%s %d", f ? "version" : "security byte", v);
    mc_conform(); mc_outcome(f * 256 + v); MC_NOTE("%s %d: %d", f ? "version" : "security byte", v, r);
}
static void lengths(void)
{
    need(); int n = mc_choose(130), m = mc_choose(12); noise(0); uint8_t p[200] = { 0 }; char s[500]; nostr_privkey K = key(0); ref_payload(K.data, "pw", 16, 2, p); static const char *const HRP[] = { "ncryptsec", "nsec", "npub", "ncryptse", "ncryptsec1", "NCRYPTSEC", "ncryptsecx", "Ncryptsec", "ncryptsed", "n", "ncryptsec", "ncryptsec" };
    if (m < 10) { ref_bech32_encode(HRP[m], p, n, s); if (m == 0 && n == 91) { nostr_privkey o; if (nostr_ncryptsec_decrypt(s, "pw", &o) != NOSTR_OK || nostr_ncryptsec_validate(s) != NOSTR_OK) mc_fail("refused", "the right text is refused"); } else if (m == 5 && n == 91) ; else { no_release(s, "pw", K.data, m ? "another prefix" : "another length"); if (nostr_ncryptsec_validate(s) == NOSTR_OK) mc_report("validate", "%s validates", mc_q(s)); } }
    else { uint8_t d5[300]; size_t n5 = 146; uint8_t bit = 0; for (size_t i = 0; i < 146; i++) { d5[i] = 0; for (int j = 0; j < 5; j++) { int q = (int)i * 5 + j; bit = q < 728 ? p[q / 8] >> (7 - q % 8) & 1 : 0; d5[i] = (uint8_t)(d5[i] << 1 | bit); } }
        if (m == 10) { if (n < 3) d5[145] |= (uint8_t)(n + 1) & 3; else { n5 = 146 + n - 2; memset(d5 + 146, n % 2 ? 0 : 31, 150); } } else { if (n >= 8) return; n5 = 146; /* bech32m constant and other checksums */ }
        ref_bech32_encode5("ncryptsec", d5, n5, s); if (m == 11) { static const char CS[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"; uint32_t x = (uint32_t[]){ 0x2bc830a3 ^ 1, 1, 2, 4, 32, 1u << 29, 0x3fffffff, 1 << 15 }[n]; size_t L = strlen(s); for (int i = 0; i < 6; i++) { const char *c = strchr(CS, s[L - 6 + i]); s[L - 6 + i] = CS[(c - CS) ^ (x >> 5 * (5 - i) & 31)]; } }
        no_release(s, "pw", K.data, m == 11 ? "another checksum" : n < 3 ? "padding bits that are not zero" : "extra groups"); if (nostr_ncryptsec_validate(s) == NOSTR_OK) mc_report("validate", "%s validates", mc_q(s)); }
    mc_step(); mc_conform(); mc_outcome(n * 12 + m); MC_NOTE("%s", mc_q(s));
}
static void texts(void)
{
    need(); int c = mc_choose(256); noise(0); uint8_t p[91]; char b[300], s[320]; nostr_privkey K = key(0); ref_payload(K.data, "pw", 16, 2, p); ref_bech32_encode("ncryptsec", p, 91, b); size_t L = strlen(b);
    for (size_t i = 0; i <= L; i++) for (int m = 0; m < 2; m++) {
        if (m == 0) { if (i == L || (char)c == b[i]) continue; strcpy(s, b); s[i] = (char)c; } else { if (!c) continue; memcpy(s, b, i); s[i] = (char)c; strcpy(s + i + 1, b + i); }
        if (!strcmp(s, b)) continue; nostr_error_t v = nostr_ncryptsec_validate(s); mc_eval(1); if (v == NOSTR_OK) mc_report("validate", "%s validates", mc_q(s)); no_release(s, "pw", K.data, mc_q(s)); }
    if (c < 162) { memcpy(s, b, c); strcpy(s + c, b + c + 1); no_release(s, "pw", K.data, "a text with a character left out"); if (nostr_ncryptsec_validate(s) == NOSTR_OK) mc_report("validate", "%s", mc_q(s)); for (size_t i = 0; b[i]; i++) s[i] = i >= (size_t)c && b[i] >= 'a' && b[i] <= 'z' ? b[i] - 32 : b[i], s[i + 1] = 0; if (c > 0 && strcmp(s, b)) no_release(s, "pw", K.data, "mixed case"); }
    mc_step(); mc_conform(); mc_outcome(c); MC_NOTE("byte %d at every place", c);
}
static void passwords(void)
{
    need(); int a = mc_choose(MC_LEN(PW)), b = mc_choose(MC_LEN(PW) + 1); noise(3); nostr_privkey K = key(3), o; char s[300]; rng_script(SCR, 40); if (nostr_ncryptsec_encrypt(&K, PW[a], 16, s, sizeof s) != NOSTR_OK) mc_fail("encrypt", "password %s", mc_q(PW[a]));
    if (b == MC_LEN(PW)) { if (nostr_ncryptsec_encrypt(&K, "", 16, s, sizeof s) == NOSTR_OK || nostr_ncryptsec_decrypt(s, "", &o) == NOSTR_OK) mc_fail("empty", "an empty password is accepted"); }
    else { int eq = nfkc_equal(a, b); memset(o.data, 0x5a, 32); nostr_error_t r = nostr_ncryptsec_decrypt(s, PW[b], &o); if (r == NOSTR_OK ? !eq || memcmp(o.data, K.data, 32) : eq == 1) mc_fail("password", "encrypted with %s, decrypting with %s: %d", mc_q(PW[a]), mc_q(PW[b]), r); if (!eq) no_release(s, PW[b], K.data, "another password"); }
    mc_step(); mc_conform(); mc_outcome(a * 64 + b); MC_NOTE("%s then %s", mc_q(PW[a]), b < MC_LEN(PW) ? mc_q(PW[b]) : "(empty)");
}
static void faultrun(void)
{
    need(); int op = mc_choose(3); mc_set_dev_bound(mc_thorough() ? 3 : 2); noise(0); nostr_privkey K = key(0), o; char b[300], s[300]; uint8_t p[91]; ref_payload(K.data, "pw", 16, 2, p); ref_bech32_encode("ncryptsec", p, 91, b); memset(s, 0, sizeof s); memset(o.data, 0x5a, 32); rng_script(SCR, 40); rng_arm(1); fault_track(1); fault_arm(); armed = 1;
    nostr_error_t r = op == 0 ? nostr_ncryptsec_encrypt(&K, "pw", 16, s, sizeof s) : op == 1 ? nostr_ncryptsec_decrypt(b, "pw", &o) : nostr_ncryptsec_validate(b); armed = 0; fault_disarm(); rng_arm(0); mc_step(); int f = faults + rng_failed() + fault_injected();
    if (r == NOSTR_OK) { if (op == 0 && (nostr_ncryptsec_decrypt(s, "pw", &o) != NOSTR_OK || memcmp(o.data, K.data, 32) || (rng_failed()))) mc_fail("fault-encrypt", "success with an unusable or predictable result after %d failure(s)", f); if (op == 1 && memcmp(o.data, K.data, 32)) mc_fail("fault-decrypt", "another key after %d failure(s)", f); }
    else { if (!f) mc_fail("fault-refused", "%d without a failure", r); if (op == 1 && has_key(o.data, K.data)) mc_fail("released", "decryption fails with %d but leaves key bytes", r); for (size_t i = 0; op == 0 && i + 32 < sizeof s; i++) if (has_key((uint8_t *)s + i, K.data) && !memcmp(s + i, K.data, 8)) mc_fail("released", "key bytes in the output text"); }
    if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, op), r * 100 + f)); MC_NOTE("operation %d: %d after %d failure(s)", op, r, f);
}
static void vector(void)
{
    real_kdf = 1; armed = 0; rng_reset(); int a = mc_choose(6); nostr_privkey o; memset(o.data, 0x5a, 32); nostr_privkey K = key(0); static const char V[] = "ncryptsec1qgg9947rlpvqu76pj5ecreduf9jxhselq2nae2kghhvd5g7dgjtcxfqtd67p9m0w57lspw8gsq6yphnm8623nsl8xn9j4jdzz84zm3frztj3z7s35vpzmqf6ksu8r89qk5z2zxfmu5gv8th8wclt0h4p"; nostr_error_t r;
    if (a == 0) { r = nostr_ncryptsec_decrypt(V, "nostr", &o); if (r != NOSTR_OK || memcmp(o.data, K.data, 32)) mc_fail("vector", "the published NIP-49 example: %d %s", r, mc_hex(o.data, 32)); }
    else if (a == 1) { r = nostr_ncryptsec_decrypt(V, "nostR", &o); if (r == NOSTR_OK) mc_fail("vector", "the published example decrypts with another password"); }
    else { char s[200]; noise(0); rng_script(SCR, 40); r = nostr_ncryptsec_encrypt(&K, PW[a], 16 + a % 3, s, sizeof s); if (r != NOSTR_OK) mc_fail("vector", "encryption with real scrypt: %d", r); r = nostr_ncryptsec_decrypt(s, PW[a], &o); if (r != NOSTR_OK || memcmp(o.data, K.data, 32)) mc_fail("vector", "round trip with real scrypt: %d", r); }
    real_kdf = 0; mc_step(); mc_conform(); mc_outcome(a); MC_NOTE("real scrypt, case %d", a);
}
static void params(void)
{
    need(); nostr_privkey K = key(0); char s[200]; MC_CHECK(nostr_ncryptsec_encrypt(NULL, "p", 16, s, 200) != NOSTR_OK && nostr_ncryptsec_encrypt(&K, NULL, 16, s, 200) != NOSTR_OK && nostr_ncryptsec_encrypt(&K, "p", 16, NULL, 200) != NOSTR_OK && nostr_ncryptsec_decrypt(NULL, "p", &K) != NOSTR_OK && nostr_ncryptsec_decrypt("x", NULL, &K) != NOSTR_OK && nostr_ncryptsec_decrypt("x", "p", NULL) != NOSTR_OK && nostr_ncryptsec_validate(NULL) != NOSTR_OK && nostr_ncryptsec_validate("") != NOSTR_OK, "null", "a NULL argument is accepted"); mc_steps(8); mc_conform(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    { "roundtrip", roundtrip, setup, 3, 0, "keys x passwords x work factors x salts against NIP-49 written out" }, { "sizes", sizes, setup, 3, 0, "all 256 work factors, buffer sizes 0..199" }, { "bits", bits, setup, 3, 0, "every single-bit and many double-bit changes of the payload, correct checksum" },
    { "fields", fields, setup, 3, 0, "all versions and security bytes with fitting ciphertext" }, { "lengths", lengths, setup, 3, 0, "payload lengths 0..129 x prefixes; padding, extra groups, other checksums" }, { "texts", texts, setup, 3, 0, "every byte replaced or inserted at every place of the text" },
    { "passwords", passwords, setup, 3, 0, "all pairs of passwords" }, { "faults", faultrun, setup, 3, 0, "failures of randomness, scrypt, cipher and memory" }, { "vector", vector, setup, 3, 0, "published example and round trips with the real scrypt" }, { "params", params, setup, 3, 0, "NULL arguments" }, MC_END
};
