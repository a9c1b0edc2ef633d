/* C22: mnemonics: generation, validation and seeds follow BIP-39.
 *
 * Reference: own SHA-256/512, HMAC and PBKDF2, the published word list (checked by its hash), own
 * BIP-32.  Randomness and PBKDF2 are seams.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include "../lib/refhd.h"
#include "../lib/bip39.h"
#include <openssl/evp.h>
#include <stdlib.h>
#include <stdio.h>

static int kdf_fail, kdf_calls;
int __real_PKCS5_PBKDF2_HMAC(const char *p, int pl, const unsigned char *s, int sl, int it, const EVP_MD *d, int kl, unsigned char *o);
int __wrap_PKCS5_PBKDF2_HMAC(const char *p, int pl, const unsigned char *s, int sl, int it, const EVP_MD *d, int kl, unsigned char *o) { kdf_calls++; if (kdf_fail) { memset(o, 0xEE, kl / 2); return 0; } return __real_PKCS5_PBKDF2_HMAC(p, pl, s, sl, it, d, kl, o); }
static void setup(void)
{
    fault_install(); C = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); r512_setup(); nostr_init();
    ref_buf b; memset(&b, 0, sizeof b); static char all[2048 * 10]; size_t n = 0; for (int i = 0; i < 2048; i++) n += sprintf(all + n, "%s\n", BIP39[i]); uint8_t h[32]; char x[65]; ref_sha256(all, n, h); ref_hex(h, 32, x);
    if (strcmp(x, "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda")) { fprintf(stderr, "reference word list damaged\n"); exit(3); } (void)b;
}
static int widx(const char *w, size_t n) { char v[12]; if (n > 8) return -1; memcpy(v, w, n); v[n] = 0; for (int lo = 0, hi = 2047; lo <= hi;) { int m = (lo + hi) / 2, c = strcmp(BIP39[m], v); if (!c) return m; if (c < 0) lo = m + 1; else hi = m - 1; } return -1; }
static void encode(const uint8_t *ent, int bytes, int idx[24]) { uint8_t h[32], b[33]; memcpy(b, ent, bytes); ref_sha256(ent, bytes, h); b[bytes] = h[0]; int words = bytes * 8 / 32 * 3; for (int i = 0; i < words; i++) { idx[i] = 0; for (int j = 0; j < 11; j++) { int p = i * 11 + j; idx[i] = idx[i] << 1 | (b[p / 8] >> (7 - p % 8) & 1); } } }
static void text(const int *idx, int n, char *o) { *o = 0; for (int i = 0; i < n; i++) { if (i) strcat(o, " "); strcat(o, BIP39[idx[i]]); } }
/* the checksum of n words fits (n = 12 or 24) */
static int fits(const int *idx, int n) { uint8_t b[33] = { 0 }; for (int i = 0; i < n; i++) for (int j = 0; j < 11; j++) if (idx[i] >> (10 - j) & 1) b[(i * 11 + j) / 8] |= 0x80 >> (i * 11 + j) % 8; int bytes = n / 3 * 4; int back[24]; encode(b, bytes, back); return !memcmp(back, idx, n * sizeof *idx); }
/* 1 valid, 0 not, 2 only the spelling of blanks is in question */
static int ref_valid(const char *s) { int idx[25], n = 0, blanks = 0; while (*s) { if (*s == ' ') { blanks |= n == 0 || s[1] == ' ' || !s[1]; s++; continue; } size_t l = strcspn(s, " "); int w = widx(s, l); if (w < 0 || n == 24) return 0; idx[n++] = w; s += l; } if (n != 12 && n != 24) return 0; return fits(idx, n) ? blanks ? 2 : 1 : 0; }
static void squeeze(const char *s, char *o) { int n = 0; for (; *s; s++) if (*s != ' ') o[n++] = *s; else if (n && o[n - 1] != ' ') o[n++] = ' '; while (n && o[n - 1] == ' ') n--; o[n] = 0; }
static void judge(const char *s)
{
    int w = ref_valid(s); char *cp = strdup(s); nostr_error_t r = nostr_mnemonic_validate(cp); if (strcmp(cp, s)) mc_report("written", "validation changed its input"); free(cp); mc_eval(1);
    if (w == 1 && r != NOSTR_OK) mc_report("refused", "%s: %d", mc_q(s), r); if (w == 0 && r == NOSTR_OK) mc_report("accepted", "%s validates", mc_q(s));
    if (w == 2 && r == NOSTR_OK) { char c[400]; uint8_t a[64], b[64]; squeeze(s, c); if (nostr_mnemonic_to_seed(s, "x", a) == NOSTR_OK && nostr_mnemonic_to_seed(c, "x", b) == NOSTR_OK && memcmp(a, b, 64)) mc_report("blanks", "%s validates but its seed is not that of its words", mc_q(s)); }
    if (w == 0) { uint8_t a[64]; if (strlen(s) < 40 && nostr_mnemonic_to_seed(s, NULL, a) == NOSTR_OK) mc_report("seed-accepted", "%s gives a seed", mc_q(s)); }
}
static void entropy(int k, int bytes, uint8_t *e) { memset(e, 0, 32); if (k == 0) return; if (k == 1) { memset(e, 0xff, bytes); return; } if (k == 2) { for (int i = 0; i < bytes; i++) e[i] = 0x7f; return; } if (k == 3) { memset(e, 0x80, bytes); return; } if (k == 4) { for (int i = 0; i < bytes; i++) e[i] = (uint8_t)i; return; } k -= 5; if (k < bytes * 8) { e[k / 8] = 0x80 >> k % 8; return; } k -= bytes * 8; memset(e, 0xff, bytes); if (k < bytes * 8) e[k / 8] ^= 0x80 >> k % 8; }
static void generate(void)
{
    int w24 = mc_choose(2), bytes = w24 ? 32 : 16, k = mc_choose(5 + bytes * 16); uint8_t e[32]; int idx[24]; char want[400], *buf; entropy(k, bytes, e); encode(e, bytes, idx); text(idx, w24 ? 24 : 12, want); size_t L = strlen(want); int full = k < 6;
    for (size_t size = full ? 1 : L; size <= L + (full ? 8 : 2); size++) {
        rng_reset(); rng_script(e, bytes); buf = malloc(size + 8); memset(buf, 'x', size + 8); nostr_error_t r = nostr_mnemonic_generate(w24 ? 24 : 12, buf, size); mc_step(); mc_eval(1);
        for (int i = 0; i < 8; i++) if (buf[size + i] != 'x') mc_fail("overrun", "buffer of %zu bytes overrun", size);
        if (size > L) { if (r != NOSTR_OK || strcmp(buf, want)) mc_fail("generated", "entropy %s: %d, %s, BIP-39 %s", mc_hex(e, bytes), r, r == NOSTR_OK ? mc_q(buf) : "-", want); if (nostr_mnemonic_validate(buf) != NOSTR_OK) mc_fail("generated-invalid", "%s", want); }
        else if (r == NOSTR_OK) mc_fail("size", "a mnemonic of %zu characters fits %zu bytes", L, size);
        free(buf);
    }
    mc_conform(); mc_outcome(mc_hash_str(MC_H0, want)); mc_state(k); MC_NOTE("entropy %s: %s", mc_hex(e, bytes), want);
}
static void counts(void)
{
    static const int X[] = { -2147483647 - 1, -12, -1, 100, 128, 256, 268, 280, 65548, 2147483647 }; int i = mc_choose(60 + MC_LEN(X)), n = i < 60 ? i : X[i - 60]; char b[400]; rng_reset(); nostr_error_t r = nostr_mnemonic_generate(n, b, sizeof b); mc_step();
    if ((r == NOSTR_OK) != (n == 12 || n == 24)) mc_fail("count", "%d words: %d", n, r); if (r == NOSTR_OK) { if (ref_valid(b) != 1) mc_fail("generated-invalid", "%s", mc_q(b)); int c = 1; for (char *p = b; *p; p++) c += *p == ' '; if (c != n) mc_fail("count", "%d words instead of %d", c, n); }
    if (nostr_mnemonic_generate(12, NULL, 400) == NOSTR_OK || nostr_mnemonic_generate(12, b, 0) == NOSTR_OK || nostr_mnemonic_validate(NULL) == NOSTR_OK || nostr_mnemonic_to_seed(NULL, "", (uint8_t *)b) == NOSTR_OK || nostr_mnemonic_to_seed("a", "", NULL) == NOSTR_OK) mc_fail("null", "a NULL argument is accepted");
    /* a failing generator */
    for (int w = 12; w <= 24; w += 12) { rng_reset(); rng_fail_at(0); memset(b, 'x', sizeof b); r = nostr_mnemonic_generate(w, b, sizeof b); if (r == NOSTR_OK) mc_fail("random", "a mnemonic although randomness failed"); }
    mc_conform(); mc_outcome(i); MC_NOTE("%d words", n);
}
/* every word in every position of a valid mnemonic */
static void words(void)
{
    int w24 = mc_choose(2), n = w24 ? 24 : 12, bytes = w24 ? 32 : 16, pos = mc_choose(n); char s[400];
    for (int w = 0; w < 2048; w++) for (int f = 0; f < 2; f++) {
        uint8_t e[33]; memset(e, f ? 0xff : 0, 33); for (int j = 0; j < 11; j++) { int p = pos * 11 + j; if (p / 8 > bytes) break; e[p / 8] = (uint8_t)((e[p / 8] & ~(0x80 >> p % 8)) | (w >> (10 - j) & 1) << (7 - p % 8)); }
        int idx[24]; encode(e, bytes, idx); text(idx, n, s); nostr_error_t r = nostr_mnemonic_validate(s); mc_eval(1); if (r != NOSTR_OK) mc_report("refused", "%s: %d", mc_q(s), r);
    }
    mc_step(); mc_conform(); mc_outcome(w24 * 24 + pos); MC_NOTE("%d words, position %d, all words", n, pos);
}
static void replace(void)
{
    int w24 = mc_choose(2), n = w24 ? 24 : 12, bytes = w24 ? 32 : 16, pos = mc_choose(n), k = mc_choose(mc_thorough() ? 60 : 8); uint8_t e[32]; int idx[24]; entropy(k * 3, bytes, e); encode(e, bytes, idx); char s[400]; int keep = idx[pos];
    for (int w = 0; w < 2048; w++) { idx[pos] = w; text(idx, n, s); judge(s); } idx[pos] = keep;
    for (int q = 0; q < n; q++) { int t = idx[pos]; idx[pos] = idx[q]; idx[q] = t; text(idx, n, s); judge(s); t = idx[pos]; idx[pos] = idx[q]; idx[q] = t; }      /* swapped words */
    mc_step(); mc_conform(); mc_outcome((w24 * 24 + pos) * 100 + k); MC_NOTE("all replacements of word %d of %d", pos, n);
}
/* word counts 0..30, each a valid prefix structure */
static void lengths(void)
{
    int n = mc_choose(31), k = mc_choose(24); char s[600] = ""; uint8_t e[32]; int idx[24]; entropy(k, 32, e); encode(e, 32, idx); for (int i = 0; i < n; i++) { if (i) strcat(s, " "); strcat(s, BIP39[idx[i % 24]]); } judge(s);
    if (n && n % 3 == 0 && n <= 24) { int b = n / 3 * 4; entropy(k, b, e); encode(e, b, idx); text(idx, n, s); int want = n == 12 || n == 24; nostr_error_t r = nostr_mnemonic_validate(s); if ((r == NOSTR_OK) != want && !(r == NOSTR_OK && n >= 12)) mc_fail(want ? "refused" : "accepted", "%d words with fitting checksum: %d", n, r); mc_eval(1); }
    for (int last = 0; last < 2048 && n == 12; last++) { idx[11] = last; text(idx, 12, s); judge(s); strcat(s, " abandon"); judge(s); }
    mc_step(); mc_conform(); mc_outcome(n * 24 + k); MC_NOTE("%d words", n);
}
/* spelling: every byte at every place of the text, letters of unknown words, blanks */
static void spelling(void)
{
    int w24 = mc_choose(2), n = w24 ? 24 : 12, bytes = w24 ? 32 : 16; uint8_t e[32]; int idx[24]; int k = mc_choose(4) + 2; entropy(k, bytes, e); encode(e, bytes, idx); char b[400], s[400]; text(idx, n, b); size_t L = strlen(b); int c = mc_choose(256);
    for (size_t p = 0; p <= L; p++) { if (c) { memcpy(s, b, L + 1); if (p < L) { s[p] = (char)c; judge(s); } memcpy(s, b, p); s[p] = (char)c; strcpy(s + p + 1, b + p); judge(s); } else if (p < L) { memcpy(s, b, p); strcpy(s + p, b + p + 1); judge(s); memcpy(s, b, p); s[p] = 0; judge(s); } }
    if (c == ' ') { static const char *const SP[] = { "  ", "   ", "\t", "\n", "\xc2\xa0", "\xe3\x80\x80", " \t", ", " }; for (int i = 0; i < MC_LEN(SP); i++) for (int w = 0; w <= n; w++) { *s = 0; for (int q = 0; q < n; q++) { if (q == w) strcat(s, SP[i]); else if (q) strcat(s, " "); strcat(s, BIP39[idx[q]]); } if (w == n) strcat(s, SP[i]); judge(s); } }
    mc_step(); mc_conform(); mc_outcome(c * 2 + w24); MC_NOTE("byte %d at every place of %s", c, b);
}
/* every lower-case string of up to 4 letters, and every prefix and one-letter extension of every word, as the first word */
static void unknown(void)
{
    int a = mc_choose(26), b = mc_choose(27); char s[400], tail[300]; int idx[24]; uint8_t e[32] = { 0 }; encode(e, 16, idx); text(idx + 1, 11, tail); char w[8] = { (char)('a' + a), b < 26 ? (char)('a' + b) : 0 };
    snprintf(s, sizeof s, "%s %s", w, tail); judge(s);
    if (b < 26) for (int c = 0; c < 26; c++) { w[2] = 'a' + c; w[3] = 0; snprintf(s, sizeof s, "%s %s", w, tail); judge(s); for (int d = 0; d < 26; d++) { w[3] = 'a' + d; w[4] = 0; snprintf(s, sizeof s, "%s %s", w, tail); judge(s); } }
    for (int i = a * 27 + b; i < 2048; i += 702) { char v[20]; for (size_t l = 0; l < strlen(BIP39[i]); l++) { snprintf(s, sizeof s, "%.*s %s", (int)l, BIP39[i], tail); judge(s); strcpy(v, BIP39[i]); for (int q = 0; q < 26; q++) { v[l] = 'a' + q; snprintf(s, sizeof s, "%s %s", v, tail); judge(s); } v[l] = BIP39[i][l] - 32; snprintf(s, sizeof s, "%s %s", v, tail); judge(s); } for (int q = 0; q < 26; q++) { snprintf(s, sizeof s, "%s%c %s", BIP39[i], 'a' + q, tail); judge(s); } }
    mc_step(); mc_conform(); mc_outcome(a * 27 + b); MC_NOTE("first words beginning with %s", w);
}
/* passphrases and their NFKD form (Unicode tables, written out) */
static const char *const PP[][2] = { { NULL, "" }, { "", "" }, { "TREZOR", "TREZOR" }, { " ", " " }, { "a b", "a b" }, { "\xc3\xa9", "e\xcc\x81" }, { "e\xcc\x81", "e\xcc\x81" }, { "\xef\xac\x81", "fi" }, { "\xe2\x84\xab", "A\xcc\x8a" }, { "\xc3\x85", "A\xcc\x8a" }, { "\xc2\xb2", "2" }, { "\xef\xbc\xa1", "A" }, { "\xe3\x80\x80", " " }, { "\xc2\xa0", " " }, { "\xe1\xba\x9b\xcc\xa3", "s\xcc\xa3\xcc\x87" }, { "q\xcc\x87\xcc\xa3", "q\xcc\xa3\xcc\x87" }, { "\xed\x95\x9c", "\xe1\x84\x92\xe1\x85\xa1\xe1\x86\xab" }, { "\xe3\x82\xac", "\xe3\x82\xab\xe3\x82\x99" }, { "\xe2\x80\xa6", "..." }, { "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x80" }, { "\xf0\x9d\x94\xb8", "A" }, { "\xc3\x9f", "\xc3\x9f" }, { "\xe2\x85\xa3", "IV" }, { "\x01\x7f", "\x01\x7f" },
    { "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", NULL } };
static void seeds(void)
{
    int pp = mc_choose(MC_LEN(PP)), w24 = mc_choose(2), k = mc_choose(mc_thorough() ? 20 : 5), bytes = w24 ? 32 : 16; uint8_t e[32], seed[66], w[64]; int idx[24]; char m[400], salt[400]; entropy(k * 7, bytes, e); encode(e, bytes, idx); text(idx, w24 ? 24 : 12, m); memset(seed, 0x77, 66); fault_reset(); fault_track(1);
    kdf_fail = 0; nostr_error_t r = nostr_mnemonic_to_seed(m, PP[pp][0], seed + 1); mc_step(); sprintf(salt, "mnemonic%s", PP[pp][1] ? PP[pp][1] : PP[pp][0]); ref_pbkdf2(m, salt, strlen(salt), 2048, w); if (r != NOSTR_OK || memcmp(seed + 1, w, 64)) mc_fail("seed", "%s with passphrase %s: %d or another seed", m, mc_q(PP[pp][0] ? PP[pp][0] : "(none)"), r); if (seed[0] != 0x77 || seed[65] != 0x77) mc_fail("seed-bounds", "wrote outside the 64 bytes");
    static const uint32_t AC[] = { 0, 1, 2147483647u, 2147483648u, 4294967295u }; int n = pp < 3 ? 5 : 1; for (int a = 0; a < n; a++) {
        nostr_keypair kp; memset(&kp, 0, sizeof kp); r = nostr_mnemonic_to_keypair(m, PP[pp][0], AC[a], &kp); hk h; ref_master(w, 64, &h); uint32_t ix[5] = { 0x80000000u + 44, 0x80000000u + 1237, 0x80000000u | AC[a], 0, 0 }; for (int i = 0; i < 5; i++) ref_child(&h, ix[i], &h);
        if (AC[a] >> 31) { if (r == NOSTR_OK) mc_fail("account", "account %u is accepted", AC[a]); if (nostr_keypair_private_key(&kp)) mc_fail("account", "a refused account leaves a usable pair"); } else if (r != NOSTR_OK || memcmp(kp.privkey.data, h.k, 32) || memcmp(kp.pubkey.data, h.x, 32) || nostr_keypair_validate(&kp) != NOSTR_OK) mc_fail("keypair", "account %u of %s: %d or another key", AC[a], m, r); mc_step(); }
    if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); mc_outcome(mc_hash(MC_H0, w, 64)); MC_NOTE("%s, passphrase %s", m, mc_q(PP[pp][0] ? PP[pp][0] : "(none)"));
}
static void invalid_seed(void)     /* no seed from an invalid mnemonic, whatever is wrong with it */
{
    int n = mc_choose(27), f = mc_choose(4); char s[400] = ""; int idx[24]; uint8_t e[32], seed[64]; entropy(f, 32, e); encode(e, 32, idx); if (n == 24 || n == 12) { encode(e, n / 3 * 4, idx); if (f < 2) idx[n - 1] ^= 1 << f; } for (int i = 0; i < n; i++) { if (i) strcat(s, " "); strcat(s, f == 2 && i == n - 1 ? "zzz" : f == 3 && i == n / 2 ? "Abandon" : BIP39[idx[i % 24]]); }
    int w = ref_valid(s); nostr_error_t r = nostr_mnemonic_to_seed(s, "p", seed); nostr_keypair kp; memset(&kp, 0, sizeof kp); nostr_error_t q = nostr_mnemonic_to_keypair(s, "p", 0, &kp); mc_step(); if ((r == NOSTR_OK) != w || (q == NOSTR_OK) != w) mc_fail("seed-accepted", "%s: %d %d", mc_q(s), r, q); if (!w && nostr_keypair_private_key(&kp)) mc_fail("seed-accepted", "a usable pair from an invalid mnemonic"); mc_conform(); mc_outcome(n * 4 + f); MC_NOTE("%s: %d", s, r);
}
static void faults(void)
{
    int op = mc_choose(4), pp = (int[]){ 0, 2, 5, 24 }[mc_choose(4)]; mc_set_dev_bound(mc_thorough() ? 2 : 1); uint8_t e[32], seed[64], w[64]; int idx[24]; char m[400], salt[400]; entropy(9, 16, e); encode(e, 16, idx); text(idx, 12, m); sprintf(salt, "mnemonic%s", PP[pp][1] ? PP[pp][1] : PP[pp][0]); ref_pbkdf2(m, salt, strlen(salt), 2048, w); nostr_keypair kp; memset(&kp, 0, sizeof kp);
    fault_reset(); fault_track(1); kdf_fail = op == 3; fault_arm(); nostr_error_t r = op == 0 ? nostr_mnemonic_validate(m) : op == 2 ? nostr_mnemonic_to_keypair(m, PP[pp][0], 3, &kp) : nostr_mnemonic_to_seed(m, PP[pp][0], seed); fault_disarm(); mc_step(); int f = fault_injected() + (kdf_fail && kdf_calls); kdf_fail = 0; kdf_calls = 0;
    if (r == NOSTR_OK) { if (op == 3) mc_fail("kdf", "success although key derivation failed"); if (op == 1 && memcmp(seed, w, 64)) mc_fail("fault-seed", "another seed after %d failure(s)", f); if (op == 2) { hk h; ref_master(w, 64, &h); uint32_t ix[5] = { 0x80000000u + 44, 0x80000000u + 1237, 0x80000003u, 0, 0 }; for (int i = 0; i < 5; i++) ref_child(&h, ix[i], &h); if (memcmp(kp.privkey.data, h.k, 32)) mc_fail("fault-seed", "another key pair"); } }
    else { if (!f && op != 3) mc_fail("fault-refused", "%d without a failure", r); if (nostr_keypair_private_key(&kp)) mc_fail("fault-pair", "a failed operation leaves a usable pair"); } if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); mc_outcome(op * 100 + pp * 4 + (r != NOSTR_OK)); MC_NOTE("operation %d: %d after %d failure(s)", op, r, f);
}
const mc_scenario mc_scenarios[] = {
    { "generate", generate, setup, 3, 0, "entropies with every single bit set or cleared x buffer sizes" }, { "counts", counts, setup, 3, 0, "word counts, NULL arguments, failing randomness" },
    { "words", words, setup, 3, 0, "every word in every position of a valid mnemonic" }, { "replace", replace, setup, 3, 0, "all 2048 replacements of every position, all swaps" }, { "lengths", lengths, setup, 3, 0, "0..30 words" },
    { "spelling", spelling, setup, 3, 0, "every byte replaced, inserted, deleted at every place; blanks" }, { "unknown", unknown, setup, 3, 0, "all strings of 1..4 letters, all prefixes, extensions and one-letter changes of all words" },
    { "seeds", seeds, setup, 3, 0, "seeds and key pairs for mnemonics x passphrases x accounts" }, { "invalid_seed", invalid_seed, setup, 3, 0, "no seed from invalid mnemonics" }, { "faults", faults, setup, 3, 0, "failures of memory and key derivation" }, MC_END
};
