/* C21: HD derivation implements BIP-32 and parses exactly valid paths.
 *
 * Reference: own SHA-512/HMAC and 256-bit arithmetic modulo n, libsecp256k1 (own context) for points,
 * and a path grammar written out.  HMAC and the curve backend are seams: HMAC may also return any of
 * the digests BIP-32 declares unusable, which no real input can be found for.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/ref512.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <openssl/hmac.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

static int armed, faults; static const uint8_t *il; static int il_at;
#define SEAM(T, fn, decl, call, bad) T __real_##fn decl; T __wrap_##fn decl { if (armed && mc_in_execution() && mc_choose_dev(2)) { faults++; MC_NOTE(#fn " fails"); return bad; } return __real_##fn call; }
SEAM(secp256k1_context *, secp256k1_context_create, (unsigned f), (f), NULL)
SEAM(int, secp256k1_ec_pubkey_create, (const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *k), (c, p, k), 0)
SEAM(int, secp256k1_ec_pubkey_serialize, (const secp256k1_context *c, unsigned char *o, size_t *l, const secp256k1_pubkey *p, unsigned f), (c, o, l, p, f), 0)
SEAM(int, secp256k1_ec_seckey_tweak_add, (const secp256k1_context *c, unsigned char *k, const unsigned char *t), (c, k, t), 0)
SEAM(int, secp256k1_keypair_create, (const secp256k1_context *c, secp256k1_keypair *p, const unsigned char *k), (c, p, k), 0)
SEAM(int, secp256k1_keypair_xonly_pub, (const secp256k1_context *c, secp256k1_xonly_pubkey *x, int *par, const secp256k1_keypair *p), (c, x, par, p), 0)
SEAM(int, secp256k1_xonly_pubkey_serialize, (const secp256k1_context *c, unsigned char *o, const secp256k1_xonly_pubkey *x), (c, o, x), 0)
unsigned char *__real_HMAC(const EVP_MD *md, const void *k, int kl, const unsigned char *d, size_t n, unsigned char *out, unsigned *ol);
unsigned char *__wrap_HMAC(const EVP_MD *md, const void *k, int kl, const unsigned char *d, size_t n, unsigned char *out, unsigned *ol)
{
    if (armed && mc_in_execution() && mc_choose_dev(2)) { faults++; MC_NOTE("HMAC fails"); return NULL; }
    unsigned char *r = __real_HMAC(md, k, kl, d, n, out, ol); if (il && il_at-- == 0) { memcpy(out, il, 32); faults++; } return r;
}

#define RAW(fn) __real_##fn
#include "../lib/refhd.h"
static void setup(void) { fault_install(); C = __real_secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); r512_setup(); }
/* path: -1 malformed, else number of indices; *odd set if a spelling both readings allow (leading zeros) */
static int ref_path(const char *s, uint32_t *ix, int max, int *odd)
{
    *odd = 0; if (*s++ != 'm') return -1; if (!*s) return 0; int n = 0;
    while (*s) { if (*s++ != '/') return -1; const char *b = s; uint64_t v = 0; while (*s >= '0' && *s <= '9') { if (v < (1ull << 40)) v = v * 10 + (*s - '0'); s++; } if (s == b || v >> 31) return -1; if (*b == '0' && s - b > 1) *odd = 1; uint32_t i = (uint32_t)v; if (*s == '\'' || *s == 'h') { i |= 0x80000000u; s++; } if (n < max) ix[n] = i; n++; }
    return n;
}
/* ---- leftovers ---- */
static int window(const void *obj, size_t n, const uint8_t *k) { const uint8_t *b = obj; for (int o = 0; o + 5 <= 32; o++) { int c = 1; for (int j = 1; j < 5; j++) if (k[o + j] != k[o]) c = 0; if (!c) for (size_t i = 0; i + 5 <= n; i++) if (!memcmp(b + i, k + o, 5)) return 1; } return 0; }
static void failed(const nostr_hd_key *out, const nostr_hd_key *before, const hk *secrets, int ns, const char *op)
{
    if (!memcmp(out, before, sizeof *out)) return; for (int i = 0; i < ns; i++) if (window(out, sizeof *out, secrets[i].k)) mc_fail("leftover", "failed %s leaves private key bytes in its output", op);
}
static uint8_t SEED[64]; static void seeds(int s) { for (int i = 0; i < 64; i++) SEED[i] = s == 0 ? (uint8_t)i : s == 1 ? (uint8_t)(0xff - 3 * i) : s == 2 ? 0 : s == 3 ? 0xff : (uint8_t)(i * 37 + s * 11); }
static hk M; static nostr_hd_key GM;
static void begin(int dev, int s) { mc_set_dev_bound(dev); fault_reset(); armed = faults = 0; il = NULL; seeds(s); ref_master(SEED, 32 + s % 2 * 32, &M); put(&GM, &M); nostr_cleanup(); nostr_init(); }

static void master(void)
{
    int len = mc_choose(130), s = mc_choose(8), mode = mc_choose(2); begin(0, s); if (mode) nostr_cleanup();
    uint8_t *b = malloc(len ? len : 1); for (int i = 0; i < len; i++) b[i] = SEED[i % 64]; nostr_hd_key g; memset(&g, 0x5a, sizeof g); hk w; int ok = ref_master(b, len, &w); nostr_error_t r = nostr_hd_key_from_seed(b, len, &g); mc_step();
    if (r == NOSTR_OK) { if (len < 16 || len > 64 || !ok) mc_fail("seed-length", "a seed of %d bytes is accepted", len); if (!same(&g, &w)) mc_fail("master", "seed of %d bytes: private %s, BIP-32 %s", len, mc_hex(g.privkey.data, 32), mc_hex(w.k, 32)); }
    else { if (len >= 16 && len <= 64 && !mode) mc_fail("seed-refused", "a seed of %d bytes is refused: %d", len, r); nostr_hd_key bf; memset(&bf, 0x5a, sizeof bf); failed(&g, &bf, &w, ok, "from_seed"); }
    /* a master key makes a usable pair */
    if (r == NOSTR_OK) { nostr_keypair kp; if (nostr_hd_key_to_keypair(&g, &kp) != NOSTR_OK || nostr_keypair_validate(&kp) != NOSTR_OK || memcmp(kp.privkey.data, w.k, 32) || memcmp(kp.pubkey.data, w.x, 32)) mc_fail("keypair", "key pair of the master key"); }
    free(b); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, len), r)); mc_state(len * 8 + s); MC_NOTE("seed of %d bytes%s: %d", len, mode ? " (library not initialized)" : "", r);
}
static const uint32_t IX[] = { 0, 1, 2, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0x80000100u, 0x81020304u, 0xfffffffeu, 0xffffffffu };
static const char *const PK[] = { "0000000000000000000000000000000000000000000000000000000000000001", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "00000000000000000000000000000000000000000000000000000000000000ff", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", "0100000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0360000" };
static void parent(int p, hk *h) { if (p < 8) { begin(0, p); *h = M; return; } begin(0, 0); memset(h, 0, sizeof *h); ref_unhex(PK[(p - 8) % 6], 64, h->k); memset(h->c, (p - 8) / 6 * 0xff, 32); pubs(h); }
/* steps: all derivation sequences of boundary indices; also in place and along the path */
static void steps(void)
{
    hk h; int a = mc_choose(MC_LEN(IX)), p = mc_choose(20); parent(p, &h); nostr_hd_key g; put(&g, &h); nostr_hd_key m = g; int n = mc_thorough() ? 4 : 3; char path[80] = "m"; uint64_t o = MC_H0;
    for (int k = 0; k < n; k++) {
        uint32_t i = k ? IX[mc_choose(MC_LEN(IX))] : IX[a]; hk w; int ok = ref_child(&h, i, &w); nostr_hd_key c; memset(&c, 0x5a, sizeof c); nostr_hd_key par = g; nostr_error_t r = nostr_hd_key_derive(&g, i, &c); mc_step();
        if ((r == NOSTR_OK) != ok) mc_fail("derive", "index %08x: %d", i, r); if (!ok) return;
        if (!same(&c, &w)) mc_fail("derive", "index %08x of private %s: %s, BIP-32 %s", i, mc_hex(h.k, 32), mc_hex(c.privkey.data, 32), mc_hex(w.k, 32));
        if (memcmp(&par, &g, sizeof g)) mc_fail("parent", "derivation changed the parent");
        nostr_hd_key al = g; r = nostr_hd_key_derive(&al, i, &al); if (r == NOSTR_OK ? !same(&al, &w) : memcmp(&al, &g, sizeof g) && window(&al, sizeof al, w.k)) mc_fail("in-place", "derivation into the parent's own structure, index %08x: %d and private %s, BIP-32 %s", i, r, mc_hex(al.privkey.data, 32), mc_hex(w.k, 32));
        sprintf(path + strlen(path), "/%u%s", i & 0x7fffffff, i >> 31 ? k % 2 ? "h" : "'" : ""); nostr_hd_key d; memset(&d, 0x5a, sizeof d); r = nostr_hd_key_derive_path(&m, path, &d); if (r != NOSTR_OK || !same(&d, &w)) mc_fail("path-steps", "path %s: %d or not the key its steps give", path, r);
        nostr_hd_key ip = m; r = nostr_hd_key_derive_path(&ip, path, &ip); if (r == NOSTR_OK && !same(&ip, &w)) mc_fail("in-place", "path %s into the master's own structure", path);
        h = w; g = c; o = mc_hash_u64(o, i); mc_state(mc_hash(MC_H0, w.k, 32));
    }
    mc_conform(); mc_outcome(mc_hash_u64(o, p)); MC_NOTE("parent %d, path %s", p, path);
}
static void path_case(const char *s)
{
    uint32_t ix[40]; int odd, n = ref_path(s, ix, 40, &odd); nostr_hd_key d, bf; memset(&d, 0x5a, sizeof d); bf = d; char *cp = strdup(s); nostr_error_t r = nostr_hd_key_derive_path(&GM, cp, &d); if (strcmp(cp, s)) mc_fail("path-written", "path %s was changed", mc_q(s)); free(cp); mc_eval(1); mc_step();
    if (n < 0) { if (r == NOSTR_OK) mc_report("path-accepted", "path %s is accepted", mc_q(s)); else failed(&d, &bf, &M, 1, "derive_path"); return; }
    if (r != NOSTR_OK) { if (!odd) mc_report("path-refused", "path %s is refused: %d", mc_q(s), r); failed(&d, &bf, &M, 1, "derive_path"); return; }
    hk h = M; for (int i = 0; i < n; i++) ref_child(&h, ix[i], &h); if (!same(&d, &h)) mc_report("path-key", "path %s gives %s, its steps give %s", mc_q(s), mc_hex(d.privkey.data, 32), mc_hex(h.k, 32));
}
static const char AL[] = "m/019'h+- Hx.\t,\n";
static void allpaths(void)
{
    begin(0, 0); char s[12]; int max = mc_thorough() ? 7 : 6, na = sizeof AL - 1; int first = mc_choose(na * na); s[0] = AL[first / na]; s[1] = AL[first % na]; s[2] = 0; long cnt = 0;
    if (first % na == 0) { char one[2] = { s[0], 0 }; path_case(one); if (!first) path_case(""); } path_case(s);
    int nx[8] = { 0 }; for (int len = 3; len <= max; len++) { memset(nx, 0, sizeof nx); for (;;) { for (int i = 2; i < len; i++) s[i] = AL[nx[i]]; s[len] = 0; if (s[0] == 'm' || len <= 5) path_case(s), cnt++; int i = len - 1; while (i >= 2 && ++nx[i] == na) nx[i--] = 0; if (i < 2) break; } }
    mc_conform(); mc_outcome(first); MC_NOTE("%ld paths beginning with %s", cnt, mc_qn(s, 2));
}
static const char *const NUM[] = { "0", "1", "44", "1237", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "4294967340", "6442450944", "8589934592", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103233", "00", "007", "00002147483647", "-1", "-0", "+1", "-2147483648", "-4294967295", "-18446744073709551615", " 1", "1 ", "\t1", "0x1", "1e1", "1.0", "", "'", "h", "1''", "1h'", "1'h", "'1", "1'1", "m", "*" };
static const char *const MARK[] = { "", "'", "h", "H", "''" };
static void numbers(void)
{
    int a = mc_choose(MC_LEN(NUM)), am = mc_choose(5); begin(0, 1); char s[200];
    static const char *const FR[] = { "m/%s", "m/%s/", "m//%s", "/%s", "%s", "m%s", "m/0/%s", "m/0'/%s", "m/%s/1", "m/44'/1237'/%s/0/0", "M/%s", " m/%s", "m/%s ", "mm/%s", "m/m/%s", "m/%s//", "m/0//%s", "m\\%s" };
    char c[60]; snprintf(c, sizeof c, "%s%s", NUM[a], MARK[am]); for (int f = 0; f < MC_LEN(FR); f++) { snprintf(s, sizeof s, FR[f], c); path_case(s); }
    for (int b = 0; b < MC_LEN(NUM); b++) for (int bm = 0; bm < 3; bm++) { snprintf(s, sizeof s, "m/%s/%s%s", c, NUM[b], MARK[bm]); path_case(s); }
    for (int v = 1; v < 256; v++) { snprintf(s, sizeof s, "m/%s%c/1", c, v); path_case(s); snprintf(s, sizeof s, "m/%c%s", v, c); path_case(s); }
    mc_conform(); mc_outcome(a * 5 + am); MC_NOTE("component %s", mc_q(c));
}
static void deep(void)
{
    int n = mc_choose(33); begin(0, 2); char s[600] = "m"; for (int i = 0; i < n; i++) sprintf(s + strlen(s), "/%u%s", i * 65537u % 2147483647u, i % 3 ? "'" : ""); path_case(s); mc_conform(); mc_outcome(n); MC_NOTE("path %s", s);
}
/* failures of memory and backend; digests BIP-32 declares unusable */
static void faultrun(void)
{
    int op = mc_choose(5), ind = mc_choose(3); begin(mc_thorough() ? 2 : 1, 1); nostr_hd_key g, bf; memset(&g, 0x5a, sizeof g); bf = g; hk w[4]; int ns = 2; uint32_t i = (uint32_t[]){ 0, 0x80000000u, 7 }[ind]; nostr_error_t r; int ok = 1; w[0] = M; const char *nm = "";
    fault_track(1); fault_arm(); armed = 1;
    switch (op) {
    case 0: nm = "from_seed"; r = nostr_hd_key_from_seed(SEED, 64, &g); w[1] = M; break;
    case 1: nm = "derive"; ref_child(&M, i, &w[1]); r = nostr_hd_key_derive(&GM, i, &g); break;
    case 2: nm = "derive_path"; { uint32_t x; ref_child(&M, i, &w[2]); x = 5; ref_child(&w[2], x, &w[1]); ns = 3; char p[40]; sprintf(p, "m/%u%s/5", i & 0x7fffffff, i >> 31 ? "'" : ""); r = nostr_hd_key_derive_path(&GM, p, &g); } break;
    case 3: nm = "derive in place"; g = GM; bf = g; ref_child(&M, i, &w[1]); r = nostr_hd_key_derive(&g, i, &g); w[0] = w[1]; break;
    default: nm = "to_keypair"; { nostr_keypair kp; memset(&kp, 0, sizeof kp); r = nostr_hd_key_to_keypair(&GM, &kp); put(&g, &M); w[1] = M; if (r == NOSTR_OK) { memcpy(g.privkey.data, kp.privkey.data, 32); memcpy(g.pubkey.data, kp.pubkey.data, 32); if (!kp.initialized) mc_fail("keypair", "not usable"); } else { if (nostr_keypair_private_key(&kp)) mc_fail("keypair", "failed export leaves a usable pair"); bf = g; } } break;
    }
    armed = 0; fault_disarm(); mc_step(); int f = faults + fault_injected(); (void)ok;
    if (r == NOSTR_OK) { if (!same(&g, &w[1])) mc_fail("fault-key", "%s succeeds with a wrong key after %d failure(s)", nm, f); }
    else { if (!f) mc_fail("fault-refused", "%s: %d without a failure", nm, r); failed(&g, &bf, w, ns, nm); }
    if (fault_live()) mc_fail("leak", "%s: %s", nm, fault_live_desc()); MC_NOTE("%s index %08x: %d after %d failure(s)", nm, i, r, f); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, op * 4 + ind), r * 10 + f));
}
static void digests(void)
{
    int op = mc_choose(4), d = mc_choose(8), at = mc_choose(2); begin(0, 1); uint8_t v[32]; memset(v, 0, 32); nostr_hd_key g, bf; memset(&g, 0x5a, sizeof g); bf = g; int ok = 0;
    if (d < 4) { memcpy(v, N, 32); v[31] += d - 1; ok = d == 0; } else if (d == 4) memset(v, 0xff, 32); else if (d == 5) ; else if (d == 6) { for (int i = 31, b = 0; i >= 0; i--) { int x = N[i] - M.k[i] - b; b = x < 0; v[i] = (uint8_t)(x + 256 * b); } } else { memset(v, 0xff, 16); v[15] = 0xfe; }
    if (d == 7) ok = 1; if (d == 5) ok = op != 0 || 0; if (op == 0 && d == 6) ok = 1;                   /* n - k: zero child, but a fine master */
    if (op == 3 && at == 0 && d == 6) ok = 0; if (op == 3 && at == 1 && d == 6) return; if (op == 0 && at) return; if (op < 3 && at) return;
    il = v; il_at = op == 3 ? at : 0; nostr_error_t r = op == 0 ? nostr_hd_key_from_seed(SEED, 64, &g) : op == 1 ? nostr_hd_key_derive(&GM, 3, &g) : op == 2 ? nostr_hd_key_derive(&GM, 0x80000003u, &g) : nostr_hd_key_derive_path(&GM, "m/3/4'", &g); int used = il_at < 0; il = NULL; mc_step();
    if (!used) { mc_conform(); return; }       /* another primitive is in use: nothing to say */
    if (r == NOSTR_OK && !ok) mc_fail("digest", "digest %s gives a key although BIP-32 declares it unusable", mc_hex(v, 32)); if (r != NOSTR_OK && ok) mc_fail("digest-refused", "digest %s refused: %d", mc_hex(v, 32), r);
    if (r != NOSTR_OK) failed(&g, &bf, &M, 1, "derivation"); MC_NOTE("operation %d, left digest half %s: %d", op, mc_hex(v, 32), r); mc_conform(); mc_outcome(op * 100 + d * 2 + at);
}
/* the account component of a mnemonic's path: every power of two and its neighbours, and all of the first 64 */
static void accounts(void)
{
    int k = mc_choose(33 + 8); begin(0, 0); static const char *const MN = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"; uint8_t w[64]; ref_pbkdf2(MN, "mnemonic", 8, 2048, w);
    for (int d = k < 33 ? -1 : 0; d <= (k < 33 ? 1 : 7); d++) { uint32_t a = k < 33 ? (uint32_t)((1ull << k) + (uint64_t)(int64_t)d) : (uint32_t)((k - 33) * 8 + d); nostr_keypair kp; memset(&kp, 0, sizeof kp); nostr_error_t r = nostr_mnemonic_to_keypair(MN, "", a, &kp); mc_eval(1); mc_step(); hk h; if (a >> 31) { if (r == NOSTR_OK) mc_fail("account", "account %u is accepted", a); if (nostr_keypair_private_key(&kp)) mc_fail("account", "a refused account leaves a usable pair"); continue; }
        ref_master(w, 64, &h); uint32_t ix[5] = { 0x80000000u + 44, 0x80000000u + 1237, 0x80000000u | a, 0, 0 }; for (int i = 0; i < 5; i++) ref_child(&h, ix[i], &h); if (r != NOSTR_OK || memcmp(kp.privkey.data, h.k, 32) || memcmp(kp.pubkey.data, h.x, 32)) mc_fail("account-key", "account %u: %d or another key than m/44'/1237'/%u'/0/0", a, r, a); }
    mc_conform(); mc_outcome(k); MC_NOTE("accounts around 2^%d", k);
}
static void params(void)
{
    begin(0, 0); nostr_hd_key g; nostr_keypair kp; uint8_t s[64] = { 1 };
    MC_CHECK(nostr_hd_key_from_seed(NULL, 32, &g) != NOSTR_OK && nostr_hd_key_from_seed(s, 32, NULL) != NOSTR_OK && nostr_hd_key_derive(NULL, 0, &g) != NOSTR_OK && nostr_hd_key_derive(&GM, 0, NULL) != NOSTR_OK && nostr_hd_key_derive_path(NULL, "m", &g) != NOSTR_OK && nostr_hd_key_derive_path(&GM, NULL, &g) != NOSTR_OK && nostr_hd_key_derive_path(&GM, "m", NULL) != NOSTR_OK && nostr_hd_key_to_keypair(NULL, &kp) != NOSTR_OK && nostr_hd_key_to_keypair(&GM, NULL) != NOSTR_OK, "null", "a NULL argument is accepted");
    /* operations before initialization work or fail */
    for (int i = 0; i < 4; i++) { nostr_cleanup(); hk w; nostr_error_t r; if (i == 0) { w = M; r = nostr_hd_key_from_seed(SEED, 32, &g); } else if (i == 1) { ref_child(&M, 1, &w); r = nostr_hd_key_derive(&GM, 1, &g); } else if (i == 2) { ref_child(&M, 0x80000001u, &w); r = nostr_hd_key_derive(&GM, 0x80000001u, &g); } else { ref_child(&M, 1, &w); r = nostr_hd_key_derive_path(&GM, "m/1", &g); } if (r == NOSTR_OK && !same(&g, &w)) mc_fail("uninitialized", "operation %d", i); }
    /* a parent without a key in range derives nothing */
    for (int i = 0; i < 2; i++) for (int z = 0; z < 3; z++) { nostr_init(); nostr_hd_key p = GM; if (z == 0) memset(p.privkey.data, 0, 32); else if (z == 1) memcpy(p.privkey.data, N, 32); else memset(p.privkey.data, 0xff, 32); nostr_error_t r = nostr_hd_key_derive(&p, i ? 0x80000000u : 0, &g); if (r == NOSTR_OK) mc_fail("bad-parent", "derivation from a key out of range, %s", i ? "hardened" : "normal"); r = nostr_hd_key_to_keypair(&p, &kp); if (r == NOSTR_OK && nostr_keypair_private_key(&kp)) mc_fail("bad-parent", "a usable pair from a key out of range"); }
    mc_steps(20); mc_conform(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    { "master", master, setup, 3, 0, "seeds of every length 0..129" }, { "steps", steps, setup, 3, 0, "all sequences of boundary indices from 20 parents, also along a path and in place" },
    { "allpaths", allpaths, setup, 3, 0, "every path string up to 6 (7) characters over 16 characters" }, { "numbers", numbers, setup, 3, 0, "boundary numbers and malformed components in every frame" },
    { "deep", deep, setup, 3, 0, "paths of up to 32 components" }, { "faults", faultrun, setup, 3, 0, "failures of memory, HMAC and the curve backend" },
    { "digests", digests, setup, 3, 0, "digests BIP-32 declares unusable" }, { "accounts", accounts, setup, 3, 0, "mnemonic accounts 0..63 and around every power of two" }, { "params", params, setup, 3, 0, "NULL arguments, uninitialized library, parents out of range" }, MC_END
};
