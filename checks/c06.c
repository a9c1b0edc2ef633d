/* C06: bech32 key encodings (npub, nsec, note and generic prefixes). */
#include "refev.h"
#include "guard.h"
#include "fault.h"

/* the three decoders, one interface */
enum { D_KEY, D_SEC, D_NOTE };
static const char *const DN[] = { "key_from_bech32", "privkey_from_bech32", "event_id_from_bech32" };
static const char *const DH[] = { "npub", "nsec", "note" };
static nostr_error_t dec(int d, const char *s, uint8_t out[32])
{
    nostr_error_t r;
    if (d == D_KEY) { nostr_key k; memset(&k, 0xEE, sizeof k); r = nostr_key_from_bech32(s, &k); memcpy(out, k.data, 32); }
    else if (d == D_SEC) { nostr_privkey k; memset(&k, 0xEE, sizeof k); r = nostr_privkey_from_bech32(s, &k); memcpy(out, k.data, 32); }
    else { memset(out, 0xEE, 32); r = nostr_event_id_from_bech32(s, out); }
    return r;
}
static nostr_error_t enc(int d, const char *prefix, const uint8_t *k, char *out, size_t n)
{
    if (d == D_KEY) { nostr_key x; memcpy(x.data, k, 32); return nostr_key_to_bech32(&x, prefix, out, n); }
    if (d == D_SEC) { nostr_privkey x; memcpy(x.data, k, 32); return nostr_privkey_to_bech32(&x, out, n); }
    return nostr_event_id_to_bech32(k, out, n);
}
/* the reference verdict; 2 = either (all upper case: BIP-173 lets decoders read it, NIP-19 never writes it) */
static int judge(int d, const char *s, uint8_t want[32])
{
    char hrp[512]; uint8_t d5[512]; size_t n; size_t len = strlen(s);
    if (len > 90) return 0;
    if (ref_bech32_decode5(s, hrp, d5, &n)) return 0;
    if (n != 52) return 0;
    memset(want, 0, 32); uint32_t acc = 0; int bits = 0; size_t o = 0;
    for (size_t i = 0; i < n; i++) { acc = acc << 5 | d5[i]; bits += 5; if (bits >= 8) { bits -= 8; if (o < 32) want[o] = acc >> bits & 255; o++; } }
    if (o != 32 || bits >= 5 || (acc & ((1u << bits) - 1))) return 0;
    int kind = d == D_KEY ? (!strcmp(hrp, "npub") ? 1 : (!strcmp(hrp, "nsec") || !strcmp(hrp, "note")) ? 0 : 2) : !strcmp(hrp, DH[d]);
    if (!kind) return 0;
    for (size_t i = 0; i < len; i++) if (s[i] >= 'A' && s[i] <= 'Z') return 2;
    return kind;
}
static void probe(int d, const char *s)
{
    uint8_t want[32], got[32]; int v = judge(d, s, want);
    const char *t = guard_copy(0, s, strlen(s) + 1);
    nostr_error_t r = dec(d, t, got); mc_step();
    if (r == NOSTR_OK && v == 0) mc_fail("decode-accepts", "%s accepts %s", DN[d], mc_q(s));
    if (r != NOSTR_OK && v == 1) mc_fail("decode-rejects", "%s rejects valid %s (%d)", DN[d], mc_q(s), r);
    if (r == NOSTR_OK) MC_CHECK(!memcmp(got, want, 32), "decode-bytes", "%s(%s) = %s, denotes %s", DN[d], mc_q(s), mc_hex(got, 32), mc_hex(want, 32));
    mc_outcome(mc_hash(mc_hash_u64(MC_H0, d * 4 + (r == NOSTR_OK)), r == NOSTR_OK ? (void *)got : (void *)s, r == NOSTR_OK ? 32 : strlen(s)));
}
static void keyval(int i, uint8_t k[32])
{
    memset(k, 0, 32);
    if (i == 0) return;
    if (i == 1) { memset(k, 255, 32); return; }
    if (i < 34) { k[i - 2] = 0x80; return; }
    if (i < 66) { memset(k, 255, 32); k[i - 34] = 0xF7; return; }
    if (i < 66 + 256) { for (int j = 0; j < 32; j++) k[j] = (uint8_t)((i - 66) * (2 * j + 1) + 7 * j); return; }
    i -= 322; memset(k, 0x55, 32); k[i / 256] = (uint8_t)i;          /* 32 x 256 */
}
#define NKEYS (322 + 8192)
static void encode(void)
{
    int blk = mc_choose(60), lo = blk * NKEYS / 60, hi = (blk + 1) * NKEYS / 60; int d = mc_choose(3);
    for (int i = lo; i < hi; i++) {
        uint8_t k[32]; keyval(i, k); char want[256]; ref_bech32_encode(DH[d], k, 32, want);
        char out[64]; memset(out, 'x', 64);
        nostr_error_t r = enc(d, DH[d], k, out, 64); mc_step(); mc_eval(1);
        MC_CHECK(r == NOSTR_OK && !strcmp(out, want), "encode", "%s of %s = %s (%d), BIP-173 gives %s", DH[d], mc_hex(k, 32), mc_qn(out, 63), r, want);
        uint8_t got[32]; r = dec(d, out, got);
        MC_CHECK(r == NOSTR_OK && !memcmp(got, k, 32), "roundtrip", "%s does not decode to %s (%d)", out, mc_hex(k, 32), r);
        if (i < 66) for (int e = 0; e < 3; e++) probe(e, want);
        mc_outcome(mc_hash_str(MC_H0, want));
    }
    mc_conform();
}
/* every buffer size, prefixes of every length and character */
static void sizes(void)
{
    int d = mc_choose(3), n = mc_choose(112), pi = d == D_KEY ? mc_choose(96) : 0;
    char prefix[128] = "npub";
    if (d == D_KEY && pi) { memset(prefix, 'a' + pi % 26, pi - 1); prefix[pi - 1] = 0; }
    const char *p = d == D_KEY ? prefix : DH[d];
    uint8_t k[32]; keyval(100 + n, k); char want[512]; size_t pl = strlen(p);
    size_t need = pl + 60; ref_bech32_encode(p, k, 32, want);
    int valid = pl >= 1 && need - 1 <= 90;
    char *out = guard_buf(1, n); nostr_error_t r = enc(d, p, k, out, n); mc_step();
    if (r == NOSTR_OK) {
        MC_CHECK(valid && (size_t)n >= need, "size-ok", "%s encode with prefix length %zu succeeds into %d bytes", DN[d], pl, n);
        MC_CHECK(!strcmp(out, want), "size-text", "%s into %d bytes gives %s", DN[d], n, mc_q(out));
        uint8_t got[32]; MC_CHECK(dec(d, out, got) == NOSTR_OK && !memcmp(got, k, 32), "size-roundtrip", "encoding with prefix %s does not decode", mc_q(p));
    } else MC_CHECK(!(valid && (size_t)n >= need), "size-fail", "%s encode fails (%d) although %d bytes suffice for prefix length %zu", DN[d], r, n, pl);
    MC_CHECK(!guard_under(out), "size-under", "byte before the buffer overwritten");
    mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, r), need));
}
static void prefixes(void)
{
    int c = mc_choose(255) + 1, pos = mc_choose(3);
    char p[8] = "abc"; p[pos] = (char)c; uint8_t k[32]; keyval(77, k);
    char out[128] = ""; nostr_error_t r = enc(D_KEY, p, k, out, sizeof out); mc_step();
    int ok = c >= 33 && c <= 126 && !(c >= 'A' && c <= 'Z');
    MC_CHECK((r == NOSTR_OK) == ok, "prefix-char", "prefix with byte %02x at %d: %d", c, pos, r);
    if (ok) { char want[128]; ref_bech32_encode(p, k, 32, want); MC_CHECK(!strcmp(out, want), "prefix-text", "%s instead of %s", mc_q(out), want); uint8_t g[32]; MC_CHECK(dec(D_KEY, out, g) == NOSTR_OK && !memcmp(g, k, 32), "prefix-rt", "%s does not decode", mc_q(out)); }
    else { char want[160]; ref_bech32_encode(p, k, 32, want); probe(D_KEY, want); }
    mc_outcome(mc_hash_u64(MC_H0, r * 1000 + c));
}
/* one character replaced by any byte */
static void sub1(void)
{
    int c = mc_choose(256), d = mc_choose(3), ki = mc_choose(3); uint8_t k[32]; keyval(ki == 2 ? 99 : ki, k);
    char s[128]; ref_bech32_encode(DH[d], k, 32, s); size_t n = strlen(s);
    for (size_t i = 0; i < n; i++) { char o = s[i]; if ((uint8_t)o == c) continue; s[i] = (char)c; for (int e = 0; e < 3; e++) probe(e, s); s[i] = o; mc_eval(1); }
}
/* two characters substituted: every pair of positions, every pair of charset symbols */
static void sub2(void)
{
    int i = mc_choose(58), d = mc_choose(3), jn = 58; uint8_t k[32]; keyval(101 + d, k);
    char s[128]; ref_bech32_encode(DH[d], k, 32, s); uint8_t got[32]; uint64_t n = 0;
    char *t = guard_copy(0, s, strlen(s) + 1); char *p = t + 5;
    for (int j = i + 1; j < jn; j++) {
        char a = p[i], b = p[j];
        for (int x = 0; x < 32; x++) for (int y = 0; y < 32; y++) {
            if (ref_b32[x] == a || ref_b32[y] == b) continue;
            
            p[i] = ref_b32[x]; p[j] = ref_b32[y]; n++;
            if (dec(d, t, got) == NOSTR_OK) mc_fail("two-substitutions", "%s accepts %s: two characters of a valid string substituted", DN[d], t);
        }
        p[i] = a; p[j] = b;
    }
    mc_eval(n); mc_steps(n); mc_outcome(mc_hash_u64(MC_H0, i * 3 + d)); mc_conform();
}
static void swaps(void)
{
    int i = mc_choose(62), d = mc_choose(3); uint8_t k[32]; 
    for (int v = 0; v < 40; v++) {
        keyval(80 + v, k); char s[128]; ref_bech32_encode(DH[d], k, 32, s); if (s[i] == s[i + 1]) continue;
        char c = s[i]; s[i] = s[i + 1]; s[i + 1] = c; probe(d, s); mc_eval(1);
    }
}
/* payload lengths, padding bits, prefixes, case, separators and cut or extended texts */
static void shapes(void)
{
    static const char *const H[] = { "npub", "nsec", "note", "nprofile", "n", "", "NPUB", "Npub", "npub1", "1", "nsec1", "np", "npubb", "\x80", "lnurl", "bc", " npub", "nsecnsec", "no te" };
    int n = mc_choose(110), h = mc_choose(MC_LEN(H)), pad = mc_choose(3), cs = mc_choose(4);
    uint8_t d5[128]; for (int i = 0; i < n; i++) d5[i] = (uint8_t)((i * 11 + 5) & 31);
    if (n) { int extra = n * 5 % 8; uint8_t low = (uint8_t)((1u << (extra < 5 ? extra : 5)) - 1); if (pad == 0) d5[n - 1] &= (uint8_t)~low; else if (pad == 1) d5[n - 1] = (uint8_t)((d5[n - 1] & ~low) | 1); else d5[n - 1] |= low; }
    char s[512]; ref_bech32_encode5(H[h], d5, n, s); size_t len = strlen(s);
    if (cs == 1) for (char *p = s; *p; p++) if (*p >= 'a' && *p <= 'z') *p -= 32;
    if (cs == 2 && len) for (char *p = s + len - 6; *p; p++) if (*p >= 'a' && *p <= 'z') { *p -= 32; break; }
    if (cs == 3) for (char *p = s + strlen(H[h]); *p; p++) if (*p >= 'a' && *p <= 'z') *p -= 32;
    for (int e = 0; e < 3; e++) probe(e, s);
}
static void cuts(void)
{
    int d = mc_choose(3), n = mc_choose(100), mode = mc_choose(4); uint8_t k[32]; keyval(120 + n, k);
    char s[256], t[400]; ref_bech32_encode(DH[d], k, 32, s); size_t len = strlen(s);
    if (mode == 0) { if ((size_t)n > len) mc_discard(); strcpy(t, s); t[n] = 0; }
    else if (mode == 1) { if ((size_t)n > len) mc_discard(); strcpy(t, s + n); }
    else if (mode == 2) { strcpy(t, s); for (int i = 0; i < n; i++) strcat(t, "q"); }
    else { if ((size_t)n > len) mc_discard(); memcpy(t, s, n); strcpy(t + n, s + (n < (int)len ? n + 1 : n)); }
    for (int e = 0; e < 3; e++) probe(e, t);
}
/* short texts over the charset: nothing with fewer symbols than a checksum is ever read as data */
static void shorts(void)
{
    int a = mc_choose(32), b = mc_choose(32), d = mc_choose(3); char s[32];
    for (int n = 0; n < 6; n++) for (int x = 0; x < 32; x++) for (int y = 0; y < (n > 2 ? 32 : 1); y++) {
        char q[8] = { ref_b32[a], ref_b32[b], ref_b32[x], ref_b32[y], ref_b32[(x * 7 + a) & 31], ref_b32[(y * 5 + b) & 31], 0 }; q[n] = 0;
        snprintf(s, sizeof s, "%s1%s", DH[d], q); probe(d, s); mc_eval(1);
    }
}
static void nulls(void)
{
    uint8_t k[32]; keyval(77, k); nostr_key key = {0}; char out[128]; int f = mc_choose(8); nostr_error_t r = 0;
    switch (f) {
    case 0: r = nostr_key_to_bech32(NULL, "npub", out, 100); break; case 1: r = nostr_key_to_bech32(&key, NULL, out, 100); break;
    case 2: r = nostr_key_to_bech32(&key, "npub", NULL, 100); break; case 3: r = nostr_key_from_bech32(NULL, &key); break;
    case 4: r = nostr_privkey_from_bech32(NULL, NULL); break; case 5: r = nostr_event_id_from_bech32(NULL, k); break;
    case 6: r = nostr_privkey_to_bech32(NULL, out, 100); break; case 7: r = nostr_event_id_to_bech32(NULL, out, 100); break;
    }
    mc_step(); MC_CHECK(r != NOSTR_OK, "null", "call %d with a null argument succeeds", f); mc_outcome(f);
}
static void oom(void)
{
    int which = mc_choose(60), d = which % 3; which /= 3; uint8_t k[32], got[32]; keyval(80 + which, k); char s[128], out[128]; ref_bech32_encode(DH[d], k, 32, s);
    fault_reset(); fault_track(1); mc_set_dev_bound(1); fault_arm();
    nostr_error_t r = enc(d, DH[d], k, out, sizeof out); mc_step();
    if (r == NOSTR_OK) MC_CHECK(!strcmp(out, s), "oom-encode", "encoding under allocation failure gives %s for %s", mc_q(out), s); else MC_CHECK(fault_injected(), "oom-enc-fail", "encode fails");
    int inj = fault_injected();
    nostr_error_t q = dec(d, s, got); mc_step();
    if (q == NOSTR_OK) MC_CHECK(!memcmp(got, k, 32), "oom-decode", "wrong bytes"); else MC_CHECK(fault_injected() > inj, "oom-dec-fail", "decode fails without a failure");
    fault_disarm(); MC_CHECK(fault_live() == 0, "oom-leak", "%s", fault_live_desc());
    mc_outcome(mc_hash_u64(MC_H0, r * 100 + q));
}
static void setup_fault(void) { fault_install(); }
const mc_scenario mc_scenarios[] = {
    { "encode", encode, NULL, 3, 60, "8514 keys x three encoders against the BIP-173 reference, and back" },
    { "sizes", sizes, NULL, 3, 0, "every output size 0..111 x every prefix length 0..95" },
    { "prefixes", prefixes, NULL, 3, 0, "every byte in each position of a prefix" },
    { "sub1", sub1, NULL, 3, 0, "every single-character replacement by every byte, all decoders" },
    { "sub2", sub2, NULL, 3, 300, "every pair of positions x pairs of symbols (thorough: all)" },
    { "swaps", swaps, NULL, 3, 0, "every adjacent transposition x 40 keys" },
    { "shapes", shapes, NULL, 3, 0, "19 prefixes x payload lengths 0..109 x padding x case, correct checksum" },
    { "cuts", cuts, NULL, 3, 0, "truncated, beheaded, extended and shortened texts" },
    { "shorts", shorts, NULL, 3, 60, "texts with fewer than six data symbols" },
    { "nulls", nulls, NULL, 3, 0, "null arguments" },
    { "oom", oom, setup_fault, 3, 0, "allocation failures" },
    MC_END };
