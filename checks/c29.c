/* C29: zap requests, lnurls, invoices, receipts and their verification.
 *
 * References: BIP-173 decoder (lib/ref), the BOLT-11 amount rule written as arithmetic on 128-bit integers,
 * and, for verification, the field by field construction of the receipt itself.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/guard.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <stdio.h>
#include <inttypes.h>

static nostr_privkey SK, SK2, SK3; static nostr_key PK, PK2, PK3; static char PKH[65], PK2H[65];
static nostr_event *REQ[6]; static char *REQJ[12];
static nostr_event *mkreq(const char *amount, const char *content)
{
    nostr_event *e = refev_new(); e->kind = 9734; e->created_at = 1700000000; nostr_event_set_content(e, content); const char *r[] = { "relays", "wss://a.example" }; nostr_event_add_tag(e, r, 2); if (amount) { const char *a[] = { "amount", amount }; nostr_event_add_tag(e, a, 2); } const char *p[] = { "p", PK2H }; nostr_event_add_tag(e, p, 2);
    e->pubkey = PK3; if (nostr_event_compute_id(e) != NOSTR_OK || nostr_event_sign(e, &SK3) != NOSTR_OK) mc_fail("setup", "cannot sign"); return e;
}
static char *json(const nostr_event *e) { ref_buf b = {0}; refev_json(&b, e); return b.s; }
static void setup(void)
{
    fault_install(); nostr_init(); uint8_t k[32]; memset(k, 7, 32); memcpy(SK.data, k, 32); k[0] = 9; memcpy(SK2.data, k, 32); k[0] = 11; memcpy(SK3.data, k, 32); nostr_keypair kp; memset(&kp, 0, sizeof kp);
    const nostr_privkey *s[] = { &SK, &SK2, &SK3 }; nostr_key *p[] = { &PK, &PK2, &PK3 }; for (int i = 0; i < 3; i++) { if (nostr_keypair_from_private_key(&kp, s[i]) != NOSTR_OK) abort(); *p[i] = kp.pubkey; } ref_hex(PK.data, 32, PKH); ref_hex(PK2.data, 32, PK2H);
    static const char *const am[] = { "21000", NULL, "0", "21001", "18446744073709551615", "2100" }; for (int i = 0; i < 6; i++) { REQ[i] = mkreq(am[i], "zap \"é\""); REQJ[i] = json(REQ[i]); }
}

/* ---------- lnurl ---------- */
static void lnurl(const char *s)
{
    char hrp[128]; uint8_t d5[4200]; size_t n = 0, len = strlen(s); int mixed = 0, up = 0, lo = 0; for (const char *c = s; *c; c++) { up |= *c >= 'A' && *c <= 'Z'; lo |= *c >= 'a' && *c <= 'z'; } mixed = up && lo; (void)mixed;
    const char *sep = strrchr(s, '1'); int ok = sep && (size_t)(sep - s) < 100 && sep > s && len < 4000; if (ok) { ok = !up && ref_bech32_decode5(s, hrp, d5, &n) == 0; if (ok) ok = !strcmp(hrp, "lnurl"); }
    const char *in = guard_copy(0, s, len + 1); nostr_error_t r = nostr_zap_validate_lnurl(in, NULL, NULL); mc_eval(1); if (up && !lo) return; /* upper case: open */
    if (ok) { int bits = (int)(n * 5) % 8, pad = bits < 5 && (n == 0 || !(d5[n - 1] & ((1 << bits) - 1))); if (len <= 90 && n && pad && r != NOSTR_OK) mc_report("lnurl-refused", "%s refused: %d", s, r); if (r == NOSTR_OK) mc_outcome(mc_hash_str(MC_H0, s)); }
    else if (r == NOSTR_OK) mc_report("lnurl-accepted", "%s accepted", mc_q(s));
}
static void sc_lnurl(void)
{
    int n = mc_choose(90); uint8_t d[90]; mc_step(); for (int i = 0; i < n; i++) d[i] = (uint8_t)(i * 37 + n); char s[400], t[400];
    static const char *const H[] = { "lnurl", "lnurlx", "lnur", "LNURL", "lnurll", "npub", "lnbc", "lnurl1lnurl", "lnurl1", "ln1url" }; for (int h = 0; h < MC_LEN(H); h++) { ref_bech32_encode(H[h], d, n, s); lnurl(s); for (char *c = s; *c; c++) if (*c >= 'a' && *c <= 'z') *c -= 32; lnurl(s); }
    for (int h = 0; h < 90; h++) { char hp[128]; strcpy(hp, "lnurl"); for (int i = 5; i < 5 + h; i++) hp[i] = 'x'; hp[5 + h] = 0; ref_bech32_encode(hp, d, n, s); if (h) lnurl(s); for (int i = 5; i < 5 + h; i++) hp[i] = 'z'; snprintf(t, sizeof t, "%s1%.*s", hp, n, "qpzry9x8gf2tvdw0s3jn54khce6mua7lqpzry9x8gf2tvdw0s3jn54khce6mua7lqpzry9x8gf2tvdw0s3jn54khce6mua7l"); lnurl(t); }
    uint8_t e[90]; for (int i = 0; i < n; i++) e[i] = (uint8_t)((i * 7 + n) & 31); ref_bech32_encode5("lnurl", e, n, s); lnurl(s); mc_conform();
}
static void sc_lnurlbytes(void)
{
    static const int N[] = { 1, 5, 25, 48 }; int n = MC_PICK(N), pos = mc_choose(90); uint8_t d[60]; for (int i = 0; i < n; i++) d[i] = (uint8_t)(i * 91 + 3); char s[200], t[200]; ref_bech32_encode("lnurl", d, n, s); int l = (int)strlen(s); if (pos > l) mc_discard(); mc_step();
    memcpy(t, s, pos); t[pos] = 0; lnurl(t); for (int c = 1; c < 256; c++) { strcpy(t, s); if (pos < l) { t[pos] = (char)c; lnurl(t); for (int q = 0; q < l && c < 4; q++) { char sv = t[q]; t[q] = "qp1"[c - 1]; lnurl(t); t[q] = sv; } } memcpy(t, s, pos); t[pos] = (char)c; strcpy(t + pos + 1, s + pos); lnurl(t); } if (pos < l) { memcpy(t, s, pos); strcpy(t + pos, s + pos + 1); lnurl(t); if (pos + 1 < l && s[pos] != s[pos + 1]) { strcpy(t, s); t[pos] = s[pos + 1]; t[pos + 1] = s[pos]; lnurl(t); } }
    mc_conform();
}

/* ---------- invoices ---------- */
enum { BAD, OPEN, GOOD };
static int ref_invoice1(const char *s, uint64_t *amt)
{
    *amt = 0; const char *sep = strrchr(s, '1'); if (!sep) return BAD; if (strncmp(s, "ln", 2)) return strncmp(s, "LN", 2) ? BAD : OPEN; const char *p = s + 2; char net[16]; int k = 0; while (p < sep && *p >= 'a' && *p <= 'z') { if (k < 15) net[k++] = *p; p++; } net[k] = 0; if (!k) return BAD; int known = !strcmp(net, "bc") || !strcmp(net, "tb") || !strcmp(net, "bcrt") || !strcmp(net, "tbs") || !strcmp(net, "sb");
    int data = strlen(sep + 1) >= 6; if (p == sep) return known && data ? GOOD : OPEN; const char *d = p; unsigned __int128 v = 0; int big = 0; while (p < sep && *p >= '0' && *p <= '9') { v = v * 10 + (unsigned)(*p - '0'); if (v > ((unsigned __int128)1 << 80)) big = 1, v = (unsigned __int128)1 << 80; p++; }
    if (p == d) return BAD; if (sep - p > 1) return BAD; unsigned __int128 m; if (p == sep) m = v * 100000000000u; else if (*p == 'm') m = v * 100000000u; else if (*p == 'u') m = v * 100000u; else if (*p == 'n') m = v * 100u; else if (*p == 'p') { if (v % 10) return BAD; m = v / 10; } else return BAD;
    if (big || m > UINT64_MAX) return BAD; if (v > UINT64_MAX) { *amt = (uint64_t)m; return OPEN; } *amt = (uint64_t)m; return known && data && *d != '0' ? GOOD : OPEN;
}
static int ref_invoice(const char *s, uint64_t *amt) { char l[400]; int up = 0; size_t i = 0; for (; s[i] && i < 399; i++) { up |= s[i] >= 'A' && s[i] <= 'Z'; l[i] = s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]; } l[i] = 0; int v = ref_invoice1(l, amt); return v == BAD ? (up ? OPEN : BAD) : up ? OPEN : v; }
static void invoice(const char *s)
{
    uint64_t want; int v = ref_invoice(s, &want); uint64_t lw; char lo[400]; size_t li = 0; for (; s[li] && li < 399; li++) lo[li] = (char)(s[li] >= 'A' && s[li] <= 'Z' ? s[li] + 32 : s[li]); lo[li] = 0; int upbad = v == OPEN && ref_invoice1(lo, &lw) == BAD; nostr_event *e = refev_new(); e->kind = 9735; const char *t[] = { "bolt11", s }; if (nostr_event_add_tag(e, t, 2) != NOSTR_OK) mc_fail("add_tag", "refused"); uint64_t a = 12345, a2 = 54321; char *b = (char *)1; nostr_error_t r = nostr_zap_parse_receipt(e, &a, &b, NULL, NULL), r2 = nostr_zap_parse_receipt(e, &a2, NULL, NULL, NULL); mc_eval(1);
    if (r == NOSTR_OK) { if (strcmp(b, s)) mc_report("invoice-altered", "%s returned as %s", mc_q(s), mc_q(b)); free(b); } else if (b) mc_report("dangling", "failed with an invoice");
    if (v == GOOD && r != NOSTR_OK) mc_report("invoice-refused", "%s refused: %d", mc_q(s), r); if (v == BAD && r == NOSTR_OK) mc_report("invoice-accepted", "%s accepted with amount %" PRIu64, mc_q(s), a); if (upbad ? r == NOSTR_OK && a && a != lw : v != BAD && r == NOSTR_OK && a != want) mc_report("amount", "%s states %" PRIu64 ", got %" PRIu64, mc_q(s), want, a);
    if (r2 != r || (r == NOSTR_OK && a2 != a)) mc_report("amount-alone", "%s: asked without the invoice: %d %" PRIu64, mc_q(s), r2, a2); if (r == NOSTR_OK) mc_outcome(a); nostr_event_destroy(e);
}
static const char *const NET[] = { "bc", "tb", "bcrt", "tbs", "sb", "", "xyz", "b", "BC" };
static const char *const DATA[] = { "pvjluezpp5qqqsyq", "qqqqqq", "", "q", "m", "u21", "p1vj" };
static void sc_invoices(void)
{
    int net = mc_choose(MC_LEN(NET)), mul = mc_choose(29), data = mc_choose(MC_LEN(DATA)); char ms[3] = ""; mc_step(); if (mul >= 1 && mul <= 26) ms[0] = (char)('a' + mul - 1); else if (mul == 27) strcpy(ms, "mu"); else if (mul == 28) strcpy(ms, "P");
    int L = mc_thorough() ? 4 : 3; char s[200]; snprintf(s, sizeof s, "ln%s%s1%s", NET[net], ms, DATA[data]); invoice(s); int lim = 1; for (int n = 1; n <= L; n++) { lim *= 10; if (net > 2 && n > 1) break; if (n > 2 && data && !mc_thorough()) break; for (int v = 0; v < lim; v++) { snprintf(s, sizeof s, "ln%s%0*d%s1%s", NET[net], n, v, ms, DATA[data]); invoice(s); } }
    mc_conform();
}
static void sc_overflow(void)
{
    static const uint64_t F[] = { 100000000000ull, 100000000ull, 100000ull, 100ull, 0 }; static const char M[] = { 0, 'm', 'u', 'n', 'p' }; int f = mc_choose(5), w = mc_choose(6); mc_step(); char s[200];
    for (int d = -12; d <= 12; d++) { unsigned __int128 top = F[f] ? UINT64_MAX / F[f] : (unsigned __int128)UINT64_MAX * 10; unsigned __int128 base = w == 0 ? top : w == 1 ? UINT64_MAX : w == 2 ? (unsigned __int128)UINT64_MAX * 10 + 9 : w == 3 ? INT64_MAX : w == 4 ? UINT32_MAX : (unsigned __int128)2100000000000000000ull; base += (unsigned __int128)(__int128)d; char dig[60]; int k = 59; dig[k] = 0; while (base) { dig[--k] = (char)('0' + (int)(base % 10)); base /= 10; } snprintf(s, sizeof s, "lnbc%s%.1s1pvjluezpp5", dig + k, &M[f]); if (!M[f]) snprintf(s, sizeof s, "lnbc%s1pvjluezpp5", dig + k); invoice(s); }
    for (int z = 1; z < 60; z++) { char q[80]; memset(q, '9', z); q[z] = 0; snprintf(s, sizeof s, "lnbc%s%.1s1pvjluezpp5", q, M[f] ? &M[f] : ""); invoice(s); q[0] = '1'; memset(q + 1, '0', z - 1); snprintf(s, sizeof s, "lnbc%s%.1s1pvjluezpp5", q, M[f] ? &M[f] : ""); invoice(s); } mc_conform();
}
static void sc_invoicebytes(void)
{
    static const char *const B[] = { "lnbc210u1p3unwfusp5", "lnbc1pvjluezpp5qqq", "lntb25m1qqqqqqq", "lnbc2p1qqqqqqq" }; const char *b = MC_PICK(B); int pos = mc_choose(20), n = (int)strlen(b); if (pos > n) mc_discard(); char s[100]; mc_step();
    for (int c = 1; c < 256; c++) { if (pos < n) { strcpy(s, b); s[pos] = (char)c; if (c < 128) invoice(s); } memcpy(s, b, pos); s[pos] = (char)c; strcpy(s + pos + 1, b + pos); if (c < 128) invoice(s); } memcpy(s, b, pos); s[pos] = 0; invoice(s); invoice(b + pos); mc_conform();
}

/* ---------- requests ---------- */
static void sc_request(void)
{
    static const uint64_t AM[] = { 0, 1, 1000, 21000, UINT32_MAX, (uint64_t)UINT32_MAX + 1, INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX }; static char big[3000]; static const char *const CT[] = { NULL, "", "zap!", "q\"\\\n\xc3\xa9", big }; static const char *const LN[] = { NULL, "lnurl1test", "", big }; memset(big, 'c', 2999);
    int nr = mc_choose(41), ai = mc_choose(MC_LEN(AM)), ct = mc_choose(MC_LEN(CT)), ln = mc_choose(MC_LEN(LN)), rc = mc_choose(2); const char *rl[41]; static char rb[41][40]; mc_step(); for (int i = 0; i < nr; i++) { sprintf(rb[i], i % 5 == 4 ? "%.0d" : "wss://relay%d.example", i); rl[i] = rb[i]; }
    nostr_event *e = (nostr_event *)1; nostr_error_t r = nostr_zap_create_request(&e, AM[ai], rc ? &PK2 : &PK, LN[ln], CT[ct], rl, nr); mc_eval(1); if (!nr) { MC_CHECK(r != NOSTR_OK, "no-relays", "request without relays"); mc_conform(); return; } MC_CHECK(r == NOSTR_OK, "request-refused", "refused: %d", r);
    char am[30]; snprintf(am, sizeof am, "%" PRIu64, AM[ai]); int seen[4] = {0}; MC_CHECK(e->kind == 9734, "kind", "kind %u", e->kind); MC_CHECK(!strcmp(e->content ? e->content : "", CT[ct] ? CT[ct] : ""), "content", "content differs");
    for (size_t i = 0; i < e->tags_count; i++) { nostr_tag *t = &e->tags[i]; const char *k = t->count ? t->values[0] : ""; if (!strcmp(k, "relays")) { seen[0]++; MC_CHECK(t->count == (size_t)nr + 1, "relays", "%zu of %d relays", t->count - 1, nr); for (int j = 0; j < nr; j++) MC_CHECK(!strcmp(t->values[j + 1], rl[j]), "relays", "relay %d is %s", j, t->values[j + 1]); }
        else if (!strcmp(k, "amount")) { seen[1]++; MC_CHECK(t->count == 2 && !strcmp(t->values[1], am), "amount-tag", "amount %s for %s", t->values[1], am); } else if (!strcmp(k, "lnurl")) { seen[2]++; MC_CHECK(LN[ln] && t->count == 2 && !strcmp(t->values[1], LN[ln]), "lnurl-tag", "lnurl differs"); } else if (!strcmp(k, "p")) { seen[3]++; MC_CHECK(t->count == 2 && !strcmp(t->values[1], rc ? PK2H : PKH), "recipient", "p is %s", t->values[1]); } }
    MC_CHECK(seen[0] == 1 && seen[1] == 1 && seen[3] == 1 && (LN[ln] && *LN[ln] ? seen[2] == 1 : LN[ln] ? seen[2] <= 1 : !seen[2]), "tags", "tags %d %d %d %d", seen[0], seen[1], seen[2], seen[3]); mc_outcome((uint64_t)(nr * 1000 + ai * 100 + ct * 10 + ln)); nostr_event_destroy(e); mc_conform();
}

/* ---------- receipts ---------- */
#define PRE1 "5d006d2cf1e73c7148e7519a4c68adc81642ce0e25a432b2434c99f97344c15f"
#define PRE2 "0000000000000000000000000000000000000000000000000000000000000001"
typedef struct { int n; const char *v[3]; } tg;
static void sc_receipts(void)
{
    const tg T[] = { { 2, { "bolt11", "lnbc210u1pvjluezpp5" } }, { 2, { "bolt11", "lntb5n1pvjluezpp5" } }, { 1, { "bolt11" } }, { 2, { "bolt11", "junk" } }, { 2, { "bolt11", "lnbc1pvjluezpp5" } }, { 2, { "preimage", PRE1 } }, { 2, { "preimage", PRE2 } }, { 2, { "preimage", PRE1 "0" } }, { 2, { "preimage", "" } }, { 1, { "preimage" } }, { 2, { "description", REQJ[0] } }, { 2, { "description", REQJ[1] } }, { 2, { "description", "{\"x\":" } }, { 2, { "description", "" } }, { 1, { "description" } }, { 2, { "amount", "777" } }, { 3, { "p", PKH, "bolt11" } }, { 2, { "Bolt11", "lnbc9m1pvjluezpp5" } }, { 2, { "", "lnbc9m1pvjluezpp5" } }, { 3, { "bolt11", "lnbc20m1pvjluezpp5", "lnbc30m1pvjluezpp5" } } };
    int k[4], n = mc_thorough() ? 4 : 3; int m = mc_choose(MC_LEN(T)); k[0] = m; int c = 1; while (c < n) { int x = mc_choose(MC_LEN(T) + 1); if (!x) break; k[c++] = x - 1; } mc_step();
    nostr_event *e = refev_new(); e->kind = 9735; for (int i = 0; i < c; i++) { const char *v[3]; memcpy(v, T[k[i]].v, sizeof v); if (nostr_event_add_tag(e, v, T[k[i]].n) != NOSTR_OK) mc_fail("add_tag", "refused"); }
    for (int want = 0; want < 16; want++) {
        uint64_t a = 4242; char *b = (char *)1, *p = guard_buf(1, 65); nostr_event *q = (nostr_event *)1; fault_reset(); fault_track(1); nostr_error_t r = nostr_zap_parse_receipt(e, want & 1 ? &a : NULL, want & 2 ? &b : NULL, want & 4 ? p : NULL, want & 8 ? &q : NULL); mc_eval(1); if (guard_under(p)) mc_report("underflow", "wrote before the preimage");
        int nb = 0, np = 0, nd = 0, badd = 0, badb = 0, badp = 0, okb = 0, oka = 0, okp = 0, okd = 0, anyb = 0, anyp = 0; for (int i = 0; i < c; i++) { const tg *t = &T[k[i]]; if (t->n < 2) { continue; } if (!strcmp(t->v[0], "bolt11")) { nb++; uint64_t am; int v = ref_invoice(t->v[1], &am); if (v == BAD) badb++; else { anyb++; if (r == NOSTR_OK && (want & 1) && a == am) oka = 1; } if (r == NOSTR_OK && (want & 2) && b && !strcmp(b, t->v[1])) okb = 1; } else if (!strcmp(t->v[0], "preimage")) { np++; if (strlen(t->v[1]) != 64) badp++; else anyp++; if (r == NOSTR_OK && (want & 4) && strnlen(p, 65) < 65 && !strcmp(p, t->v[1])) okp = 1; } else if (!strcmp(t->v[0], "description")) { nd++; if (*t->v[1] != '{' || t->v[1][3] == '"') badd++; if (r == NOSTR_OK && (want & 8) && q) { ref_buf x = {0}; refev_json(&x, q); if (!strcmp(x.s, t->v[1])) okd = 1; rb_free(&x); } } }
        if (r == NOSTR_OK) {
            if (want & 1) { if (!nb && a != 0 && a != 4242) mc_report("amount-invented", "amount %" PRIu64 " without an invoice", a); if (nb && !badb && !oka) mc_report("amount", "amount %" PRIu64 " is not the invoice's", a); if (nb && badb == nb) mc_report("invoice-accepted", "amount %" PRIu64 " of junk", a); if ((want & 2) && b && nb > 1) { uint64_t am; if (ref_invoice(b, &am) != BAD && am != a) mc_report("amount-mismatch", "amount %" PRIu64 " with invoice %s", a, b); } }
            if (want & 2) { if (nb ? !okb : b != NULL) mc_report("invoice", "invoice %s of %d", b ? mc_q(b) : "NULL", nb); free(b); }
            if (want & 4) { if (strnlen(p, 65) == 65 && np == 1 && !badp) mc_report("preimage", "not terminated"); else if (anyp == 1 && np == 1 && !okp) mc_report("preimage", "preimage %s", mc_q(p)); else if (np > 1 && anyp && !okp) mc_report("preimage", "preimage is none of those listed"); }
            if (want & 8) { if (nd && !badd && !okd) mc_report("request", "embedded request differs"); if (nd && badd == nd && q) mc_report("request-invented", "request out of junk"); if (!nd && q) mc_report("request-invented", "request out of nothing"); nostr_event_destroy(q); }
        } else { if (!(badd && (want & 8)) && !(badb && (want & 1)) && !badp && nb <= 1 && nd <= 1 && np <= 1) mc_report("receipt-refused", "refused: %d", r); if (((want & 2) && b && b != (char *)1) || ((want & 8) && q && q != (nostr_event *)1)) mc_report("dangling", "failed with results"); }
        if (badd == nd && nd && (want & 8) && r == NOSTR_OK && 0) mc_report("x", "x"); if (fault_live()) mc_report("leak", "%ld blocks: %s", fault_live(), fault_live_desc()); fault_track(0);
        if (r == NOSTR_OK) mc_outcome((uint64_t)(want | okb << 4 | okp << 5 | okd << 6 | oka << 7));
    }
    e->kind = 9734; uint64_t a; if (nostr_zap_parse_receipt(e, &a, NULL, NULL, NULL) == NOSTR_OK) mc_report("wrong-kind", "kind 9734 parsed as a receipt"); nostr_event_destroy(e); mc_conform();
}

/* ---------- verification ---------- */
static const char *const INV[] = { "lnbc210n1pvjluezpp5", NULL, "lnbc211n1pvjluezpp5", "lnbc1pvjluezpp5", "lnbc210u1pvjluezpp5", "junk", "lntb21n1pvjluezpp5" };  /* 21000 msat first */
static void sc_verify(void)
{
    int rk = mc_choose(3), req = mc_choose(6), inv = mc_choose(MC_LEN(INV)), desc = mc_choose(9), post = mc_choose(9), srv = mc_choose(6), qk = mc_choose(2); mc_step(); if (post && (rk || qk)) mc_discard();
    nostr_event *q; { nostr_event *o = REQ[req]; char *j = REQJ[req]; (void)o; if (nostr_event_from_json(j, &q) != NOSTR_OK) mc_fail("setup", "cannot read request"); } if (qk) q->kind = 1;
    nostr_event *e = refev_new(); e->kind = rk == 0 ? 9735 : rk == 1 ? 9734 : 1; e->created_at = 1700000001; nostr_event_set_content(e, ""); const char *p[] = { "p", PK2H }; nostr_event_add_tag(e, p, 2); char d[4000]; const char *J = REQJ[req]; const char *dj = J; const char *other = REQJ[req == 3 ? 0 : 3];
    switch (desc) { case 0: break; case 1: dj = NULL; break; case 2: dj = other; break; case 3: case 4: case 5: { /* the request's id over altered contents */ nostr_event *x; nostr_event_from_json(J, &x); if (desc == 3) nostr_event_set_content(x, "other"); if (desc == 4) x->tags[x->tags_count - 1].values[1] = PKH; if (desc == 5) x->created_at++; ref_buf b = {0}; refev_json(&b, x); strcpy(d, b.s); dj = d; if (desc == 4) x->tags[x->tags_count - 1].values[1] = (char *)PK2H; nostr_event_destroy(x); rb_free(&b); break; } case 6: dj = "{"; break; case 7: { nostr_event *x; nostr_event_from_json(J, &x); x->id[31] ^= 1; ref_buf b = {0}; refev_json(&b, x); strcpy(d, b.s); dj = d; nostr_event_destroy(x); rb_free(&b); break; } case 8: dj = ""; break; }
    if (INV[inv]) { const char *t[] = { "bolt11", INV[inv] }; nostr_event_add_tag(e, t, 2); } if (dj) { const char *t[] = { "description", dj }; nostr_event_add_tag(e, t, 2); }
    e->pubkey = post == 1 ? PK2 : PK; if (nostr_event_compute_id(e) != NOSTR_OK || nostr_event_sign(e, post == 1 ? &SK2 : &SK) != NOSTR_OK) mc_fail("setup", "cannot sign");
    switch (post) { case 2: e->sig[63] ^= 1; break; case 3: e->id[0] ^= 0x80; break; case 4: nostr_event_set_content(e, "x"); break; case 5: { const char *t[] = { "P", PKH }; nostr_event_add_tag(e, t, 2); break; } case 6: e->created_at++; break; case 7: e->pubkey = PK; { nostr_event *z = e; uint8_t s0 = z->sig[0]; z->sig[0] = (uint8_t)(s0 + 1); } break; case 8: memset(e->sig, 0, 64); break; }
    char up[65]; for (int i = 0; i < 65; i++) up[i] = PKH[i] >= 'a' && PKH[i] <= 'f' ? PKH[i] - 32 : PKH[i]; char lng[70]; snprintf(lng, sizeof lng, "%s0", PKH); char sh[65]; snprintf(sh, 65, "%.63s", PKH); const char *S[] = { PKH, PK2H, up, lng, sh, "" }; const char *server = guard_copy(0, S[srv], strlen(S[srv]) + 1);
    fault_reset(); fault_track(1); nostr_error_t r = nostr_zap_verify(e, q, server); mc_eval(1); if (fault_live()) mc_report("leak", "%ld blocks: %s", fault_live(), fault_live_desc()); fault_track(0);
    uint64_t am = 0, ra = req == 0 ? 21000 : req == 3 ? 21001 : req == 4 ? UINT64_MAX : req == 5 ? 2100 : 0; int iv = INV[inv] ? ref_invoice(INV[inv], &am) : BAD, stated = req != 1 && req != 2; int signer = post == 1 ? 1 : 0, named = srv == 0 ? 0 : srv == 1 ? 1 : srv == 2 ? 2 : 3;
    int good = rk == 0 && !qk && desc == 0 && (post == 0 || post == 1) && named == signer && (!stated || (iv == GOOD && am == ra)), open = (rk == 0 && !qk && desc == 7) || (named == 2 && signer == 0 && post == 0) || (!stated && (iv != GOOD || req == 2));
    int bad = rk || qk || (desc && desc != 7) || post > 1 || (named != signer && named != 2) || named == 3 || (named == 2 && signer == 1) || (stated && !(iv == GOOD && am == ra)); if (inv == 0 && ra == 21000 && am != 21000) mc_fail("harness", "x");
    if (r == NOSTR_OK && bad) mc_report("verified", "verified: kind %u request %d invoice %s description %d change %d server %d", e->kind, req, INV[inv] ? INV[inv] : "none", desc, post, srv); if (r != NOSTR_OK && good && !open) mc_report("not-verified", "a true receipt (request %d, invoice %s) is refused: %d", req, INV[inv] ? INV[inv] : "none", r);
    if (r == NOSTR_OK) mc_outcome((uint64_t)(req * 1000 + inv * 100 + post)); nostr_event_destroy(q); nostr_event_destroy(e); mc_conform();
}
/* a receipt for REQ[0] by SK, checked against every server key that differs from the true one in one digit */
static void sc_serverkey(void)
{
    static const char HX[] = "0123456789abcdefABCDEF"; int pos = mc_choose(64), s2 = mc_choose(2); mc_step(); nostr_event *e = refev_new(); e->kind = 9735; e->created_at = 1700000001; nostr_event_set_content(e, ""); const char *t1[] = { "bolt11", INV[0] }, *t2[] = { "description", REQJ[0] }; nostr_event_add_tag(e, t1, 2); nostr_event_add_tag(e, t2, 2); e->pubkey = s2 ? PK2 : PK; if (nostr_event_compute_id(e) != NOSTR_OK || nostr_event_sign(e, s2 ? &SK2 : &SK) != NOSTR_OK) mc_fail("setup", "cannot sign"); const char *true_key = s2 ? PK2H : PKH;
    for (int i = 0; HX[i]; i++) { char k[65]; strcpy(k, true_key); char o = k[pos]; k[pos] = HX[i]; int same = HX[i] == o, fold = !same && HX[i] >= 'A' && HX[i] + 32 == o; nostr_error_t r = nostr_zap_verify(e, REQ[0], k); mc_eval(1); if (same && r != NOSTR_OK) mc_fail("not-verified", "a true receipt is refused: %d", r); if (!same && !fold && r == NOSTR_OK) mc_fail("verified", "verified for server %s, signed by %s", k, true_key); }
    nostr_event_destroy(e); mc_conform(); mc_outcome((uint64_t)(pos * 2 + s2)); MC_NOTE("digit %d of the server key", pos);
}
/* the amount asked for against the amount of the invoice, equal only when they are, not when they agree modulo 2^32, in the last digits, ... */
static const uint64_t VA[] = { 1, 2, 21000, 2100, 210000, 21001, 255, 256, 65535, 65536, 65536 + 21000, 2147483647ull, 2147483648ull, 2147483648ull + 21000, 4294967295ull, 4294967296ull, 4294967296ull + 21000, 4294967297ull, 2 * 4294967296ull + 21000, 1000000000000ull, 1000000021000ull, 9007199254740992ull, 9007199254740993ull, 9007199254740994ull, 1099511627776ull + 21000, 281474976710656ull + 21000, 9223372036854775807ull, 9223372036854775808ull, 9223372036854775808ull + 21000, 18446744073709551614ull, 18446744073709551615ull };
static void sc_amounts(void)
{
    int a = mc_choose(MC_LEN(VA)), b = mc_choose(MC_LEN(VA)); mc_step(); char am[30], inv[80]; snprintf(am, sizeof am, "%" PRIu64, VA[a]); nostr_event *q = mkreq(am, "zap"); char *j = json(q); snprintf(inv, sizeof inv, "lnbc%" PRIu64 "0p1pvjluezpp5", VA[b]); uint64_t st; int iv = ref_invoice(inv, &st);
    nostr_event *e = refev_new(); e->kind = 9735; e->created_at = 1700000001; nostr_event_set_content(e, ""); const char *t1[] = { "bolt11", inv }, *t2[] = { "description", j }; nostr_event_add_tag(e, t1, 2); nostr_event_add_tag(e, t2, 2); e->pubkey = PK; if (nostr_event_compute_id(e) != NOSTR_OK || nostr_event_sign(e, &SK) != NOSTR_OK) mc_fail("setup", "cannot sign");
    nostr_error_t r = nostr_zap_verify(e, q, PKH); mc_eval(1); if (r == NOSTR_OK && (a != b || iv == BAD)) mc_fail("verified", "asked for %s, invoice %s of %" PRIu64, am, inv, VA[b]); if (r != NOSTR_OK && a == b && iv == GOOD) mc_fail("not-verified", "asked for %s, invoice %s: %d", am, inv, r); nostr_event_destroy(e); nostr_event_destroy(q); free(j); mc_conform(); mc_outcome((uint64_t)(a * 100 + b));
}
static void sc_oom(void)
{
    mc_set_dev_bound(mc_thorough() ? 2 : 1); int op = mc_choose(6), req = mc_choose(2); mc_step(); uint8_t ld[30] = { 1, 2, 3 }; char ls[100]; ref_bech32_encode("lnurl", ld, 30, ls); nostr_event *q, *e = refev_new(); if (nostr_event_from_json(REQJ[req], &q) != NOSTR_OK) mc_fail("setup", "x"); e->kind = 9735; nostr_event_set_content(e, ""); const char *t1[] = { "bolt11", INV[0] }, *t2[] = { "description", REQJ[req] }, *t3[] = { "preimage", PRE1 }; nostr_event_add_tag(e, t1, 2); nostr_event_add_tag(e, t3, 2); nostr_event_add_tag(e, t2, 2); e->pubkey = PK; if (nostr_event_compute_id(e) != NOSTR_OK || nostr_event_sign(e, &SK) != NOSTR_OK) mc_fail("setup", "sign");
    fault_reset(); fault_track(1); fault_arm(); nostr_error_t r;
    if (op == 0) { r = nostr_zap_verify(e, q, PKH); } else if (op == 5) r = nostr_zap_validate_lnurl(ls, NULL, NULL);
    else if (op < 3) { uint64_t a; char *b = (char *)1, p[65]; nostr_event *x = (nostr_event *)1; r = nostr_zap_parse_receipt(e, &a, op == 1 ? &b : NULL, p, &x); if (r == NOSTR_OK) { fault_disarm(); MC_CHECK(a == 21000 && !strcmp(p, PRE1) && (op == 2 || !strcmp(b, INV[0])), "altered", "receipt differs"); ref_buf z = {0}; refev_json(&z, x); MC_CHECK(!strcmp(z.s, REQJ[req]), "altered", "request differs"); rb_free(&z); if (op == 1) free(b); nostr_event_destroy(x); } else MC_CHECK(!(op == 1 && b) && !x, "dangling", "failed with results"); }
    else { nostr_event *x = (nostr_event *)1; const char *rl[40]; int n = op == 3 ? 2 : 40; for (int i = 0; i < n; i++) rl[i] = "wss://r.example"; r = nostr_zap_create_request(&x, 21000, &PK2, "lnurl1x", "hello", rl, n); if (r == NOSTR_OK) { MC_CHECK(x->tags_count == 4 && x->tags[0].count == (size_t)n + 1 && x->content && !strcmp(x->content, "hello"), "altered", "request differs"); nostr_event_destroy(x); } else MC_CHECK(!x, "dangling", "failed with an event"); }
    fault_disarm(); MC_CHECK(r == NOSTR_OK || fault_injected(), "spurious", "op %d: error %d without failure", op, r); mc_outcome((uint64_t)(op * 1000 + r + 100)); MC_CHECK(!fault_live(), "leak", "op %d: %ld blocks: %s", op, fault_live(), fault_live_desc()); fault_track(0); MC_CHECK(nostr_zap_verify(e, q, PKH) == NOSTR_OK, "unusable", "inputs no longer usable"); nostr_event_destroy(e); nostr_event_destroy(q); mc_conform();
}
const mc_scenario mc_scenarios[] = {
    { "lnurl", sc_lnurl, setup, 3, 60, "lnurls of 0..89 bytes, 10 prefixes, prefixes of 5..94 characters, both cases" },
    { "lnurlbytes", sc_lnurlbytes, setup, 3, 60, "every byte at, before and instead of every position of four lnurls, truncations, deletions, swaps, pairs" },
    { "invoices", sc_invoices, setup, 3, 120, "9 networks x all amounts of up to 3 (4) digits x 29 multipliers x 7 data parts" },
    { "overflow", sc_overflow, setup, 3, 30, "amounts around every overflow boundary of every multiplier, up to 59 digits" },
    { "invoicebytes", sc_invoicebytes, setup, 3, 30, "every byte at and before every position of four invoices, every truncation" },
    { "request", sc_request, setup, 3, 60, "0..40 relays x 9 amounts x contents x lnurls x recipients" },
    { "receipts", sc_receipts, setup, 3, 120, "tag lists of up to 3 (4) of 20 tags x every subset of outputs" },
    { "verify", sc_verify, setup, 3, 120, "every combination of 3 kinds, 6 requests, 7 invoices, 9 descriptions, 9 changes after signing, 6 server keys" },
    { "serverkey", sc_serverkey, setup, 3, 60, "every digit of the server key replaced by every hex digit" },
    { "amounts", sc_amounts, setup, 3, 60, "every pair of 31 requested and invoiced amounts" },
    { "oom", sc_oom, setup, 3, 20, "every single (pair of) allocation failure" },
    MC_END
};
