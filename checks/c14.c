/* C14: event and text validators under a controlled clock.
 *
 * time() is replaced (link-time seam): every clock value is a choice.  Oracle: the documented
 * predicate of each validator written out, 128-bit arithmetic for timestamps.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/fault.h"
#include "../lib/guard.h"
#include <nostr.h>
#include <nostr_relay_protocol.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <time.h>

static int64_t NOW = 1700000000;
time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
static nostr_privkey SK; static nostr_key PK;
static void setup(void) { fault_install(); nostr_init(); memset(SK.data, 0, 32); SK.data[31] = 3; if (nostr_event_sign == 0) abort(); nostr_keypair kp; memset(&kp, 0, sizeof kp); if (nostr_keypair_from_private_key(&kp, &SK) != NOSTR_OK) abort(); PK = *nostr_keypair_public_key(&kp); }
typedef __int128 i128;
static const int64_t NOWS[] = { 0, 1, 1700000000, 2147483647, 2147483648LL, 4294967296LL, 253402300799LL, INT64_MAX - 1, INT64_MAX };
static const int64_t SKEW[] = { 0, 1, 2, 60, 900, -1, -900, 31536000, 2147483647LL, 4294967296LL, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1 };

/* value of an expiration text: digits -> number (saturating or 0 beyond int64), else none */
enum { X_NONE, X_VAL, X_EITHER, X_HUGE };
static int expjudge(const char *s, int64_t *v)
{
    *v = 0; if (!s || !*s) return X_NONE;
    const char *p = s; int odd = 0, neg = 0;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++, odd = 1;
    if (*p == '+') p++, odd = 1; else if (*p == '-') p++, odd = 1, neg = 1;
    if (!*p) return X_NONE;
    i128 x = 0; for (const char *q = p; *q; q++) { if (*q < '0' || *q > '9') return X_NONE; if (x < ((i128)1 << 100)) x = x * 10 + (*q - '0'); }
    if (x > INT64_MAX) return neg ? X_NONE : X_HUGE;
    if (neg) return X_NONE;
    *v = (int64_t)x; return odd ? X_EITHER : X_VAL;
}
static void exp1(const char *s, nostr_event *e)
{
    int64_t v; int j = expjudge(s, &v); int64_t g = nostr_event_get_expiration(e); mc_eval(1);
    int ok = j == X_NONE ? g == 0 : j == X_VAL ? g == v : j == X_EITHER ? (g == 0 || g == v) : (g == 0 || g == INT64_MAX);
    if (!ok) { mc_report("expiration", "tag value %s: expiration %lld", mc_q(s), (long long)g); return; }
    int64_t N[] = { 0, 1, g - (g > 0), g, g < INT64_MAX ? g + 1 : g, 1700000000, INT64_MAX, INT64_MIN, -1 };
    for (int i = 0; i < MC_LEN(N); i++) {
        int w = g != 0 && N[i] > g; NOW = N[i];
        if (nostr_event_is_expired(e, N[i]) != w) mc_report("is-expired", "expiration %s at %lld: %d", mc_q(s), (long long)N[i], !w);
        if (nostr_event_is_expired_now(e) != w) mc_report("is-expired-now", "expiration %s at %lld: %d", mc_q(s), (long long)N[i], !w);
        mc_eval(2);
    }
    NOW = 1700000000;
}
static nostr_event *one_tag(const char *n, const char *v) { static nostr_event e; static char *vals[2]; static nostr_tag t; memset(&e, 0, sizeof e); e.content = ""; vals[0] = (char *)n; vals[1] = (char *)v; t.values = vals; t.count = v ? 2 : 1; e.tags = &t; e.tags_count = 1; return &e; }
static const char EA[] = "0129-+ .eEx\t:\xff/";
static void exprec(char *s, int l, int n) { s[l] = 0; exp1(s, one_tag("expiration", s)); if (l < n) for (int i = 0; EA[i]; i++) { s[l] = EA[i]; exprec(s, l + 1, n); } s[l] = 0; }
static void exptext(void)
{
    int L = (int)sizeof EA - 1, n = mc_thorough() ? 6 : 5; char s[8] = ""; int a = mc_choose(L), b = mc_choose(L); s[0] = EA[a]; s[1] = EA[b];
    if (!b) { exp1("", one_tag("expiration", "")); s[1] = 0; exp1(s, one_tag("expiration", s)); s[1] = EA[b]; }
    exprec(s, 2, n); mc_step(); mc_conform(); mc_outcome(a * 100 + b); s[2] = 0; MC_NOTE("all expiration texts beginning with %s", mc_q(s));
}
static void expnumbers(void)
{
    int bit = mc_choose(72), form = mc_choose(6); char s[80];
    for (int d = -2; d <= 2; d++) {
        i128 x = ((i128)1 << bit) + d; if (x < 0) x = 0; char t[50]; int l = 0; char r[50]; i128 y = x; do { r[l++] = (char)('0' + (int)(y % 10)); y /= 10; } while (y); for (int i = 0; i < l; i++) t[i] = r[l - 1 - i]; t[l] = 0;
        sprintf(s, form == 0 ? "%s" : form == 1 ? "00%s" : form == 2 ? "%s0" : form == 3 ? " %s" : form == 4 ? "%s " : "-%s", t); exp1(s, one_tag("expiration", s));
        exp1(NULL, one_tag("Expiration", s)); exp1(NULL, one_tag("expiratio", s)); exp1(NULL, one_tag("expirations", s)); exp1(NULL, one_tag("expiration", NULL));
        nostr_event e; char *v0[3] = { "expiration", s, "12" }, *v1[2] = { "expiration", "77" }, *v2[2] = { "e", "88" }; nostr_tag tg[3] = { { v2, 2 }, { v0, 3 }, { v1, 2 } }; memset(&e, 0, sizeof e); e.tags = tg; e.tags_count = 3; exp1(s, &e); e.tags_count = 2; exp1(s, &e); e.tags_count = 1; exp1(NULL, &e); e.tags_count = 0; e.tags = NULL; exp1(NULL, &e);
    }
    mc_step(); mc_conform(); mc_outcome(bit * 6 + form);
}
static void timestamps(void)
{
    int n = mc_choose(MC_LEN(NOWS)), k = mc_choose(MC_LEN(SKEW)); NOW = NOWS[n]; i128 lim = (i128)NOW + SKEW[k];
    i128 C[32]; int c = 0; for (int d = -2; d <= 2; d++) { C[c++] = lim + d; C[c++] = (i128)NOW + d; C[c++] = d; C[c++] = (i128)INT64_MAX + d; C[c++] = (i128)INT64_MIN + d; }
    for (int i = 0; i < c; i++) if (C[i] >= INT64_MIN && C[i] <= INT64_MAX) { int w = C[i] <= lim, g = nostr_validate_timestamp((int64_t)C[i], SKEW[k]); mc_eval(1); if (g != w) mc_report("timestamp", "created_at %lld at time %lld with skew %lld: %s", (long long)C[i], (long long)NOW, (long long)SKEW[k], g ? "accepted" : "refused"); }
    if (nostr_timestamp_now() != NOW) mc_report("now", "now is %lld", (long long)nostr_timestamp_now());
    mc_step(); mc_conform(); mc_outcome(n * 20 + k);
}
/* full validation */
static void full1(nostr_event *e, int64_t skew, unsigned want, const char *what)
{
    nostr_validation_result_t r; memset(&r, 0xEE, sizeof r); refev_hash(e); uint64_t h = refev_hash(e);
    nostr_relay_error_t x = nostr_event_validate_full(e, skew, &r); mc_eval(1);
    static const char *F[] = { "created_at", "expiration", "id", "sig" };
    static const nostr_relay_error_t C[] = { NOSTR_RELAY_ERR_FUTURE_EVENT, NOSTR_RELAY_ERR_EXPIRED_EVENT, NOSTR_RELAY_ERR_ID_MISMATCH, NOSTR_RELAY_ERR_SIG_MISMATCH };
    if ((x == NOSTR_RELAY_OK) != (want == 0)) mc_report(want ? "invalid-accepted" : "valid-refused", "%s: %s (%d), defects %#x, created_at %lld now %lld skew %lld", what, x == NOSTR_RELAY_OK ? "accepted" : "refused", x, want, (long long)e->created_at, (long long)NOW, (long long)skew);
    else {
        if (r.valid != (x == NOSTR_RELAY_OK)) mc_report("result-valid", "%s: valid=%d for %d", what, r.valid, x);
        if (r.error_code != x) mc_report("result-code", "%s: error_code=%d, returned %d", what, r.error_code, x);
        if (x) { int ok = 0; for (int i = 0; i < 4; i++) if (want >> i & 1 && C[i] == x && memchr(r.error_field, 0, sizeof r.error_field) && !strcmp(r.error_field, F[i])) ok = 1; if (!ok) mc_report("result-field", "%s: error %d field %s for defects %#x", what, x, mc_qn(r.error_field, 20), want); if (!memchr(r.error_message, 0, sizeof r.error_message) || !r.error_message[0]) mc_report("result-message", "%s: message missing or unterminated", what); }
    }
    if (refev_hash(e) != h) mc_report("modified", "%s: validation modified the event", what);
    mc_state(mc_hash_u64(MC_H0, want * 100 + x));
}
static void fullval(void)
{
    int n = mc_choose(MC_LEN(NOWS)), k = mc_choose(MC_LEN(SKEW)), cj = mc_choose(6), xj = mc_choose(9); NOW = NOWS[n]; i128 lim = (i128)NOW + SKEW[k];
    i128 c = cj == 0 ? lim : cj == 1 ? lim + 1 : cj == 2 ? lim - 1 : cj == 3 ? (i128)INT64_MIN : cj == 4 ? (i128)INT64_MAX : (i128)0; if (c < INT64_MIN || c > INT64_MAX) mc_discard();
    if (!mc_thorough() && (n + k) % 2 && cj > 2) mc_discard();
    char xs[40] = ""; int has = 1; switch (xj) { case 0: has = 0; break; case 1: sprintf(xs, "%lld", (long long)(NOW ? NOW - 1 : 0)); break; case 2: sprintf(xs, "%lld", (long long)NOW); break; case 3: sprintf(xs, "%lld", (long long)(NOW < INT64_MAX ? NOW + 1 : NOW)); break; case 4: strcpy(xs, "soon"); break; case 5: strcpy(xs, "-5"); break; case 6: strcpy(xs, "1"); break; case 7: strcpy(xs, "0"); break; case 8: strcpy(xs, "9223372036854775807"); break; }
    nostr_event *e = refev_new(); e->kind = 1; e->created_at = (int64_t)c; nostr_event_set_content(e, "hi \"there\""); refev_tag(e, 2, "t", "x", 0, 0); if (has) refev_tag(e, 2, "expiration", xs, 0, 0);
    e->created_at = (int64_t)c; if (nostr_event_sign(e, &SK) != NOSTR_OK) { mc_report("sign", "signing created_at %lld failed", (long long)c); nostr_event_destroy(e); return; }
    int64_t xv; int xe = expjudge(has ? xs : NULL, &xv) == X_VAL && xv && NOW > xv; unsigned w = (c > lim ? 1 : 0) | (xe ? 2 : 0);
    full1(e, SKEW[k], w, "signed event");
    nostr_validation_result_t nr; if (nostr_event_validate_full(NULL, 0, &nr) == NOSTR_RELAY_OK || nr.valid || nostr_event_validate_full(e, 0, NULL) == NOSTR_RELAY_OK) mc_report("null", "NULL accepted");
    e->id[(n * 7 + k) & 31] ^= 1 << (cj & 7); full1(e, SKEW[k], w | 4 | 8, "one bit of the id changed"); e->id[(n * 7 + k) & 31] ^= 1 << (cj & 7);
    int sb = (n * 77 + k * 13 + cj * 5 + xj) & 63; e->sig[sb] ^= 0x10; full1(e, SKEW[k], w | 8, "one bit of the signature changed"); e->sig[sb] ^= 0x10;
    if (e->content) { e->content[0] ^= 1; full1(e, SKEW[k], w | 4 | 8, "content changed after signing"); if (xj < 2) { nostr_event_compute_id(e); full1(e, SKEW[k], w | 8, "re-hashed, not re-signed"); e->content[0] ^= 1; nostr_event_compute_id(e); } else e->content[0] ^= 1; }
    e->kind ^= 0x100; full1(e, SKEW[k], w | 4 | 8, "kind changed after signing"); e->kind ^= 0x100;
    char *tv = e->tags[0].values[1]; e->tags[0].values[1] = "y"; full1(e, SKEW[k], w | 4 | 8, "tag changed after signing"); e->tags[0].values[1] = tv;
    int64_t cc = e->created_at; e->created_at = cc - (cc > INT64_MIN ? 1 : 0); if (e->created_at != cc) full1(e, SKEW[k], ((i128)e->created_at > lim ? 1 : 0) | (xe ? 2 : 0) | 4 | 8, "created_at changed after signing"); e->created_at = cc;
    e->pubkey.data[31] ^= 1; full1(e, SKEW[k], w | 4 | 8, "author changed after signing"); e->pubkey.data[31] ^= 1;
    full1(e, SKEW[k], w, "restored event"); nostr_event_destroy(e); mc_step(); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, n * 100 + k), cj * 10 + xj));
    MC_NOTE("now %lld skew %lld created_at %lld expiration %s", (long long)NOW, (long long)SKEW[k], (long long)c, has ? xs : "-");
}
/* every bit of id, pubkey and signature */
static void fullbits(void)
{
    int byte = mc_choose(128); NOW = 1700000000; nostr_event *e = refev_new(); e->created_at = 1699999999; nostr_event_set_content(e, "x"); e->created_at = 1699999999; nostr_event_sign(e, &SK);
    uint8_t *p = byte < 32 ? &e->id[byte] : byte < 64 ? &e->pubkey.data[byte - 32] : &e->sig[byte - 64];
    for (int b = 0; b < 8; b++) { *p ^= 1 << b; full1(e, 900, byte < 64 ? 12 : 8, "one bit changed"); *p ^= 1 << b; }
    full1(e, 900, 0, "restored"); nostr_event_destroy(e); mc_step(); mc_conform(); mc_outcome(byte);
}
/* -------- text predicates -------- */
static int is_hex(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); }
enum { A_NO, A_YES, A_ANY };
static int addr(const char *s)
{
    size_t n = strspn(s, "0123456789"); if (!n || s[n] != ':') return A_NO;
    const char *p = s + n + 1; for (int i = 0; i < 64; i++) if (!p[i] || !is_hex((unsigned char)p[i])) return A_NO;
    if (p[64] != ':') return A_NO;
    return n > 5 || (n > 1 && s[0] == '0') || atoi(s) > 65535 ? A_ANY : A_YES;
}
static void t1(const char *s, size_t n)
{
    char *c = guard_buf(0, n + 1); memcpy(c, s, n); c[n] = 0; mc_eval(4);
    int hx = n > 0, su = n >= 1 && n <= 64; for (size_t i = 0; i < n; i++) { if (!is_hex((unsigned char)s[i])) hx = 0; if ((unsigned char)s[i] < 32 || (unsigned char)s[i] > 126) su = 0; }
    if (nostr_validate_hex_prefix(c) != (hx && n <= 64)) mc_report("hex-prefix", "%s: %d", mc_qn(s, n), !(hx && n <= 64));
    if (nostr_validate_hex64(c) != (hx && n == 64)) mc_report("hex64", "%s: %d", mc_qn(s, n), !(hx && n == 64));
    if (nostr_validate_subscription_id(c) != su) mc_report("subscription-id", "%s: %d", mc_qn(s, n), !su);
    int a = addr(c); if (a != A_ANY && nostr_validate_address(c) != (a == A_YES)) mc_report("address", "%s: %d", mc_qn(s, n), a != A_YES);
    int ix = n == 1 && ((s[0] >= 'a' && s[0] <= 'z') || (s[0] >= 'A' && s[0] <= 'Z')); if (nostr_tag_is_indexable(c) != ix) mc_report("indexable", "%s: %d", mc_qn(s, n), !ix);
}
static const char *HX = "0123456789abcdef0f1e2d3c4b5a69788796a5b4c3d2e1f00123456789abcdef";
static void shorttexts(void)
{
    int a = mc_choose(256); char s[4] = { 0 }; if (!a) { t1("", 0); } else { s[0] = (char)a; t1(s, 1); for (int b = 1; b < 256; b++) { s[1] = (char)b; t1(s, 2); } } mc_step(); mc_conform(); mc_outcome(a);
}
static void lentexts(void)
{
    int n = mc_choose(140), k = mc_choose(4); char s[300]; for (int i = 0; i < n; i++) s[i] = k == 0 ? HX[i & 63] : k == 1 ? 'Z' : k == 2 ? ' ' : '~'; t1(s, n);
    for (int p = 0; p < n; p++) for (int c = 1; c < 256; c++) { char o = s[p]; s[p] = (char)c; t1(s, n); s[p] = o; }
    mc_step(); mc_conform(); mc_outcome(n * 4 + k);
}
static void addresses(void)
{
    static const char *KS[] = { "0", "1", "30023", "65535", "65536", "00", "030023", "", "-1", "+1", " 1", "1 ", "0x1", "1e3", "30023.0", "99999999999999999999" }; static const char *DS[] = { "", "x", ":", "a:b:c", "\xc3\xa9", " ", "very long identifier 0123456789012345678901234567890123456789012345678901234567890123456789" };
    int k = mc_choose(MC_LEN(KS)), d = mc_choose(MC_LEN(DS)); char s[400];
    for (int n = 0; n <= 130; n++) { int l = sprintf(s, "%s:", KS[k]); for (int i = 0; i < n; i++) s[l++] = HX[i & 63]; l += sprintf(s + l, ":%s", DS[d]); t1(s, l); s[l - 1 - strlen(DS[d])] = 0; t1(s, strlen(s)); }
    int l = sprintf(s, "%s:%s:%s", KS[k], HX, DS[d]); for (int i = 0; i <= l; i++) { char o = s[i]; s[i] = 0; t1(s, i); s[i] = o; }
    for (int i = 0; i < l; i++) { for (int c = 1; c < 256; c++) { char o = s[i]; s[i] = (char)c; t1(s, l); s[i] = o; } char t[400]; memcpy(t, s, i); strcpy(t + i, s + i + 1); t1(t, l - 1); memcpy(t, s, i + 1); strcpy(t + i + 1, s + i); t1(t, l + 1); }
    mc_step(); mc_conform(); mc_outcome(k * 10 + d);
}
static void errfmt(void)
{
    static const int ML[] = { 0, 1, 5, 100, 254, 255 }, FL[] = { 0, 1, 7, 62, 63 }; int m = MC_PICK(ML), f = MC_PICK(FL); nostr_validation_result_t r; memset(&r, 0, sizeof r); memset(r.error_message, 'M', m); memset(r.error_field, 'F', f);
    char ref[600]; size_t L = nostr_validation_error_format(&r, ref, sizeof ref);
    MC_CHECK(L == strlen(ref), "format-length", "returned %zu, text has %zu", L, strlen(ref));
    MC_CHECK(!strncmp(ref, "invalid:", 8) && (!m || strstr(ref, r.error_message)) && (!f || strstr(ref, r.error_field)), "format-text", "text %s", mc_q(ref));
    for (size_t n = 0; n <= L + 3; n++) { char *b = guard_buf(1, n); size_t g = nostr_validation_error_format(&r, b, n); mc_eval(1);
        if (guard_under(b)) mc_report("format-underrun", "size %zu", n);
        if (!n) { if (g) mc_report("format-zero", "size 0 returns %zu", g); continue; }
        if (!memchr(b, 0, n)) { mc_report("format-unterminated", "size %zu", n); continue; }
        if (n > L) { if (g != L || strcmp(b, ref)) mc_report("format-differs", "size %zu: %zu %s", n, g, mc_q(b)); }
        else if (strncmp(b, ref, strlen(b)) || (g != 0 && g != strlen(b))) mc_report("format-truncated", "size %zu of %zu: returns %zu, text %s", n, L + 1, g, mc_q(b)); }
    MC_CHECK(!nostr_validation_error_format(NULL, ref, 10) && !nostr_validation_error_format(&r, NULL, 10), "null", "NULL accepted");
    mc_step(); mc_conform(); mc_outcome(m * 1000 + f);
}
/* -------- tag accessors -------- */
static const struct { const char *v[4]; int n; } AT[] = {
    { { "e" }, 1 }, { { "e", "1" }, 2 }, { { "e", "0123456789abcdef0f1e2d3c4b5a69788796a5b4c3d2e1f00123456789abcdef", "x" }, 3 }, { { "p", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" }, 2 }, { { "p", "0123456789ABCDEF0f1e2d3c4b5a69788796a5b4c3d2e1f00123456789abcdef" }, 2 },
    { { "d", "" }, 2 }, { { "d", "x", "y", "z" }, 4 }, { { "", "e" }, 2 }, { { "ee", "e" }, 2 }, { { "E", "1" }, 2 }, { { NULL }, 0 }, { { "e", "0123456789abcdef0f1e2d3c4b5a69788796a5b4c3d2e1f00123456789abcde" }, 2 }, { { "e", "" }, 2 } };
enum { NAT = MC_LEN(AT) };
static void accessors(void)
{
    int n = mc_thorough() ? 5 : 4, k[5], c = 0; for (int i = 0; i < n; i++) { k[i] = mc_choose(NAT + 1); if (!k[i]) break; c++; }
    nostr_event e; memset(&e, 0, sizeof e); nostr_tag tg[5]; char *v[5][4]; for (int i = 0; i < c; i++) { for (int j = 0; j < 4; j++) v[i][j] = (char *)AT[k[i] - 1].v[j]; tg[i].values = v[i]; tg[i].count = AT[k[i] - 1].n; } e.tags = c ? tg : NULL; e.tags_count = c;
    for (int i = 0; i < 32; i++) { e.id[i] = (uint8_t)(i * 7 + 1); e.pubkey.data[i] = (uint8_t)(255 - i); }
    static const char *NM[] = { "e", "p", "d", "", "ee", "E", "x" }; fault_reset(); fault_track(1);
    for (int q = 0; q < 7; q++) {
        const char *fv = NULL, *all[5]; int na = 0, has = 0, first = -1; for (int i = 0; i < c; i++) if (tg[i].count && !strcmp(v[i][0], NM[q])) { has = 1; if (first < 0) first = i; if (tg[i].count > 1) { if (!na) fv = v[i][1]; all[na++] = v[i][1]; } }
        MC_CHECK(nostr_event_get_tag_value(&e, NM[q]) == fv, "tag-value", "value of %s is %s", mc_q(NM[q]), mc_q(nostr_event_get_tag_value(&e, NM[q])));
        MC_CHECK(nostr_event_has_tag(&e, NM[q]) == has, "has-tag", "%s: %d", mc_q(NM[q]), !has);
        MC_CHECK(nostr_event_find_tag(&e, NM[q]) == (first < 0 ? NULL : &tg[first]), "find-tag", "%s", mc_q(NM[q]));
        for (int m = 0; m <= c + 1; m++) { const char **o = (const char **)guard_buf(2, m * sizeof(char *)); size_t g = nostr_event_get_tag_values(&e, NM[q], o, m); int w = na < m ? na : m; MC_CHECK((int)g == w, "tag-values", "%s: %zu of %d (limit %d)", mc_q(NM[q]), g, na, m); for (int i = 0; i < w; i++) MC_CHECK(o[i] == all[i], "tag-values", "value %d of %s is %s", i, mc_q(NM[q]), mc_q(o[i])); mc_eval(1); }
        if (q == 2) MC_CHECK(nostr_event_get_d_tag(&e) == fv, "d-tag", "%s", mc_q(nostr_event_get_d_tag(&e)));
        if (q < 2) { size_t bn = 99; uint8_t (*b)[32] = q ? nostr_event_get_p_tags_binary(&e, &bn) : nostr_event_get_e_tags_binary(&e, &bn); size_t wn = 0; for (int i = 0; i < na; i++) { size_t h = 0; while (is_hex((unsigned char)all[i][h])) h++; if (h != 64 || all[i][64]) continue; MC_CHECK(b && wn < bn, "binary-missing", "%s: %zu values", NM[q], bn); char x[65]; ref_hex(b[wn], 32, x); MC_CHECK(!strcmp(x, all[i]), "binary", "%s value %zu is %s not %s", NM[q], wn, x, all[i]); wn++; } MC_CHECK(bn == wn && !b == !wn, "binary-count", "%s: %zu values, expected %zu", NM[q], bn, wn); nostr_free(b); }
    }
    MC_CHECK(nostr_event_get_tag_count(&e) == (size_t)c, "tag-count", "%zu", nostr_event_get_tag_count(&e));
    for (int i = 0; i <= c; i++) {
        size_t g = 77; const char **r = nostr_event_get_tag_at(&e, i, &g); const nostr_tag *t = nostr_event_get_tag(&e, i);
        if (i == c) { MC_CHECK(!r && !g && !t, "tag-at-end", "index %d of %d", i, c); continue; }
        MC_CHECK(r == (const char **)v[i] && g == tg[i].count, "tag-at", "index %d", i); MC_CHECK(t == &tg[i], "get-tag", "index %d", i);
        MC_CHECK(nostr_tag_get_value_count(t) == tg[i].count && nostr_tag_get_name(t) == (tg[i].count ? v[i][0] : NULL), "tag-name", "index %d", i);
        for (size_t j = 0; j <= tg[i].count; j++) MC_CHECK(nostr_tag_get_value(t, j) == (j < tg[i].count ? v[i][j] : NULL), "tag-value-at", "%d/%zu", i, j);
    }
    nostr_tag_iterator_t it; nostr_tag_iterator_init(&it, &e); for (int i = 0; i <= c; i++) { size_t l = 55; const char **r = nostr_tag_iterator_next(&it, &l); MC_CHECK(r == (i < c ? (const char **)v[i] : NULL) && l == (i < c ? tg[i].count : 0), "iterator", "step %d", i); }
    MC_CHECK(!nostr_tag_iterator_next(&it, NULL), "iterator-end", "iterator goes on after its end");
    nostr_tag_iterator_init(&it, &e); nostr_tag_info_t in; int i = 0; for (int guard = 0; guard < 9; guard++) { memset(&in, 0xEE, sizeof in); int g = nostr_tag_iterator_next_info(&it, &in); if (g && !in.name && !in.values_count) { MC_CHECK(i < c && !tg[i].count, "info-empty", "step %d yields an empty tag", i); i++; continue; } while (i < c && !tg[i].count) i++; MC_CHECK(g == (i < c), "info-iterator", "iteration %s at tag %d of %d", g ? "goes on" : "ends", i, c); if (!g) break; MC_CHECK(in.name == v[i][0] && in.values_count == tg[i].count - 1 && (tg[i].count == 1 || in.values == (const char **)v[i] + 1), "info", "tag %d", i); i++; }
    char hx[65], rx[65]; memset(hx, 'z', 65); nostr_event_get_id_hex(&e, hx); ref_hex(e.id, 32, rx); MC_CHECK(!strcmp(hx, rx), "id-hex", "%s", hx); nostr_event_get_pubkey_hex(&e, hx); ref_hex(e.pubkey.data, 32, rx); MC_CHECK(!strcmp(hx, rx) && nostr_event_get_id(&e) == e.id && nostr_event_get_pubkey(&e) == e.pubkey.data, "pubkey-hex", "%s", hx);
    MC_CHECK(!fault_live(), "leak", "%s", fault_live_desc()); fault_track(0); mc_step(); mc_conform(); uint64_t h = MC_H0; for (int j = 0; j < c; j++) h = mc_hash_u64(h, k[j]); mc_outcome(h);
}
static void errstrings(void)
{
    MC_CHECK(!strcmp(nostr_relay_error_string(NOSTR_RELAY_OK), "OK"), "ok-string", "%s", nostr_relay_error_string(NOSTR_RELAY_OK));
    int unk = -1000; const char *u = nostr_relay_error_string((nostr_relay_error_t)unk); MC_CHECK(u && *u, "unknown-string", "none");
    for (int i = NOSTR_RELAY_OK; i <= NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE; i++) { const char *s = nostr_relay_error_string((nostr_relay_error_t)i); MC_CHECK(s && *s && strcmp(s, u), "error-string", "code %d", i); for (int j = 0; j < i; j++) MC_CHECK(strcmp(s, nostr_relay_error_string((nostr_relay_error_t)j)), "error-string", "codes %d and %d", i, j); }
    mc_step(); mc_conform(); mc_outcome(1);
}
static void nulls(void)
{
    size_t n = 9; nostr_tag_info_t in; nostr_tag_iterator_t it; const char *o[2];
    MC_CHECK(!nostr_validate_hex64(NULL) && !nostr_validate_hex_prefix(NULL) && !nostr_validate_subscription_id(NULL) && !nostr_validate_address(NULL) && !nostr_tag_is_indexable(NULL), "null", "validators accept NULL");
    MC_CHECK(!nostr_event_get_tag_value(NULL, "e") && !nostr_event_has_tag(NULL, "e") && !nostr_event_get_tag_at(NULL, 0, &n) && n == 0 && !nostr_event_find_tag(NULL, "e") && !nostr_event_get_tag_values(NULL, "e", o, 2) && !nostr_event_get_expiration(NULL) && !nostr_event_is_expired(NULL, 1) && !nostr_event_get_tag(NULL, 0) && !nostr_event_get_tag_count(NULL) && !nostr_tag_get_name(NULL) && !nostr_tag_get_value(NULL, 0) && !nostr_tag_get_value_count(NULL) && !nostr_event_get_id(NULL) && !nostr_event_get_pubkey(NULL), "null", "accessors accept NULL");
    nostr_tag_iterator_init(&it, NULL); MC_CHECK(!nostr_tag_iterator_next(&it, &n) && !nostr_tag_iterator_next_info(&it, &in) && !nostr_tag_iterator_next(NULL, &n), "null", "iterator on NULL"); n = 9; MC_CHECK(!nostr_event_get_e_tags_binary(NULL, &n) && n == 0, "null", "binary"); mc_step(); mc_outcome(1);
}
static void oom(void)
{
    mc_set_dev_bound(1); int q = mc_choose(3); nostr_event e; memset(&e, 0, sizeof e); char *v[2] = { q ? "p" : "e", (char *)HX }; nostr_tag tg[2] = { { v, 2 }, { v, 2 } }; e.tags = tg; e.tags_count = 2; e.content = ""; fault_reset(); fault_track(1); size_t n = 9; int inj;
    if (q < 2) { fault_arm(); uint8_t (*b)[32] = q ? nostr_event_get_p_tags_binary(&e, &n) : nostr_event_get_e_tags_binary(&e, &n); fault_disarm(); inj = fault_injected(); MC_CHECK(inj ? !b && n == 0 : b && n == 2, "oom:binary", "%zu", n); nostr_free(b); }
    else { refev_id(&e, e.id); nostr_validation_result_t r; NOW = 1; fault_arm(); nostr_relay_error_t x = nostr_event_validate_full(&e, 0, &r); fault_disarm(); MC_CHECK(x != NOSTR_RELAY_OK && !r.valid && r.error_code == x, "oom:valid", "unsigned event accepted"); NOW = 1700000000; }
    MC_CHECK(!fault_live(), "oom:leak", "%s", fault_live_desc()); fault_track(0); mc_step(); mc_conform(); mc_outcome(q * 2 + (n == 2));
}
const mc_scenario mc_scenarios[] = {
    {"timestamps", timestamps, setup, 3, 0, "9 clock values x 14 skews x 25 boundary timestamps"},
    {"exptext", exptext, setup, 3, 60, "all expiration texts up to 5 (6) characters over 15"},
    {"expnumbers", expnumbers, setup, 3, 0, "expirations around all powers of two, 6 spellings, placements"},
    {"fullval", fullval, setup, 3, 60, "signed events: clock x skew x created_at x expiration x 8 alterations"},
    {"fullbits", fullbits, setup, 3, 0, "every bit of id, author and signature"},
    {"short", shorttexts, setup, 3, 0, "all texts of up to 2 bytes"},
    {"lengths", lentexts, setup, 3, 60, "every byte at every position of texts of 0..139 characters"},
    {"addresses", addresses, setup, 3, 60, "addresses: 16 kinds x 7 identifiers x all lengths, every byte replaced/removed/doubled"},
    {"errfmt", errfmt, setup, 3, 0, "error formatting for every buffer size"},
    {"accessors", accessors, setup, 3, 0, "all tag lists up to 4 (5) over 13 tags, every accessor"},
    {"errstrings", errstrings, setup, 3, 0, "error strings"},
    {"nulls", nulls, setup, 3, 0, "NULL arguments"},
    {"oom", oom, setup, 3, 0, "failing allocations"},
    MC_END
};
