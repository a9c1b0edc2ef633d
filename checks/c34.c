/* C34: NIP-11 relay information documents.
 *
 * Oracle: the document is written a second time by the harness from the same fields (own writer, own
 * member order) and both texts are compared as JSON values by an independent reader.  Output buffers
 * end at an inaccessible page; lists of NIPs are compared with a plain array after every operation.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rj.h"
#include "../lib/fault.h"
#include "../lib/guard.h"
#include <nostr.h>
#include <nostr_relay_protocol.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <inttypes.h>

static void setup(void) { fault_install(); }
/* ---- reference writer: fields of the structure, NIP-11 names ---- */
static ref_buf X; static int first;
static void key(const char *k) { if (!first) rb_put(&X, ","); first = 0; rb_json(&X, k); rb_put(&X, ":"); }
static void str(const char *k, const char *v) { if (v) { key(k); rb_json(&X, v); } }
static void num(const char *k, int64_t v) { if (v > 0) { key(k); rb_fmt(&X, "%" PRId64, v); } }
static void boolean(const char *k, int v) { key(k); rb_put(&X, v ? "true" : "false"); }
static void ints(const int32_t *a, size_t n) { rb_put(&X, "["); for (size_t i = 0; i < n; i++) rb_fmt(&X, "%s%d", i ? "," : "", a[i]); rb_put(&X, "]"); }
static void strs(const char *k, const char **a, size_t n) { if (!n || !a) return; key(k); rb_put(&X, "["); for (size_t i = 0; i < n; i++) { if (i) rb_put(&X, ","); rb_json(&X, a[i]); } rb_put(&X, "]"); }
static void lim(const nostr_relay_limitation_t *l)
{
    rb_put(&X, "{"); first = 1; boolean("auth_required", l->auth_required); boolean("payment_required", l->payment_required); boolean("restricted_writes", l->restricted_writes);
    num("max_message_length", l->max_message_length); num("max_subscriptions", l->max_subscriptions); num("max_filters", l->max_filters); num("max_limit", l->max_limit); num("max_subid_length", l->max_subid_length); num("max_event_tags", l->max_event_tags); num("max_content_length", l->max_content_length); num("min_pow_difficulty", l->min_pow_difficulty); num("created_at_lower_limit", l->created_at_lower_limit); num("created_at_upper_limit", l->created_at_upper_limit); num("default_limit", l->default_limit);
    rb_put(&X, "}"); first = 0;
}
static void fee(const nostr_relay_fee_t *f, int per, int kinds) { rb_put(&X, "{"); first = 1; key("amount"); rb_fmt(&X, "%" PRIu64, f->amount); str("unit", f->unit); if (per) num("period", f->period); if (kinds && f->kinds_count) { key("kinds"); ints(f->kinds, f->kinds_count); } rb_put(&X, "}"); first = 0; }
static void doc(const nostr_relay_info_t *i)
{
    X.n = 0; if (X.s) X.s[0] = 0; rb_put(&X, "{"); first = 1;
    str("terms_of_service", i->terms_of_service); str("privacy_policy", i->privacy_policy); str("version", i->version); str("software", i->software); str("contact", i->contact); str("self", i->self_pubkey); str("pubkey", i->pubkey); str("icon", i->icon); str("banner", i->banner); str("description", i->description); str("name", i->name); str("posting_policy", i->posting_policy); str("payments_url", i->payments_url);
    key("supported_nips"); ints(i->supported_nips, i->supported_nips_count); key("limitation"); lim(&i->limitation);
    if (i->retention_count) { key("retention"); rb_put(&X, "["); for (size_t k = 0; k < i->retention_count; k++) { const nostr_relay_retention_t *r = &i->retention[k]; rb_put(&X, k ? ",{" : "{"); first = 1; if (r->kinds_count) { key("kinds"); ints(r->kinds, r->kinds_count); } if (r->time) { key("time"); rb_fmt(&X, "%" PRId64, r->time); } num("count", r->count); rb_put(&X, "}"); } rb_put(&X, "]"); first = 0; }
    strs("relay_countries", i->relay_countries, i->relay_countries_count); strs("language_tags", i->language_tags, i->language_tags_count); strs("tags", i->tags, i->tags_count);
    if (i->fees.admission_count + i->fees.subscription_count + i->fees.publication_count) {
        key("fees"); rb_put(&X, "{"); first = 1;
        if (i->fees.admission_count) { key("admission"); rb_put(&X, "["); for (size_t k = 0; k < i->fees.admission_count; k++) { if (k) rb_put(&X, ","); fee(&i->fees.admission[k], 0, 0); } rb_put(&X, "]"); first = 0; }
        if (i->fees.subscription_count) { key("subscription"); rb_put(&X, "["); for (size_t k = 0; k < i->fees.subscription_count; k++) { if (k) rb_put(&X, ","); fee(&i->fees.subscription[k], 1, 0); } rb_put(&X, "]"); first = 0; }
        if (i->fees.publication_count) { key("publication"); rb_put(&X, "["); for (size_t k = 0; k < i->fees.publication_count; k++) { if (k) rb_put(&X, ","); fee(&i->fees.publication[k], 0, 1); } rb_put(&X, "]"); first = 0; }
        rb_put(&X, "}"); first = 0;
    }
    rb_put(&X, "}");
}
static int same(const rj *a, const rj *b, const char **why)
{
    if (a->t != b->t || a->count != b->count) { *why = a->key ? a->key : "size"; return 0; }
    switch (a->t) {
    case RJ_NUM: if (a->rawn != b->rawn || memcmp(a->raw, b->raw, a->rawn)) { if (a->is_int && b->is_int && a->i == b->i) return 1; *why = a->key ? a->key : "number"; return 0; } return 1;
    case RJ_STR: if (a->n != b->n || memcmp(a->s, b->s, a->n)) { *why = a->key ? a->key : "string"; return 0; } return 1;
    case RJ_ARR: for (const rj *x = a->child, *y = b->child; x; x = x->next, y = y->next) if (!same(x, y, why)) return 0; return 1;
    case RJ_OBJ: for (const rj *x = a->child; x; x = x->next) { if (rj_nkey(a, x->key) != 1 || rj_nkey(b, x->key) != 1) { *why = x->key; return 0; } if (!same(x, rj_get(b, x->key), why)) return 0; } return 1;
    default: return 1; }
}
static char BIG[1 << 20];
static size_t check(const char *what, nostr_relay_error_t r, size_t L, const char *b)
{
    if (r != NOSTR_RELAY_OK) { mc_report("refused", "%s: error %d", what, r); return 0; }
    if (strlen(b) != L) { mc_report("length", "%s: reported %zu, text has %zu", what, L, strlen(b)); return 0; }
    rj_reset(); const rj *g = rj_parse(b, L, 0), *w = rj_parse(X.s, X.n, 0); const char *why = "";
    if (!w) mc_fail("reference", "%s", mc_q(X.s));
    if (!g || g->t != RJ_OBJ) mc_report("not-json", "%s: %s", what, mc_q(b));
    else if (!same(g, w, &why) || !same(w, g, &why)) mc_report("fields", "%s: %s differs in %s", what, why, mc_q(b));
    mc_eval(1); return L;
}
static size_t whole(const nostr_relay_info_t *i, const char *what)
{
    doc(i); size_t L = 1; nostr_relay_error_t r = nostr_relay_info_serialize(i, BIG, sizeof BIG, &L); mc_step(); return check(what, r, L, BIG);
}
static size_t wholelim(const nostr_relay_limitation_t *l, const char *what)
{
    X.n = 0; if (X.s) X.s[0] = 0; lim(l); size_t L = 1; nostr_relay_error_t r = nostr_relay_limitation_serialize(l, BIG, sizeof BIG, &L); mc_step(); return check(what, r, L, BIG);
}
#define NS 13
static const char **sf(nostr_relay_info_t *i, int k) { const char **f[NS] = { &i->name, &i->description, &i->banner, &i->icon, &i->pubkey, &i->self_pubkey, &i->contact, &i->software, &i->version, &i->privacy_policy, &i->terms_of_service, &i->posting_policy, &i->payments_url }; return f[k]; }
static const char *CC[] = { "CA", "", "EU", "de\"x\\", "*" }; static int32_t KN[] = { 0, 1, 30023, -7, 2147483647, -2147483647 - 1, 65535 };
static nostr_relay_retention_t RT[4] = { { KN, 3, 3600, 0 }, { NULL, 0, 0, 100 }, { KN + 1, 1, -1, 2147483647 }, { KN, 7, 4102444800LL, 0 } };
static nostr_relay_fee_t FA[3] = { { 1000, "msats", 0, NULL, 0 }, { 0, NULL, 0, NULL, 0 }, { 4294967296ULL, "sat\"s", 0, NULL, 0 } }, FS[3] = { { 5000, "msats", 2628003, NULL, 0 }, { 1, NULL, 0, NULL, 0 }, { 2147483648ULL, "", 4294967295u, NULL, 0 } }, FP[3] = { { 100, "msats", 0, KN, 2 }, { 7, NULL, 0, NULL, 0 }, { 9, "x", 0, KN, 7 } };
static void parts(nostr_relay_info_t *i, int m)
{
    if (m & 1) { i->retention = RT; i->retention_count = 4; } if (m & 2) { i->relay_countries = CC; i->relay_countries_count = 5; } if (m & 4) { i->language_tags = CC + 1; i->language_tags_count = 3; } if (m & 8) { i->tags = CC + 2; i->tags_count = 1; }
    if (m & 16) { i->fees.admission = FA; i->fees.admission_count = 3; } if (m & 32) { i->fees.subscription = FS; i->fees.subscription_count = 3; } if (m & 64) { i->fees.publication = FP; i->fees.publication_count = 3; } if (m & 128) { i->supported_nips = KN; i->supported_nips_count = 7; }
}
static void subsets(void)
{
    int hi = mc_choose(256); nostr_relay_info_t i;
    for (int lo = 0; lo < (1 << NS); lo++) { int pc = __builtin_popcount(lo); if (!mc_thorough() && hi && hi != 255 && pc > 1 && pc < NS - 1) continue; nostr_relay_info_init(&i); parts(&i, hi); for (int k = 0; k < NS; k++) if (lo >> k & 1) *sf(&i, k) = k & 1 ? "text \xe2\x9c\x93 \"q\"" : k & 2 ? "" : "https://a/b?c=d&e"; if (lo & 64) { memset(&i.limitation, 0, sizeof i.limitation); } whole(&i, "subset"); }
    mc_conform(); mc_outcome(hi); mc_state(hi); MC_NOTE("parts %#x with all subsets of 13 texts", hi);
}
static void texts(void)
{
    int a = mc_choose(255) + 1; char s[8]; nostr_relay_info_t i; nostr_relay_info_init(&i); const char *one[1] = { s }; nostr_relay_fee_t f = { 1, s, 0, NULL, 0 };
    for (int k = 0; k < NS + 6; k++) for (int b = 0; b < 256; b++) {
        s[0] = (char)a; s[1] = (char)b; s[2] = b ? 'z' : 0; s[3] = 0; nostr_relay_info_init(&i); memset(&i.limitation, 0, sizeof i.limitation);
        switch (k - NS) { case 0: i.tags = one; i.tags_count = 1; break; case 1: i.language_tags = one; i.language_tags_count = 1; break; case 2: i.relay_countries = one; i.relay_countries_count = 1; break; case 3: i.fees.admission = &f; i.fees.admission_count = 1; break; case 4: i.fees.subscription = &f; i.fees.subscription_count = 1; break; case 5: i.fees.publication = &f; i.fees.publication_count = 1; break; default: *sf(&i, k) = s; }
        whole(&i, "text"); }
    mc_conform(); mc_outcome(a); MC_NOTE("every text field with %s and every second byte", mc_qn(s, 1));
}
static void longtexts(void)
{
    static const int L[] = { 100, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 100000 }; static char s[100001]; int n = MC_PICK(L), k = mc_choose(NS), c = mc_choose(3); memset(s, c == 0 ? 'a' : c == 1 ? '"' : 1, n); s[n] = 0;
    nostr_relay_info_t i; nostr_relay_info_init(&i); *sf(&i, k) = s; whole(&i, "long text"); mc_conform(); mc_outcome(n * 50 + k * 3 + c);
}
static const int64_t V[] = { INT64_MIN, -1, 0, 1, 9, 10, 99, 2147483646, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 999999999999999LL, 1000000000000000LL, 9007199254740991LL, 9007199254740992LL, 9007199254740993LL, 99999999999999999LL, 1000000000000000001LL, INT64_MAX - 1, INT64_MAX };
static void numbers(void)
{
    int k = mc_choose(16), m = mc_choose(8); nostr_relay_info_t i; nostr_relay_limitation_t l;
    for (int a = 0; a < MC_LEN(V); a++) for (int b = 0; b < 16; b++) for (int z = 0; z < 2; z++) {
        nostr_relay_info_init(&i); if (z) memset(&i.limitation, 0, sizeof i.limitation); i.limitation.auth_required = m & 1; i.limitation.payment_required = !!(m & 2); i.limitation.restricted_writes = !!(m & 4);
        nostr_relay_fee_t f[2] = { { 0, "u", 0, NULL, 0 }, { 3, NULL, 0, NULL, 0 } }; nostr_relay_retention_t r[2] = { { NULL, 0, 0, 0 }, { NULL, 0, 5, 0 } }; int nip = 0, useR = 0, useF = 0;
        for (int w = 0; w < 2; w++) { int q = w ? b : k; int64_t v = w ? V[(a * 7 + b) % MC_LEN(V)] : V[a]; int32_t v32 = v > INT32_MAX || v < INT32_MIN ? (int32_t)(v & 0x7fffffff) : (int32_t)v; nostr_relay_limitation_t *o = &i.limitation;
            switch (q) { case 0: o->max_message_length = v32; break; case 1: o->max_subscriptions = v32; break; case 2: o->max_filters = v32; break; case 3: o->max_limit = v32; break; case 4: o->max_subid_length = v32; break; case 5: o->max_event_tags = v32; break; case 6: o->max_content_length = v32; break; case 7: o->min_pow_difficulty = v32; break; case 8: o->default_limit = v32; break; case 9: o->created_at_lower_limit = v; break; case 10: o->created_at_upper_limit = v; break; case 11: f[0].amount = (uint64_t)v; useF = 1; break; case 12: f[0].period = (uint32_t)v; useF = 1; break; case 13: r[0].time = v; useR = 1; break; case 14: r[0].count = v32; useR = 1; break; case 15: nip = v32; i.supported_nips = &nip; i.supported_nips_count = 1; break; } }
        if (useF) { i.fees.subscription = f; i.fees.subscription_count = 2; i.fees.admission = f; i.fees.admission_count = 1; i.fees.publication = f; i.fees.publication_count = 1; } if (useR) { i.retention = r; i.retention_count = 2; }
        whole(&i, "number"); l = i.limitation; wholelim(&l, "limitation"); }
    mc_conform(); mc_outcome(k * 8 + m); MC_NOTE("numeric field %d with every other at boundary values", k);
}
static void lists(void)
{
    static const int N[] = { 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 64, 100, 255, 256, 300 }; int n = MC_PICK(N), k = mc_choose(6); static int32_t iv[300]; static const char *sv[300]; static char sb[300][8]; static nostr_relay_fee_t fv[300]; static nostr_relay_retention_t rv[300];
    nostr_relay_info_t i; nostr_relay_info_init(&i); for (int j = 0; j < n; j++) { iv[j] = j * 37 % 65536 - (j % 5 == 4); sprintf(sb[j], "s%d", j); sv[j] = sb[j]; fv[j].amount = j; fv[j].unit = j & 1 ? sb[j] : NULL; fv[j].kinds = iv; fv[j].kinds_count = j % 9; fv[j].period = j % 3; rv[j].kinds = iv; rv[j].kinds_count = (n - j) % 23; rv[j].time = j % 4; rv[j].count = j % 3; }
    switch (k) { case 0: i.supported_nips = iv; i.supported_nips_count = n; break; case 1: i.relay_countries = sv; i.relay_countries_count = n; break; case 2: i.language_tags = sv; i.language_tags_count = n; i.tags = sv; i.tags_count = n; break; case 3: i.fees.publication = fv; i.fees.publication_count = n; break; case 4: i.fees.subscription = i.fees.admission = fv; i.fees.subscription_count = i.fees.admission_count = n; break; case 5: i.retention = rv; i.retention_count = n; break; }
    whole(&i, "list"); mc_conform(); mc_outcome(n * 6 + k);
}
static void buffers(void)
{
    int d = mc_choose(24), lm = d >= 20; nostr_relay_info_t i; nostr_relay_info_init(&i); if (!lm) { parts(&i, d * 13); for (int k = 0; k < NS; k++) if (d >> (k % 4) & 1) *sf(&i, k) = k & 1 ? "\"\n" : "plain"; } else { if (d & 1) memset(&i.limitation, 0, sizeof i.limitation); if (d & 2) i.limitation.created_at_upper_limit = INT64_MAX; }
    size_t L = lm ? wholelim(&i.limitation, "buffers") : whole(&i, "buffers"); if (!L) return; char *ref = strdup(BIG); fault_reset(); fault_track(1);
    for (size_t n = 0; n <= L + 3; n++) { char *b = guard_buf(1, n); size_t l = 77; nostr_relay_error_t r = lm ? nostr_relay_limitation_serialize(&i.limitation, b, n, &l) : nostr_relay_info_serialize(&i, b, n, &l); mc_eval(1);
        if (guard_under(b)) mc_report("underrun", "size %zu", n);
        if (n > L) { if (r != NOSTR_RELAY_OK || l != L || strcmp(b, ref)) mc_report("sufficient", "size %zu for %zu characters: %d, length %zu", n, L, r, l); }
        else if (!n ? r == NOSTR_RELAY_OK : r != NOSTR_RELAY_ERR_BUFFER_TOO_SMALL) mc_report("too-small", "size %zu for %zu characters: %d", n, L, r);
        if (n % 50 == 0) { r = lm ? nostr_relay_limitation_serialize(&i.limitation, b, n, NULL) : nostr_relay_info_serialize(&i, b, n, NULL); if ((r == NOSTR_RELAY_OK) != (n > L)) mc_report("no-length", "size %zu without a length pointer: %d", n, r); } }
    if (fault_live()) mc_report("leak", "%s", fault_live_desc()); fault_track(0); free(ref); mc_conform(); mc_outcome(d);
}
/* histories of list operations against a plain array */
static void nips(void)
{
    int n = mc_thorough() ? 7 : 5, A[64], an = 0; nostr_relay_info_t i; nostr_relay_info_init(&i); fault_reset(); fault_track(1); uint64_t h = MC_H0; static const int32_t S1[] = { 42 }, S3[] = { 11, -5, 2147483647 };
    for (int k = 0; k < n; k++) {
        int op = mc_choose(9); nostr_relay_error_t r = NOSTR_RELAY_OK; mc_step(); h = mc_hash_u64(h, op); MC_NOTE("%s", ((const char *[]){ "add 1", "add 65", "set {}", "set {42}", "set three", "set own list", "set own tail", "set NULL", "free and init" })[op]);
        switch (op) {
        case 0: r = nostr_relay_info_add_nip(&i, 1); A[an++] = 1; break;
        case 1: r = nostr_relay_info_add_nip(&i, 65); A[an++] = 65; break;
        case 2: r = nostr_relay_info_set_nips(&i, S1, 0); an = 0; break;
        case 3: r = nostr_relay_info_set_nips(&i, S1, 1); an = 0; A[an++] = 42; break;
        case 4: r = nostr_relay_info_set_nips(&i, S3, 3); an = 0; for (int q = 0; q < 3; q++) A[an++] = S3[q]; break;
        case 5: r = nostr_relay_info_set_nips(&i, i.supported_nips, i.supported_nips_count); break;
        case 6: if (an) { r = nostr_relay_info_set_nips(&i, i.supported_nips + 1, i.supported_nips_count - 1); memmove(A, A + 1, sizeof(int) * --an); } break;
        case 7: r = nostr_relay_info_set_nips(&i, NULL, 0); an = 0; break;
        case 8: nostr_relay_info_free(&i); MC_CHECK(!fault_live(), "leak", "%s", fault_live_desc()); nostr_relay_info_init(&i); an = 0; break; }
        MC_CHECK(r == NOSTR_RELAY_OK, "list-refused", "operation %d: %d", op, r);
        MC_CHECK(i.supported_nips_count == (size_t)an, "list-count", "operation %d leaves %zu numbers, expected %d", op, i.supported_nips_count, an);
        for (int q = 0; q < an; q++) MC_CHECK(i.supported_nips[q] == A[q], "list-value", "number %d is %d, expected %d", q, i.supported_nips[q], A[q]);
        mc_state(mc_hash(MC_H0, A, an * sizeof(int)));
    }
    fault_track(0); whole(&i, "after list operations"); fault_track(1); nostr_relay_info_free(&i); nostr_relay_info_free(&i); MC_CHECK(!fault_live(), "leak", "%s", fault_live_desc()); fault_track(0); mc_conform(); mc_outcome(h);
}
static void longlist(void)
{
    int n = mc_choose(16) * 40 + 1; nostr_relay_info_t i; nostr_relay_info_init(&i); for (int k = 0; k < n; k++) { MC_CHECK(nostr_relay_info_add_nip(&i, k * 3) == NOSTR_RELAY_OK, "list-refused", "number %d", k); mc_step(); for (int q = 0; q <= k; q++) if (i.supported_nips[q] != q * 3) mc_fail("list-value", "after %d additions number %d is %d", k + 1, q, i.supported_nips[q]); }
    MC_CHECK(i.supported_nips_count == (size_t)n, "list-count", "%zu", i.supported_nips_count); whole(&i, "long list"); nostr_relay_info_free(&i); mc_conform(); mc_outcome(n);
}
/* numbers of every magnitude, added after and before others */
static void magnitudes(void)
{
    int k = mc_choose(33), neg = mc_choose(2), how = mc_choose(3); for (int d = -1; d <= 1; d++) { int64_t x = (k == 32 ? 0 : (int64_t)1 << k) + d; if (neg) x = -x; if (x > INT32_MAX || x < INT32_MIN) continue; int32_t v = (int32_t)x, L[] = { 7, v, 9, v };
        nostr_relay_info_t i; nostr_relay_info_init(&i); mc_step(); mc_eval(1); if (how == 2) MC_CHECK(nostr_relay_info_set_nips(&i, L, 4) == NOSTR_RELAY_OK, "list-refused", "set"); else { if (how) MC_CHECK(nostr_relay_info_set_nips(&i, L, 2) == NOSTR_RELAY_OK, "list-refused", "set"); for (int q = how * 2; q < 4; q++) MC_CHECK(nostr_relay_info_add_nip(&i, L[q]) == NOSTR_RELAY_OK, "list-refused", "add %d", L[q]); }
        MC_CHECK(i.supported_nips_count == 4, "list-count", "%zu", i.supported_nips_count); for (int q = 0; q < 4; q++) MC_CHECK(i.supported_nips[q] == L[q], "list-value", "number %d is %d, expected %d", q, i.supported_nips[q], L[q]); whole(&i, "large numbers"); nostr_relay_info_free(&i); }
    mc_conform(); mc_outcome(k * 6 + neg * 3 + how); MC_NOTE("numbers around %s2^%d", neg ? "-" : "", k);
}
/* owned parts are released */
static void *dup_(const void *p, size_t n) { void *q = malloc(n); memcpy(q, p, n); return q; }
static void owned(void)
{
    int m = mc_choose(256); nostr_relay_info_t i, t; nostr_relay_info_init(&i); nostr_relay_info_init(&t); parts(&t, m); fault_reset(); fault_track(1);
    if (t.retention) { i.retention = dup_(RT, sizeof RT); i.retention_count = 4; for (int k = 0; k < 4; k++) if (RT[k].kinds) i.retention[k].kinds = dup_(RT[k].kinds, 4 * RT[k].kinds_count); }
    if (t.relay_countries) { i.relay_countries = dup_(CC, sizeof CC); i.relay_countries_count = 5; } if (t.language_tags) { i.language_tags = dup_(CC, sizeof CC); i.language_tags_count = 5; } if (t.tags) { i.tags = dup_(CC, sizeof CC); i.tags_count = 5; }
    if (t.fees.admission) { i.fees.admission = dup_(FA, sizeof FA); i.fees.admission_count = 3; for (int k = 0; k < 3; k++) if (FA[k].unit) i.fees.admission[k].unit = strdup(FA[k].unit); }
    if (t.fees.subscription) { i.fees.subscription = dup_(FS, sizeof FS); i.fees.subscription_count = 3; for (int k = 0; k < 3; k++) if (FS[k].unit) i.fees.subscription[k].unit = strdup(FS[k].unit); }
    if (t.fees.publication) { i.fees.publication = dup_(FP, sizeof FP); i.fees.publication_count = 3; for (int k = 0; k < 3; k++) { if (FP[k].unit) i.fees.publication[k].unit = strdup(FP[k].unit); if (FP[k].kinds) i.fees.publication[k].kinds = dup_(FP[k].kinds, 4 * FP[k].kinds_count); } }
    if (t.supported_nips) nostr_relay_info_set_nips(&i, KN, 7);
    fault_track(0); whole(&i, "owned parts"); fault_track(1); nostr_relay_info_free(&i); MC_CHECK(!fault_live(), "leak", "parts %#x: %s", m, fault_live_desc()); nostr_relay_info_free(&i); fault_track(0); mc_conform(); mc_outcome(m);
}
static void oom(void)
{
    int m = mc_choose(16) * 17, lm = mc_choose(2); mc_set_dev_bound(mc_thorough() ? 2 : 1); nostr_relay_info_t i; nostr_relay_info_init(&i); parts(&i, m); i.name = "n\""; i.payments_url = "u"; doc(&i); if (lm) { X.n = 0; lim(&i.limitation); }
    fault_reset(); fault_track(1); size_t L = 3; fault_arm(); nostr_relay_error_t r = lm ? nostr_relay_limitation_serialize(&i.limitation, BIG, sizeof BIG, &L) : nostr_relay_info_serialize(&i, BIG, sizeof BIG, &L); fault_disarm(); mc_step();
    if (r == NOSTR_RELAY_OK) check("oom: incomplete", r, L, BIG); else MC_CHECK(fault_injected() && r == NOSTR_RELAY_ERR_MEMORY, "oom:error", "error %d", r);
    MC_CHECK(!fault_live(), "oom:leak", "%s", fault_live_desc()); fault_track(0); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, m * 2 + lm), r));
}
static void oomlist(void)
{
    int A[32], an = 0; mc_set_dev_bound(2); nostr_relay_info_t i; nostr_relay_info_init(&i); fault_reset(); fault_track(1); static const int32_t S3[] = { 11, -5, 7 };
    for (int k = 0; k < 5; k++) { int op = mc_choose(3), inj = fault_injected(); fault_arm(); nostr_relay_error_t r = op == 0 ? nostr_relay_info_add_nip(&i, k) : nostr_relay_info_set_nips(&i, S3, op == 1 ? 3 : 1); fault_disarm(); mc_step();
        if (r == NOSTR_RELAY_OK) { if (op == 0) A[an++] = k; else { an = op == 1 ? 3 : 1; for (int q = 0; q < an; q++) A[q] = S3[q]; } } else MC_CHECK(fault_injected() > inj, "oom:error", "error %d without a failure", r);
        MC_CHECK(i.supported_nips_count == (size_t)an, "oom:list", "operation %d (%s) leaves %zu numbers, expected %d", op, r ? "failed" : "done", i.supported_nips_count, an); for (int q = 0; q < an; q++) MC_CHECK(i.supported_nips[q] == A[q], "oom:list", "number %d is %d", q, i.supported_nips[q]); }
    nostr_relay_info_free(&i); MC_CHECK(!fault_live(), "oom:leak", "%s", fault_live_desc()); fault_track(0); mc_conform(); mc_outcome(mc_hash(MC_H0, A, an * 4));
}
static void nulls(void)
{
    char b[10]; size_t l; nostr_relay_info_t i; nostr_relay_info_init(&i);
    MC_CHECK(nostr_relay_info_serialize(NULL, b, 10, &l) && nostr_relay_info_serialize(&i, NULL, 10, &l) && nostr_relay_limitation_serialize(NULL, b, 10, &l) && nostr_relay_limitation_serialize(&i.limitation, NULL, 10, &l) && nostr_relay_info_add_nip(NULL, 1) && nostr_relay_info_set_nips(NULL, NULL, 0), "null", "NULL accepted"); nostr_relay_info_free(NULL); nostr_relay_info_init(NULL); nostr_relay_limitation_init(NULL); mc_step(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    {"subsets", subsets, setup, 3, 120, "all subsets of 8 parts x subsets of 13 texts (quick: at most one present or missing when some but not all parts are)"},
    {"texts", texts, setup, 3, 60, "all byte pairs in every text"},
    {"longtexts", longtexts, setup, 3, 60, "texts up to 100000 characters"},
    {"numbers", numbers, setup, 3, 60, "all pairs of 16 numeric fields at boundary values x flags"},
    {"lists", lists, setup, 3, 0, "lists up to 300 elements"},
    {"buffers", buffers, setup, 3, 60, "every buffer size of 24 documents"},
    {"magnitudes", magnitudes, setup, 3, 0, "numbers around every power of two, added and set"},
    {"nips", nips, setup, 3, 0, "all sequences of 5 (7) of 9 list operations"},
    {"longlist", longlist, setup, 3, 0, "up to 601 additions"},
    {"owned", owned, setup, 3, 0, "release of every subset of owned parts"},
    {"oom", oom, setup, 3, 0, "every allocation failing in serialization (pairs)"},
    {"oomlist", oomlist, setup, 3, 0, "list operations with failing allocations"},
    {"nulls", nulls, setup, 3, 0, "NULL arguments"},
    MC_END
};
