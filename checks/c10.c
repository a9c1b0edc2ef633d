/* C10: client messages parse to exactly what was sent or are rejected.
 * Reference: an independent JSON reader plus the NIP-01/42/45 shapes written out. */
#include "judge.h"
#include "fault.h"
#include "guard.h"

static void setup(void) { fault_install(); nostr_init(); }
static int sub_ok(const rj *x) { if (!x || x->t != RJ_STR || x->n < 1 || x->n > 64) return 0; for (size_t i = 0; i < x->n; i++) { unsigned char c = x->s[i]; if (c < 32 || c > 126) return 0; } return 1; }
static const rj *at(const rj *a, int i) { const rj *x = a->child; while (x && i--) x = x->next; return x; }
static const char *const TY[] = { "EVENT", "REQ", "CLOSE", "AUTH", "COUNT" };
static const nostr_client_msg_type_t TV[] = { NOSTR_CLIENT_MSG_EVENT, NOSTR_CLIENT_MSG_REQ, NOSTR_CLIENT_MSG_CLOSE, NOSTR_CLIENT_MSG_AUTH, NOSTR_CLIENT_MSG_COUNT };
/* verdict; *type index into TY; *errs: bit set of acceptable error codes when MUST_FAIL */
static uint32_t errs; static int ty;
#define E(x) (1u << (int)(x))
static int judge1(const rj *o, int strict)
{
    errs = 0; ty = -1;
    if (!o || o->t != RJ_ARR || !o->count) { errs = E(NOSTR_RELAY_ERR_INVALID_JSON); return MUST_FAIL; }
    const rj *t = at(o, 0);
    if (t->t != RJ_STR || rj_has_nul(t)) { errs = E(NOSTR_RELAY_ERR_INVALID_JSON) | E(NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE); return MUST_FAIL; }
    for (int i = 0; i < 5; i++) if (!strcmp(t->s, TY[i])) ty = i;
    if (ty < 0) { errs = E(NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE); return MUST_FAIL; }
    int v = strict ? MUST_OK : EITHER, bad = 0;
    if (ty == 0 || ty == 3) {
        if (o->count < 2) { errs = E(NOSTR_RELAY_ERR_MISSING_FIELD); return MUST_FAIL; }
        if (o->count > 2) v = EITHER;   /* extra elements: ignored or refused */
        int w = jev_judge(at(o, 1), strict); if (w == MUST_FAIL) bad = 1; else if (w == EITHER) v = EITHER;
        if (bad) { errs = ~0u; return MUST_FAIL; }
        return v;
    }
    if (o->count < 2) { errs = E(NOSTR_RELAY_ERR_MISSING_FIELD); return MUST_FAIL; }
    if (!sub_ok(at(o, 1))) { bad = 1; errs |= E(NOSTR_RELAY_ERR_INVALID_SUBSCRIPTION_ID); if (at(o, 1)->t == RJ_STR && rj_has_nul(at(o, 1))) errs |= E(NOSTR_RELAY_ERR_INVALID_JSON); }
    if (ty == 2) { if (o->count > 2) v = EITHER; return bad ? MUST_FAIL : v; }
    int nf = o->count - 2;
    if (nf == 0) { v = EITHER; errs |= E(NOSTR_RELAY_ERR_MISSING_FIELD); }   /* a request without filters: refused or passed on with none */
    if (nf > NOSTR_DEFAULT_MAX_FILTERS) { bad = 1; errs |= E(NOSTR_RELAY_ERR_TOO_MANY_FILTERS); }
    for (int i = 0; i < nf; i++) {
        int d, w = jf_judge(at(o, 2 + i), strict, &d);
        if (w == MUST_FAIL) { bad = 1; errs |= ~0u; } else if (w == EITHER || d) v = EITHER;
    }
    return bad ? MUST_FAIL : v;
}
static int judge(const rj *o, int strict) { int v = judge1(o, strict); if (!o || !strict || rj_has_nul(o)) errs |= E(NOSTR_RELAY_ERR_INVALID_JSON); return v; }
static int zeroed(const nostr_client_msg_t *m) { static const nostr_client_msg_t z; return !memcmp(&z, m, sizeof z); }
static void feed(const char *t, size_t n, const char *what)
{
    rj_reset(); int strict = rj_parse(t, n, 0) != NULL; rj_reset(); const rj *o = rj_parse(t, n, 1);
    int want = judge(o, strict);
    for (int entry = 0; entry < 2; entry++) {
        if ((entry && !n) || (!entry && memchr(t, 0, n))) continue;
        fault_reset(); fault_track(1);
        nostr_client_msg_t *m = (nostr_client_msg_t *)guard_buf(3, sizeof *m); memset(m, 0xEE, sizeof *m); char *c;
        if (entry) c = guard_copy(1, t, n); else { c = guard_buf(0, n + 1); memcpy(c, t, n); c[n] = 0; }
        nostr_relay_error_t r = nostr_client_msg_parse(c, entry ? n : 0, m); mc_step(); mc_eval(1);
        memset(c, 'Z', n);                                         /* nothing may refer to the text afterwards */
        uint64_t h = mc_hash_u64(MC_H0, (uint32_t)r);
        if (r == NOSTR_RELAY_OK) {
            if (want == MUST_FAIL) { mc_report("malformed-accepted", "%s: accepted %s", what, mc_qn(t, n)); }
            else {
                if (nostr_client_msg_get_type(m) != TV[ty] || m->type != TV[ty]) mc_report("type", "%s: type %d for %s", what, m->type, mc_qn(t, n));
                const nostr_event *e = nostr_client_msg_get_event(m); const char *sid = nostr_client_msg_get_subscription_id(m); size_t nf = 777; const nostr_filter_t *f = nostr_client_msg_get_filters(m, &nf); const char *why = "";
                if (ty == 0 || ty == 3) { if (!e || !fields_match(e, at(o, 1), &why)) mc_report("event", "%s: event %s differs for %s", what, why, mc_qn(t, n)); if (sid || f || nf) mc_report("accessor", "%s: extra parts reported for %s", what, mc_qn(t, n)); }
                else {
                    if (!sid || strcmp(sid, at(o, 1)->s)) mc_report("sub-id", "%s: subscription id %s for %s", what, mc_q(sid), mc_qn(t, n));
                    if (e) mc_report("accessor", "%s: event reported for %s", what, mc_qn(t, n));
                    size_t want_nf = ty == 2 ? 0 : (size_t)o->count - 2;
                    if (nf != want_nf || (nf && !f)) mc_report("filters", "%s: %zu filters for %s", what, nf, mc_qn(t, n));
                    else for (size_t i = 0; i < nf; i++) { int d; jf_judge(at(o, 2 + (int)i), 0, &d); const char *w; if (!d && (w = jf_differs(&f[i], at(o, 2 + (int)i)))) mc_report("filter", "%s: %s of filter %zu differs for %s", what, w, i, mc_qn(t, n)); }
                }
                h = mc_hash_u64(mc_hash(h, t, n), ty);
            }
        } else {
            if (want == MUST_OK) mc_report("valid-rejected", "%s: %d for %s", what, r, mc_qn(t, n));
            else if (want == MUST_FAIL && !(errs & E(r))) mc_report("error-code", "%s: error %d (%s) for %s", what, r, nostr_relay_error_string(r), mc_qn(t, n));
        }
        nostr_client_msg_free(m); if (!zeroed(m)) mc_report("free-state", "%s: message not reset by free: %s", what, mc_qn(t, n));
        nostr_client_msg_free(m);                                  /* freeing twice is harmless */
        if (fault_live()) mc_report("leak", "%s: %ld blocks (%s) for %s", what, fault_live(), fault_live_desc(), mc_qn(t, n));
        fault_track(0); mc_outcome(h); if (r == NOSTR_RELAY_OK) mc_state(h);
    }
}
#define H64 "00112233445566778899aabbccddeeff0123456789abcdef0123456789abcdef"
#define EV(c) "{\"id\":\"" H64 "\",\"pubkey\":\"" H64 "\",\"created_at\":1700000000,\"kind\":1,\"tags\":[[\"e\",\"x\"],[\"t\"]],\"content\":\"" c "\",\"sig\":\"" H64 H64 "\"}"
#define S64 "0123456789012345678901234567890123456789012345678901234567890123"
static const char *const FIRST[] = { "\"EVENT\"", "\"REQ\"", "\"CLOSE\"", "\"AUTH\"", "\"COUNT\"", "\"event\"", "\"EVENTS\"", "\"\"", "\"OK\"", "\"EOSE\"", "\"RE\\u0051\"", "\"REQ\\u0000\"", "\" REQ\"", "5", "null", "[\"REQ\"]", "{}", "true" };
static const char *const EL[] = {
    EV("hi"), EV("\\\"\\\\\\u0001\\ud83d\\ude00/"), "{\"id\":\"00\"}", "{\"kind\":70000}", "{\"kind\":\"1\"}",
    "{}", "{\"kinds\":[1,2],\"#t\":[\"a\"]}", "{\"ids\":[\"ab\"],\"limit\":5,\"search\":\"x y\"}", "{\"ids\":[\"AB\"]}", "{\"authors\":[1]}", "{\"since\":-1}", "{\"#e\":[\"ab\"]}", "{\"#p\":[\"" H64 "\"],\"until\":1700000000}",
    "\"sub\"", "\"\"", "\"" S64 "\"", "\"" S64 "x\"", "\"a\\nb\"", "\"\\u00e9\"", "\"a\\\"b\\\\\"", "\" ~\"", "\"\\u007f\"", "\"a\\u0000b\"", "5", "null", "true", "[]", "[{}]" };
static char T[70000];
static size_t join(const char *first, const char *const *el, int k)
{
    size_t n = sprintf(T, "[%s", first); for (int i = 0; i < k; i++) n += sprintf(T + n, ",%s", el[i]); n += sprintf(T + n, "]"); return n;
}
static void arrays(void)
{
    int f = mc_choose(MC_LEN(FIRST)), a = mc_choose(MC_LEN(EL) + 1);
    const char *el[4]; MC_NOTE("first %s, second %s", FIRST[f], a ? EL[a - 1] : "none");
    if (!a) { feed(T, join(FIRST[f], el, 0), "array"); feed("[]", 2, "empty"); mc_conform(); return; }
    el[0] = EL[a - 1]; feed(T, join(FIRST[f], el, 1), "array");
    for (int b = 0; b < MC_LEN(EL); b++) {
        el[1] = EL[b]; feed(T, join(FIRST[f], el, 2), "array");
        if (f < 5) for (int c = 0; c < MC_LEN(EL); c++) { el[2] = EL[c]; feed(T, join(FIRST[f], el, 3), "array"); if (mc_thorough() && f != 0 && f != 3) for (int d = 0; d < MC_LEN(EL); d++) { el[3] = EL[d]; feed(T, join(FIRST[f], el, 4), "array"); } }
    }
    mc_conform();
}
/* every subscription id length and every character at first/last position */
static void subids(void)
{
    int f = 1 + mc_choose(4), k = mc_choose(131); if (f == 3) mc_discard();
    const char *el[2]; char s[600], id[400]; el[0] = s; el[1] = "{\"kinds\":[7]}"; int cnt = f == 2 ? 1 : 2;
    memset(id, 'q', k); id[k] = 0; sprintf(s, "\"%s\"", id); feed(T, join(FIRST[f], el, cnt), "sub id length");
    if (k == 1 || k == 2 || k == 5 || k == 64) for (int p = 0; p < k; p += k > 3 ? k - 1 : 1) for (int c = 1; c < 256; c++) {
        memset(id, 'q', k); id[k] = 0;
        char *o = s; *o++ = '"'; for (int i = 0; i < k; i++) if (i != p) *o++ = 'q'; else if (c < 32 || c == '"' || c == '\\' || c == 127) o += sprintf(o, "\\u%04x", c); else if (c < 128) *o++ = c; else { *o++ = 0xc0 | c >> 6; *o++ = 0x80 | (c & 63); }
        *o++ = '"'; *o = 0; feed(T, join(FIRST[f], el, cnt), "sub id character");
    }
    mc_conform();
}
/* number of filters 0..40, with one malformed filter at each position */
static void nfilters(void)
{
    int f = mc_choose(2) ? 4 : 1, n = mc_choose(41), bad = mc_choose(n + 2) - 1, which = mc_choose(4);
    static const char *const BAD[] = { "{\"kinds\":5}", "[]", "{\"ids\":[\"xyz\"]}", "{\"limit\":-1}" };
    if (bad < 0 && which) mc_discard(); if (bad == n) mc_discard();
    size_t l = sprintf(T, "[%s,\"s\"", FIRST[f]);
    for (int i = 0; i < n; i++) l += i == bad ? sprintf(T + l, ",%s", BAD[which]) : sprintf(T + l, ",{\"kinds\":[%d],\"#x\":[\"v%d\"],\"ids\":[\"%02x\"]}", i, i, i);
    l += sprintf(T + l, "]"); feed(T, l, "number of filters"); MC_NOTE("%s with %d filters, bad at %d", FIRST[f], n, bad); mc_conform();
}
static const char *const BASE[] = {
    "[\"EVENT\"," EV("hi\\n") "]", "[\"REQ\",\"sub-1\",{\"ids\":[\"ab\"],\"kinds\":[1,30023],\"#e\":[\"" H64 "\"],\"#t\":[\"x\",\"\"],\"since\":1,\"until\":99,\"limit\":10},{\"search\":\"q\"}]",
    "[\"CLOSE\",\"sub-1\"]", "[\"AUTH\"," EV("") "]", " [ \"COUNT\" , \"c\" , { \"authors\" : [ \"" H64 "\" ] } ] " };
static void truncate_(void)
{
    int b = mc_choose(5); size_t n = strlen(BASE[b]); int cut = mc_choose((int)n + 1); feed(BASE[b], cut, "truncated"); mc_conform();
}
static const char INS[] = "{}[]\",:\\0-1e. \nu";
static void mutate(void)
{
    int b = mc_choose(mc_thorough() ? 5 : 3); if (!mc_thorough() && b == 0) mc_discard(); static char o[2000], q[2100]; size_t n = strlen(BASE[b]); strcpy(o, BASE[b]); int pos = mc_choose((int)n + 1); MC_NOTE("base %d position %d", b, pos);
    if (pos < (int)n) { char keep = o[pos]; for (int c = 0; c < 256; c++) if ((char)c != keep) { o[pos] = c; feed(o, n, "one byte replaced"); } o[pos] = keep; }
    memcpy(q, o, pos); if (pos < (int)n) { memcpy(q + pos, o + pos + 1, n - pos - 1); feed(q, n - 1, "one byte deleted"); }
    for (int c = 0; c < (int)sizeof INS; c++) { q[pos] = INS[c]; memcpy(q + pos + 1, o + pos, n - pos); feed(q, n + 1, "one byte inserted"); }
    mc_conform();
}
static void frames(void)
{
    static const char *const PRE[] = { "", " ", "\n\t\r", "\xef\xbb\xbf", "[", "x", "{}", "null," };
    static const char *const POST[] = { "", " ", "\r\n", "x", "]", "[]", ",", "\"", "{}", "null", "//", "\x01", ",[\"CLOSE\",\"x\"]" };
    const char *p = MC_PICK(PRE), *q = MC_PICK(POST);
    for (int b = 0; b < 5; b++) { size_t n = sprintf(T, "%s%s%s", p, BASE[b], q); feed(T, n, "frame"); }
    static const char *const ROOT[] = { "", " ", "null", "5", "\"REQ\"", "{}", "{\"0\":\"REQ\"}", "[", "]", "[]", "[[]]", "[null]", "[\"REQ\"", "[\"REQ\",]", "[,\"REQ\"]", "[\"CLOSE\" \"a\"]", "['CLOSE','a']" };
    if (p == PRE[0] && q == POST[0]) for (int i = 0; i < MC_LEN(ROOT); i++) feed(ROOT[i], strlen(ROOT[i]), "root");
    mc_conform();
}
static void oom(void)
{
    mc_set_dev_bound(mc_thorough() ? 2 : 1);
    int b = mc_choose(5); fault_reset(); fault_track(1); fault_arm();
    nostr_client_msg_t m; memset(&m, 0xEE, sizeof m);
    nostr_relay_error_t r = nostr_client_msg_parse(BASE[b], strlen(BASE[b]), &m); mc_step(); fault_disarm(); int inj = fault_injected();
    rj_reset(); const rj *o = rj_parse(BASE[b], strlen(BASE[b]), 1); judge(o, 1);
    MC_NOTE("%s with %d failed allocations -> %d", TY[ty], inj, r);
    if (r == NOSTR_RELAY_OK) {
        const char *why = ""; const nostr_event *e = nostr_client_msg_get_event(&m);
        if (ty == 0 || ty == 3) MC_CHECK(e && fields_match(e, at(o, 1), &why), "oom:altered", "%s delivered with %s altered", TY[ty], why);
        else if (ty != 2) { size_t nf; const nostr_filter_t *f = nostr_client_msg_get_filters(&m, &nf); MC_CHECK(nf == (size_t)o->count - 2, "oom:dropped", "%zu filters", nf); for (size_t i = 0; i < nf; i++) MC_CHECK(!jf_differs(&f[i], at(o, 2 + (int)i)), "oom:altered", "filter %zu altered", i); }
    } else MC_CHECK(inj, "valid-rejected", "%d", r);
    nostr_client_msg_free(&m); MC_CHECK(!fault_live(), "leak", "%s", fault_live_desc()); mc_outcome(mc_hash_u64(b, r)); mc_conform();
}
static void accessors(void)
{
    /* accessors on nothing, and on every type value */
    size_t n = 7; MC_CHECK(nostr_client_msg_get_type(NULL) == NOSTR_CLIENT_MSG_UNKNOWN && !nostr_client_msg_get_event(NULL) && !nostr_client_msg_get_subscription_id(NULL) && !nostr_client_msg_get_filters(NULL, &n) && n == 0, "null", "accessors on NULL");
    nostr_client_msg_free(NULL); nostr_client_msg_t m; MC_CHECK(nostr_client_msg_parse(NULL, 0, &m) != 0 && nostr_client_msg_parse("[]", 2, NULL) != 0, "null", "NULL arguments accepted");
    mc_outcome(1); mc_conform();
}
const mc_scenario mc_scenarios[] = {
    {"arrays", arrays, setup, 3, 0, "all message arrays: 18 first elements x 28 elements, arity 1..4 (5)"},
    {"subids", subids, setup, 3, 0, "every subscription id length 0..130 and every character"},
    {"nfilters", nfilters, setup, 3, 0, "0..40 filters, one malformed at each position"},
    {"truncate", truncate_, setup, 3, 0, "every prefix of five messages"},
    {"mutate", mutate, setup, 3, 0, "every byte of two (five) messages replaced by every value, deleted, structural characters inserted"},
    {"frames", frames, setup, 3, 0, "text before and after the message"},
    {"oom", oom, setup, 3, 0, "every single (pair of) failing allocation(s) per message type"},
    {"accessors", accessors, setup, 3, 0, "accessors on no message"},
    MC_END
};
