/* C03: event JSON round-trips; malformed JSON is rejected cleanly. */
#include "refev.h"
#include "fault.h"
#include "guard.h"
#include "judge.h"
#include <nostr_relay_protocol.h>

/* what must happen for this text; *root is the parsed text */
static int judge_text(const char *t, size_t n, const rj **root)
{
    rj_reset(); int strict = rj_parse(t, n, 0) != NULL; rj_reset(); *root = rj_parse(t, n, 1);
    return jev_judge(*root, strict);
}
/* the text through both entry points */
static void feed(const char *t, size_t n, const char *what)
{
    const rj *root; int want = judge_text(t, n, &root);
    for (int entry = 0; entry < 2; entry++) {
        nostr_event *e = NULL; int ok; int code;
        if (entry == 0 && memchr(t, 0, n)) continue;   /* a C string cannot carry it */
        if (n == 0 && entry == 1) continue;     /* length 0 means NUL-terminated in this API */
        fault_reset(); fault_track(1);
        if (entry == 0) { char *c = guard_buf(0, n + 1); memcpy(c, t, n); c[n] = 0; code = nostr_event_from_json(c, &e); }
        else { char *c = guard_copy(1, t, n); code = nostr_event_parse(c, n, &e); }
        ok = code == 0; mc_step(); mc_eval(1);
        const char *fn = entry ? "event_parse" : "from_json";
        if (ok) {
            const char *why = "";
            if (want == MUST_FAIL) mc_report("malformed-accepted", "%s: %s accepted %s", what, fn, mc_qn(t, n));
            else if (!e) mc_report("no-event", "%s: %s succeeded without an event", what, fn);
            else if (!fields_match(e, root, &why)) mc_report("wrong-fields", "%s: %s: %s differs from the text %s", what, fn, why, mc_qn(t, n));
        } else {
            if (want == MUST_OK) mc_report("valid-rejected", "%s: %s returned %d for %s", what, fn, code, mc_qn(t, n));
            if (e) { mc_report("event-after-error", "%s: %s failed (%d) but handed out an event for %s", what, fn, code, mc_qn(t, n)); e = NULL; }
        }
        mc_outcome(mc_hash(mc_hash_u64(MC_H0, ok * 2 + entry), ok && e ? (void *)e->id : (void *)&code, ok && e ? 32 : sizeof code));
        nostr_event_destroy(e);
        if (fault_live()) mc_report("leak", "%s: %s leaves %ld blocks (%s) for %s", what, fn, fault_live(), fault_live_desc(), mc_qn(t, n));
        fault_track(0);
    }
}
#define ID "00112233445566778899aabbccddeeff0123456789ABCDEF0123456789abcdef"
#define PK "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
static const char *const NAME[7] = { "id", "pubkey", "created_at", "kind", "tags", "content", "sig" };
static const char *const VAR[7][16] = {
    { "\"" ID "\"", "\"" ID "0\"", "\"00112233445566778899aabbccddeeff0123456789ABCDEF0123456789abcde\"", "\"0x112233445566778899aabbccddeeff0123456789ABCDEF0123456789abcdef\"", "\" 0112233445566778899aabbccddeeff0123456789ABCDEF0123456789abcdef\"", "\"\"", "null", "5", "[]", "true", NULL },
    { "\"" PK "\"", "\"" PK "00\"", "\"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f8179g\"", "\"\"", "null", "0", "{}", "false", NULL },
    { "1700000000", "0", "-1", "9007199254740991", "-9007199254740991", "9007199254740993", "1e300", "1.5", "\"1700000000\"", "null", "[1]", "true", "9223372036854775807", "1e3", NULL },
    { "1", "0", "65535", "65536", "-1", "4294967297", "1.25", "\"1\"", "null", "{}", "30023", "1e400", "65535.5", NULL },
    { "[[\"e\",\"x\"]]", "[]", "[[\"p\"],[\"t\",\"\",\"\\u00e9\\n\"]]", "[\"e\"]", "[[1]]", "[[\"a\",null]]", "[[\"a\"],{}]", "null", "\"\"", "{}", "[[\"a\\u0000b\"]]", "[[[\"a\"]]]", "[[\"d\"],[]]", "[[true]]", NULL },
    { "\"hello\"", "\"\"", "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\\u001f\\u20ac\\ud83d\\ude00\"", "null", "1", "[]", "{\"a\":1}", "\"a\\u0000b\"", "\"\\ud83d\"", "\"\\x\"", "true", NULL },
    { "\"" ID PK "\"", "\"" ID "\"", "\"\"", "null", "7", "[\"\"]", "\"" ID "zz" "00112233445566778899aabbccddeeff0123456789ABCDEF0123456789abcd" "\"", NULL },
};
static size_t mk(char *o, const int *v, const int *ord, int skip, const char *pre, const char *sep, const char *post)
{
    size_t n = sprintf(o, "%s{", pre); int first = 1;
    for (int i = 0; i < 7; i++) { int m = ord ? ord[i] : i; if (m == skip) continue; n += sprintf(o + n, "%s\"%s\":%s", first ? "" : sep, NAME[m], VAR[m][v[m]]); first = 0; }
    return n + sprintf(o + n, "}%s", post);
}
static int nvar(int m) { int n = 0; while (VAR[m][n]) n++; return n; }
static char T[200000];
static void pairs(void)
{
    int a = mc_choose(7), va = mc_choose(nvar(a));
    for (int b = 0; b < 7; b++) if (b != a) for (int vb = 0; vb < nvar(b); vb++) {
        int v[7] = {0}; v[a] = va; v[b] = vb; size_t n = mk(T, v, NULL, -1, "", ",", ""); feed(T, n, "two members varied");
    }
    MC_NOTE("%s=%s with every other member varied", NAME[a], VAR[a][va]);
    mc_conform();
}
static void triples(void)
{
    int a = mc_choose(7), va = mc_choose(nvar(a)); int b = mc_choose(7), vb; if (b <= a) mc_discard(); vb = mc_choose(nvar(b));
    for (int c = b + 1; c < 7; c++) for (int vc = 0; vc < nvar(c); vc++) {
        int v[7] = {0}; v[a] = va; v[b] = vb; v[c] = vc; size_t n = mk(T, v, NULL, -1, "", ",", ""); feed(T, n, "three members varied");
    }
    mc_conform();
}
static void missing(void)
{
    /* every subset of members present; every order of the seven */
    int s = mc_choose(128 + 42); int v[7] = {0};
    if (s < 128) {
        size_t n = sprintf(T, "{"); int first = 1;
        for (int m = 0; m < 7; m++) if (s >> m & 1) { n += sprintf(T + n, "%s\"%s\":%s", first ? "" : ",", NAME[m], VAR[m][0]); first = 0; }
        n += sprintf(T + n, "}"); feed(T, n, "subset of members"); MC_NOTE("%s", T);
    } else {
        int i = (s - 128) / 6, j = (s - 128) % 6; int used[7] = {0}, ord[7]; ord[0] = i; used[i] = 1;
        int k = 0; for (int m = 0; m < 7; m++) if (!used[m] && k++ == j) { ord[1] = m; used[m] = 1; break; }
        /* all 120 orders of the rest */
        int rest[5], r = 0; for (int m = 0; m < 7; m++) if (!used[m]) rest[r++] = m;
        for (int p = 0; p < 120; p++) {
            int pool[5]; memcpy(pool, rest, sizeof pool); int x = p, left = 5;
            for (int q = 0; q < 5; q++) { int w = x % left; x /= left; ord[2 + q] = pool[w]; memmove(pool + w, pool + w + 1, (left - w - 1) * sizeof(int)); left--; }
            size_t n = mk(T, v, ord, -1, "", ",", ""); feed(T, n, "member order");
        }
        MC_NOTE("orders starting %s,%s", NAME[ord[0]], NAME[ord[1]]);
    }
    mc_conform();
}
static void frames(void)
{
    static const char *const PRE[] = { "", " ", "\n\t\r ", "\xef\xbb\xbf", "[", "\"", "x", "{}", "{", "null" };
    static const char *const POST[] = { "", " ", "\r\n\t", "x", "}", "]", "{}", ",", "\"", " 1", "null", "//c", "\x01" };
    static const char *const SEP[] = { ",", " , ", ",\n\"extra\":[{\"id\":1,\"k\":[]},null],", ",\"ID\":\"zz\",\"Kind\":7,\"Content\":5,", ",,", "", ";", ",\"kind2\":\"x\\u0000\"," };
    int v[7] = {0}; const char *pre = MC_PICK(PRE), *post = MC_PICK(POST), *sep = MC_PICK(SEP);
    size_t n = mk(T, v, NULL, -1, pre, sep, post); feed(T, n, "frame");
    MC_NOTE("%.60s ... %s", T, post);
    static const char *const ROOT[] = { "", " ", "null", "true", "5", "\"x\"", "[]", "{}", "[{}]", "{\"id\"}", "{\"id\":}", "{1:2}", "{'id':1}", "nul", "-", "{\"a\":1,}", "\xef\xbb\xbf", "{\"a\":1}}" };
    if (pre == PRE[0] && post == POST[0] && sep == SEP[0]) for (int i = 0; i < MC_LEN(ROOT); i++) feed(ROOT[i], strlen(ROOT[i]), "root");
    mc_conform();
}
static size_t base(int k, char *o)
{
    static const int V[3][7] = { {0,0,0,0,0,0,0}, {0,0,1,1,2,2,0}, {0,0,2,2,1,1,0} };
    return mk(o, V[k], NULL, -1, k == 1 ? " " : "", k == 1 ? " ,\n" : ",", k == 1 ? "\n" : "");
}
static void truncate_(void)
{
    int k = mc_choose(3); static char o[4000]; size_t n = base(k, o); int cut = mc_choose((int)n + 1);
    feed(o, cut, "truncated"); MC_NOTE("first %d of %zu bytes", cut, n);
    mc_conform();
}
static void mutate(void)
{
    static char o[4000]; int k = mc_choose(mc_thorough() ? 3 : 2); size_t n = base(k, o); int pos = mc_choose((int)n);
    char keep = o[pos];
    for (int c = 0; c < 256; c++) if ((char)c != keep) { o[pos] = c; feed(o, n, "one byte replaced"); }
    o[pos] = keep;
    MC_NOTE("all replacements of byte %d", pos);
    mc_conform();
}
static const char INS[] = "{}[]\",:\\0-1e. \nunlx/";
static void edit(void)
{
    static char o[4000], q[4100]; int k = mc_choose(3); size_t n = base(k, o); int pos = mc_choose((int)n + 1);
    memcpy(q, o, pos); if (pos < (int)n) { memcpy(q + pos, o + pos + 1, n - pos - 1); feed(q, n - 1, "one byte deleted"); }
    for (int c = 0; c < (int)sizeof INS; c++) { q[pos] = INS[c]; memcpy(q + pos + 1, o + pos, n - pos); feed(q, n + 1, "one byte inserted"); }
    if (mc_thorough()) for (int p2 = pos + 1; p2 < (int)n; p2++) for (int c = 0; INS[c]; c += 1) { memcpy(q, o, n); q[pos] = INS[c]; q[p2] = INS[(c + 3) % 20]; feed(q, n, "two bytes replaced"); }
    mc_conform();
}
/* ---- round trips ---- */
static void trip(nostr_event *e, const char *what)
{
    fault_reset(); fault_track(1);
    char *j = NULL; nostr_error_t r = nostr_event_to_json(e, &j); mc_step();
    if (r != NOSTR_OK || !j) mc_fail("to_json", "%s: to_json returned %d", what, r);
    rj_reset(); const rj *o = rj_parse(j, strlen(j), 0);
    if (!o || o->t != RJ_OBJ) mc_fail("not-json", "%s: not a JSON object: %s", what, mc_q(j));
    if (o->count != 7) mc_fail("members", "%s: %d members in %s", what, o->count, mc_q(j));
    for (int i = 0; i < 7; i++) if (rj_nkey(o, NAME[i]) != 1) mc_fail("members", "%s: member %s missing in %s", what, NAME[i], mc_q(j));
    for (const rj *m = o->child; m; m = m->next) if ((!strcmp(m->key, "created_at") || !strcmp(m->key, "kind")) && !m->is_int) mc_fail("number-form", "%s: %s is not a decimal integer in %s", what, m->key, mc_q(j));
    if (rj_get(o, "created_at")->i != e->created_at) mc_fail("created_at-text", "%s: created_at %lld written as %lld", what, (long long)e->created_at, (long long)rj_get(o, "created_at")->i);
    const char *why = "";
    int representable = e->created_at <= (int64_t)MAXI && e->created_at >= -(int64_t)MAXI;
    if (representable && !fields_match(e, o, &why)) mc_fail("to_json-wrong", "%s: %s differs in %s", what, why, mc_q(j));
    for (int entry = 0; entry < 2; entry++) {
        nostr_event *b = NULL;
        int c = entry ? (int)nostr_event_parse(guard_copy(1, j, strlen(j)), strlen(j), &b) : (int)nostr_event_from_json(j, &b);
        mc_step();
        if (!representable) { if (c == 0 && !refev_equal(e, b)) mc_fail("silently-altered", "%s: created_at %lld comes back as %lld", what, (long long)e->created_at, (long long)b->created_at); }
        else {
            if (c || !b) mc_fail("roundtrip-rejected", "%s: own JSON rejected (%d): %s", what, c, mc_q(j));
            if (!refev_equal(e, b)) mc_fail("roundtrip-altered", "%s: not equal after a round trip: %s", what, mc_q(j));
        }
        nostr_event_destroy(b);
    }
    size_t n = strlen(j), L = 0; char *bf = guard_buf(2, n + 1);
    if (nostr_event_serialize(e, bf, n + 1, &L) != NOSTR_RELAY_OK || L != n || strcmp(bf, j) || guard_under(bf)) mc_fail("serialize", "%s: serialize into an exact buffer differs", what);
    bf = guard_buf(2, n); if (nostr_event_serialize(e, bf, n, &L) != NOSTR_RELAY_ERR_BUFFER_TOO_SMALL) mc_fail("serialize-small", "%s: %zu bytes into %zu accepted", what, n, n);
    free(j);
    if (fault_live()) mc_fail("leak", "%s: %s", what, fault_live_desc());
    fault_track(0);
    mc_state(refev_hash(e)); mc_outcome(refev_hash(e)); mc_eval(1);
}
static nostr_event *ev(void)
{
    nostr_event *e = refev_new(); for (int i = 0; i < 32; i++) { e->id[i] = i * 9 + 1; e->pubkey.data[i] = 255 - i; } for (int i = 0; i < 64; i++) e->sig[i] = i * 5;
    return e;
}
static void rt_bytes(void)
{
    int c = mc_choose(255) + 1; char s[3] = { (char)c, 0, 0 };
    for (int d = 0; d < 256; d++) for (int w = 0; w < 3; w++) {
        s[1] = d; nostr_event *e = ev();
        if (w == 0) nostr_event_set_content(e, s); else if (w == 1) refev_tag(e, 1, s, 0, 0, 0); else refev_tag(e, 2, "t", s, 0, 0);
        trip(e, "two bytes"); nostr_event_destroy(e);
    }
    mc_conform();
}
static const char *const CH[] = { "\"", "\\", "\n", "\x01", "/", "\xc3\xa9", "\xff", "\\u0000", "{}", "[]", ",", "" };
static const int64_t TS[] = { 0, 1, -1, 1700000000, 2147483648LL, -2147483649LL, 999999999999999LL, 1000000000000000LL, 1700000000000001LL, 9007199254740990LL, 9007199254740991LL, -9007199254740991LL, 9007199254740992LL, 9007199254740993LL, 9007199254740995LL, 4611686018427387905LL, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1 };
static void rt_shapes(void)
{
    nostr_event *e = ev(); int nt = mc_choose(mc_thorough() ? 4 : 3);
    for (int i = 0; i < nt; i++) { int n = 1 + mc_choose(2); const char *v[2]; for (int j = 0; j < n; j++) v[j] = CH[nt > 2 ? mc_choose(4) * 3 : nt > 1 ? mc_choose(6) * 2 : mc_choose(MC_LEN(CH))]; nostr_event_add_tag(e, v, n); }
    int c = mc_choose(MC_LEN(CH) + 1); if (c < MC_LEN(CH)) nostr_event_set_content(e, CH[c]);
    trip(e, "shape"); nostr_event_destroy(e); mc_conform();
}
static void rt_numbers(void)
{
    int64_t t = MC_PICK(TS); int kh = mc_choose(16);
    for (int k = kh * 4096; k < kh * 4096 + 4096; k += (kh == 0 || kh == 15) && t == 0 ? 1 : 341) { nostr_event *e = ev(); e->created_at = t; e->kind = k; trip(e, "numbers"); nostr_event_destroy(e); }
    MC_NOTE("created_at %lld", (long long)t);
    mc_conform();
}
static void rt_fields(void)
{
    int pos = mc_choose(128);
    for (int v = 0; v < 256; v++) { nostr_event *e = ev(); *(pos < 32 ? &e->id[pos] : pos < 64 ? &e->pubkey.data[pos - 32] : &e->sig[pos - 64]) = v; trip(e, "field byte"); nostr_event_destroy(e); }
    mc_conform();
}
static void faults(void)
{
    mc_set_dev_bound(mc_thorough() ? 2 : 1);
    int k = mc_choose(3), fn = mc_choose(5); static char o[4000]; size_t n = base(k, o); o[n] = 0;
    nostr_event *src = NULL; if (nostr_event_from_json(o, &src) != NOSTR_OK) mc_fail("valid-rejected", "%s", o);
    nostr_event *twin = NULL; nostr_event_from_json(o, &twin);
    char *good = NULL; nostr_event_to_json(src, &good);
    fault_reset(); fault_track(1); fault_arm();
    nostr_event *e = NULL; char *j = NULL; int r; static char buf[4000]; size_t L = 0;
    switch (fn) {
    case 0: r = nostr_event_from_json(o, &e); break;
    case 1: r = nostr_event_parse(o, n, &e); break;
    case 2: r = nostr_event_to_json(src, &j); break;
    case 3: r = nostr_event_serialize(src, buf, sizeof buf, &L); break;
    default: r = nostr_event_compute_id(src); break;
    }
    fault_disarm(); mc_step(); MC_NOTE("function %d -> %d", fn, r);
    if (r == 0) {
        if (fn < 2 && !refev_equal(e, twin)) mc_fail("oom-altered", "function %d: success with an altered event after a failed allocation", fn);
        if (fn == 2 && strcmp(j, good)) mc_fail("oom-altered", "to_json: altered text after a failed allocation");
        if (fn == 3 && strcmp(buf, good)) mc_fail("oom-altered", "serialize: altered text");
        if (fn == 4) { uint8_t w[32]; refev_id(twin, w); if (memcmp(w, src->id, 32)) mc_fail("oom-altered", "compute_id: wrong id after a failed allocation"); }
    } else {
        if (!fault_injected()) mc_fail("failed", "function %d failed with %d", fn, r);
        if (e) mc_fail("event-after-error", "function %d handed out an event with error %d", fn, r);
        if (j) mc_fail("text-after-error", "to_json handed out text with error %d", r);
        if (fn == 4 && !refev_equal(src, twin)) mc_fail("oom-side-effect", "failed compute_id changed the event");
    }
    free(j); nostr_event_destroy(e);
    if (fault_live()) mc_fail("leak", "function %d: %s", fn, fault_live_desc());
    fault_track(0); mc_outcome(mc_hash_u64(MC_H0, fn * 1000 + fault_injected() * 100 + r)); free(good); nostr_event_destroy(src); nostr_event_destroy(twin); mc_conform();
}
static void nesting(void)
{
    static const int D[] = { 1, 10, 100, 500, 899, 990, 1000, 1001, 2000, 9000 };
    int d = MC_PICK(D), kind = mc_choose(2); int v[7] = {0}; size_t n = mk(T, v, NULL, -1, "", ",", ""); n--; 
    n += sprintf(T + n, ",\"x\":"); for (int i = 0; i < d; i++) n += sprintf(T + n, kind ? "{\"a\":" : "["); if (kind && d < 900) { T[n++] = '1'; }
    if (d < 900) { for (int i = 0; i < d; i++) T[n++] = kind ? '}' : ']'; T[n++] = '}'; }
    feed(T, n, "nesting"); mc_conform();
}
static void limits(void)
{
    nostr_config c; nostr_config_get_defaults(&c); int what = mc_choose(2), lim = 1 + mc_choose(40), delta = mc_choose(3) - 1;
    if (what) { lim = 1024 + lim * 7; c.max_content_size = lim; } else c.max_tags = lim;
    if (nostr_config_update(&c) != NOSTR_OK) mc_fail("config", "refused");
    int n = lim + delta; size_t k = sprintf(T, "{\"content\":\""); if (what) { memset(T + k, 'x', n); k += n; }
    k += sprintf(T + k, "\",\"tags\":["); if (!what) for (int i = 0; i < n; i++) k += sprintf(T + k, "%s[\"t\"]", i ? "," : ""); k += sprintf(T + k, "]}");
    nostr_event *e = NULL; nostr_error_t r = nostr_event_from_json(T, &e); mc_step();
    if (n <= lim) MC_CHECK(r == NOSTR_OK && e, "limit:refused", "%d within the limit %d refused (%d)", n, lim, r);
    else MC_CHECK(r != NOSTR_OK && !e, "limit:exceeded", "%d accepted, limit %d", n, lim);
    mc_outcome(mc_hash_u64(MC_H0, lim * 4 + delta)); nostr_event_destroy(e); mc_conform();
}
static void setup(void) { fault_install(); nostr_init(); memset(T, 0, sizeof T); }
static void setup_cfg(void) { setup(); nostr_init_with_config(NULL); }
const mc_scenario mc_scenarios[] = {
    {"pairs", pairs, setup, 3, 0, "every pair of member variants (7 members, 7-14 variants each), others valid"},
    {"triples", triples, setup, 2, 0, "every triple of member variants"},
    {"missing", missing, setup, 3, 0, "every subset of members and all 5040 member orders"},
    {"frames", frames, setup, 3, 0, "prefixes x suffixes x separators, non-object roots"},
    {"truncate", truncate_, setup, 3, 0, "every prefix of three texts, behind a guard page"},
    {"mutate", mutate, setup, 3, 0, "every byte of three texts replaced by every other byte"},
    {"edit", edit, setup, 3, 0, "every single-byte deletion and structural insertion (thorough: pairs of replacements)"},
    {"rt_bytes", rt_bytes, setup, 3, 0, "round trip of every one- and two-byte string as content, tag name, tag value"},
    {"rt_shapes", rt_shapes, setup, 3, 0, "round trip of every tag shape up to 2 (3) tags over an escape alphabet"},
    {"rt_numbers", rt_numbers, setup, 3, 0, "20 timestamps x kinds"},
    {"rt_fields", rt_fields, setup, 3, 0, "every byte value at every id/pubkey/sig position"},
    {"faults", faults, setup, 3, 0, "every single (pair of) allocation failure(s) in parse, serialize and id computation"},
    {"nesting", nesting, setup, 3, 0, "deeply nested unknown members"},
    {"limits", limits, setup_cfg, 3, 0, "configured tag and content limits: at, below, above"},
    MC_END
};
