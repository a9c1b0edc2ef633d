/* C09: filter JSON parsing yields exactly the conditions written; clone, accessors, free. */
#include "refev.h"
#include "fault.h"
#include "guard.h"
#include "judge.h"
#include <ctype.h>
#include <nostr_relay_protocol.h>

static int dup;
static int judge(const char *t, size_t n, const rj **root)
{
    rj_reset(); int strict = rj_parse(t, n, 0) != NULL; rj_reset(); *root = rj_parse(t, n, 1);
    return jf_judge(*root, strict, &dup);
}
#define differs jf_differs
static int strs_eq(char *const *a, size_t n, char *const *b, size_t m) { if (n != m) return 0; for (size_t i = 0; i < n; i++) if (strcmp(a[i], b[i]) || a[i] == b[i]) return 0; return 1; }
static int f_equal(const nostr_filter_t *a, const nostr_filter_t *b)
{
    if (!strs_eq(a->ids, a->ids_count, b->ids, b->ids_count) || !strs_eq(a->authors, a->authors_count, b->authors, b->authors_count) || !strs_eq(a->e_tags, a->e_tags_count, b->e_tags, b->e_tags_count) || !strs_eq(a->p_tags, a->p_tags_count, b->p_tags, b->p_tags_count)) return 0;
    if (a->kinds_count != b->kinds_count || (a->kinds_count && (a->kinds == b->kinds || memcmp(a->kinds, b->kinds, 4 * a->kinds_count)))) return 0;
    if (a->since != b->since || a->until != b->until || a->limit != b->limit || !a->search != !b->search || (a->search && (a->search == b->search || strcmp(a->search, b->search)))) return 0;
    if (a->generic_tags_count != b->generic_tags_count) return 0;
    for (size_t i = 0; i < a->generic_tags_count; i++) if (a->generic_tags[i].tag_name != b->generic_tags[i].tag_name || !strs_eq(a->generic_tags[i].values, a->generic_tags[i].values_count, b->generic_tags[i].values, b->generic_tags[i].values_count)) return 0;
    return 1;
}
static const char *accessors(const nostr_filter_t *f)
{
    size_t n = 777;
    if ((char **)nostr_filter_get_ids(f, &n) != f->ids || n != f->ids_count) return "get_ids";
    n = 777; if ((char **)nostr_filter_get_authors(f, &n) != f->authors || n != f->authors_count) return "get_authors";
    n = 777; if (nostr_filter_get_kinds(f, &n) != f->kinds || n != f->kinds_count) return "get_kinds";
    n = 777; if ((char **)nostr_filter_get_e_tags(f, &n) != f->e_tags || n != f->e_tags_count) return "get_e_tags";
    n = 777; if ((char **)nostr_filter_get_p_tags(f, &n) != f->p_tags || n != f->p_tags_count) return "get_p_tags";
    if (nostr_filter_get_since(f) != f->since || nostr_filter_get_until(f) != f->until || nostr_filter_get_limit(f) != f->limit || nostr_filter_get_search(f) != f->search) return "scalar getters";
    if (nostr_filter_has_search(f) != (f->search && *f->search)) return "has_search";
    if (nostr_filter_has_tag_filters(f) != (f->e_tags_count || f->p_tags_count || f->generic_tags_count)) return "has_tag_filters";
    for (int c = 1; c < 128; c++) {
        char **want = NULL; size_t wn = 0;
        if (c == 'e') want = f->e_tags, wn = f->e_tags_count; else if (c == 'p') want = f->p_tags, wn = f->p_tags_count;
        else for (size_t i = 0; i < f->generic_tags_count; i++) if (f->generic_tags[i].tag_name == c) { want = f->generic_tags[i].values; wn = f->generic_tags[i].values_count; break; }
        n = 777; if ((char **)nostr_filter_get_tag_values(f, (char)c, &n) != want || n != wn) return "get_tag_values";
    }
    return NULL;
}
static int zeroed(const nostr_filter_t *f) { nostr_filter_t z; memset(&z, 0, sizeof z); return !memcmp(&z, f, sizeof z); }
static void feed(const char *t, size_t n, const char *what)
{
    const rj *o; int want = judge(t, n, &o);
    for (int entry = 0; entry < 2; entry++) {
        if (!n && entry) continue;
        fault_reset(); fault_track(1);
        nostr_filter_t f; memset(&f, 0xEE, sizeof f); char *c;
        if (entry) c = guard_copy(1, t, n); else { c = guard_buf(0, n + 1); memcpy(c, t, n); c[n] = 0; if (strlen(c) != n) continue; }
        nostr_relay_error_t r = nostr_filter_parse(c, entry ? n : 0, &f); mc_step(); mc_eval(1);
        if (r == NOSTR_RELAY_OK) {
            nostr_validation_result_t vr; memset(&vr, 0xEE, sizeof vr); nostr_relay_error_t vv = nostr_filter_validate(&f, &vr);
            if ((vv == NOSTR_RELAY_OK) != vr.valid || vr.error_code != vv) mc_report("validate-result", "%s: validate returns %d, result valid=%d code %d", what, vv, vr.valid, vr.error_code);
            if (want == MUST_FAIL && vv == NOSTR_RELAY_OK) mc_report("malformed-accepted", "%s: accepted %s", what, mc_qn(t, n));
            if (want == MUST_OK && vv != NOSTR_RELAY_OK) mc_report("valid-invalid", "%s: validation refuses (%d) %s", what, vv, mc_qn(t, n));
            const char *d;
            if (want != MUST_FAIL && !dup && (d = differs(&f, o))) mc_report("wrong-filter", "%s: %s differs from %s", what, d, mc_qn(t, n));
            if ((d = accessors(&f))) mc_report("accessor", "%s: %s for %s", what, d, mc_qn(t, n));
            nostr_filter_t g; memset(&g, 0, sizeof g); nostr_relay_error_t cr = nostr_filter_clone(&g, &f); mc_step();
            if (cr != NOSTR_RELAY_OK) mc_report("clone-fails", "%s: clone %d of %s", what, cr, mc_qn(t, n));
            else if (!f_equal(&f, &g)) mc_report("clone-differs", "%s: clone of %s", what, mc_qn(t, n));
            if (entry) { nostr_filter_free(&f); if (!zeroed(&f)) mc_report("free-state", "not zeroed after free"); if ((d = accessors(&g))) mc_report("accessor", "clone after freeing the original: %s", d); if (!dup && want != MUST_FAIL && cr == NOSTR_RELAY_OK && (d = differs(&g, o))) mc_report("clone-dangling", "clone after freeing the original: %s", d); nostr_filter_free(&f); nostr_filter_free(&g); }
            else { nostr_filter_free(&g); nostr_filter_free(&g); if (!dup && want != MUST_FAIL && (d = differs(&f, o))) mc_report("clone-shares", "original after freeing the clone: %s", d); nostr_filter_free(&f); }
            mc_state(mc_hash_u64(mc_hash(MC_H0, t, n), vv)); mc_outcome(mc_hash(MC_H0, t, n));
        } else {
            if (want == MUST_OK) mc_report("valid-rejected", "%s: %d for %s", what, r, mc_qn(t, n));
            nostr_filter_free(&f);   /* safe after an error */
            mc_outcome(r);
        }
        if (fault_live()) mc_report("leak", "%s: %s leaks %ld blocks (%s)", what, mc_qn(t, n), fault_live(), fault_live_desc());
        fault_track(0);
    }
}
#define H "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
#define H2 "00000000000000000000000000000000000000000000000000000000000000ff"
#define HU "0123456789ABCDEF0123456789abcdef0123456789abcdef0123456789abcdef"
static const char *const NM[] = { "ids", "authors", "kinds", "#e", "#p", "#t", "since", "until", "limit", "search", "#T", "#E", "x" };
static const char *const VAR[13][18] = {
    { "[\"" H "\"]", "[\"abc\",\"" H2 "\"]", "[]", "[\"\"]", "[\"" HU "\"]", "[\"" H "0\"]", "\"" H "\"", "[1]", "[null,\"" H "\"]", "[[\"" H "\"]]", "null", "{}", "[\"0g\"]", "[\"ab\\u0000\"]", "{\"a\":\"" H "\"}", NULL },
    { "[\"" H2 "\",\"" H "\",\"0\"]", "[\"xyz\"]", "[{}]", "true", "[\" ab\"]", "[]", "5", "[\"" H "\",5]", NULL },
    { "[1]", "[0,65535,30023,1]", "[65536]", "[-1]", "[1.5]", "[\"1\"]", "1", "[]", "null", "[4294967297]", "[1e0]", "[true]", "[[1]]", "[1,null]", "{\"a\":1}", "[1e400]", NULL },
    { "[\"" H "\"]", "[\"" H "\",\"" H2 "\"]", "[\"ab\"]", "[\"" HU "\"]", "[]", "[7]", "null", "\"x\"", "[\"" H "\",false]", NULL },
    { "[\"" H2 "\"]", "[\"" H "x\"]", "[\"\"]", "[]", "{}", "[null]", NULL },
    { "[\"x\"]", "[\"a\",\"\",\"\\u00e9\\n\\\"\"]", "[]", "[1]", "\"x\"", "null", "[\"a\",null]", "[\"a\\u0000b\"]", "[[]]", NULL },
    { "1700000000", "0", "1", "-1", "9007199254740991", "9007199254740993", "1e300", "-1e300", "1.5", "\"5\"", "null", "true", "[5]", "1e3", NULL },
    { "1700000001", "1", "0", "-1", "9007199254740991", "1e300", "0.5", "\"5\"", "null", "{}", "1e400", NULL },
    { "10", "0", "1", "2147483647", "2147483648", "-1", "1.5", "\"5\"", "null", "1e300", NULL },
    { "\"query\"", "\"\"", "\"\\u00e9 \\\"x\\\"\"", "5", "null", "[\"a\"]", "\"a\\u0000b\"", "{}", NULL },
    { "[\"x\",\"y\"]", "[]", "5", NULL },
    { "[\"" H "\"]", "[\"notid\"]", "{\"a\":1}", NULL },
    { "1", "[[]]", "\"\\u0000\"", NULL },
};
#define NMEM 13
static int nvar(int m) { int n = 0; while (VAR[m][n]) n++; return n; }
static char T[400000];
static size_t mk(char *o, const int *v)      /* v[m] -1: absent */
{
    size_t n = sprintf(o, "{"); int first = 1;
    for (int m = 0; m < NMEM; m++) if (v[m] >= 0) { n += sprintf(o + n, "%s\"%s\":%s", first ? "" : ",", NM[m], VAR[m][v[m]]); first = 0; }
    return n + sprintf(o + n, "}");
}
static void combos(void)
{
    int am = 0, i = 0, tot = 0; for (int m = 0; m < NMEM; m++) tot += nvar(m); i = mc_choose(tot); while (i >= nvar(am)) i -= nvar(am++);
    int bg = mc_choose(3);   /* other members: absent, the first variants, every other one */
    for (int b = 0; b < NMEM; b++) if (b != am) for (int vb = -1; vb < nvar(b); vb++) {
        int v[NMEM]; for (int m = 0; m < NMEM; m++) v[m] = bg == 0 ? -1 : bg == 1 ? 0 : (m & 1) ? 0 : -1;
        v[am] = i; v[b] = vb; size_t n = mk(T, v); feed(T, n, "two members varied");
        if (mc_thorough()) for (int c = b + 1; c < NMEM; c++) if (c != am) for (int vc = 0; vc < nvar(c); vc++) { int k = v[c]; v[c] = vc; n = mk(T, v); feed(T, n, "three members varied"); v[c] = k; }
    }
    MC_NOTE("%s:%s", NM[am], VAR[am][i]); mc_conform();
}
static void subsets(void)
{
    int s = mc_choose(1 << 6); for (int r = 0; r < 1 << (NMEM - 6); r++) { int v[NMEM]; for (int m = 0; m < NMEM; m++) v[m] = (s | r << 6) >> m & 1 ? 0 : -1; size_t n = mk(T, v); feed(T, n, "subset of members"); }
    mc_conform();
}
static void names(void)
{   /* member names: every "#c" for every byte, close misses of known names, duplicates */
    int c = mc_choose(256); size_t n;
    if (c) {
        char nm[16]; if (c == '"' || c == '\\') snprintf(nm, 16, "#\\%c", c); else if (c < 32) snprintf(nm, 16, "#\\u%04x", c); else snprintf(nm, 16, "#%c", c);
        static const char *const V[] = { "[\"" H "\"]", "[1]", "5", "[]", "[\"a\",\"b\"]" };
        for (int i = 0; i < 5; i++) { n = sprintf(T, "{\"%s\":%s}", nm, V[i]); feed(T, n, "name"); n = sprintf(T, "{\"kinds\":[1],\"%s\":%s,\"#e\":[\"" H2 "\"]}", nm, V[i]); feed(T, n, "name"); n = sprintf(T, "{\"%s%c\":%s}", nm, 'x', V[i]); feed(T, n, "name"); }
    } else {
        static const char *const N[] = { "IDS", "Ids", "id", "ids ", " ids", "idss", "Authors", "KINDS", "kind", "Since", "UNTIL", "Limit", "Search", "#", "##", "e", "p", "#ee", "#E", "#P", "", "#t\\u0000", "ids\\u0000", "until\\u0000x" };
        static const char *const V[] = { "[\"" H "\"]", "5", "\"q\"", "[1]", "{}", "null" };
        for (int i = 0; i < MC_LEN(N); i++) for (int j = 0; j < MC_LEN(V); j++) { n = sprintf(T, "{\"%s\":%s}", N[i], V[j]); feed(T, n, "close name"); n = sprintf(T, "{\"%s\":%s,\"ids\":[\"ab\"],\"#e\":[\"" H2 "\"],\"since\":9}", N[i], V[j]); feed(T, n, "close name first"); n = sprintf(T, "{\"ids\":[\"ab\"],\"%s\":%s}", N[i], V[j]); feed(T, n, "close name last"); }
        for (int i = 0; i < NMEM; i++) for (int a = 0; a < nvar(i); a++) for (int b = 0; b < nvar(i); b++) { n = sprintf(T, "{\"%s\":%s,\"%s\":%s}", NM[i], VAR[i][a], NM[i], VAR[i][b]); feed(T, n, "duplicate"); }
    }
    mc_conform();
}
static void frames(void)
{
    static const char *const PRE[] = { "", " ", "\n\t\r ", "\xef\xbb\xbf", "[", "\"", "x", "{}", "{" };
    static const char *const POST[] = { "", " ", "\r\n\t", "x", "}", "]", "{}", ",", "\"", " 1", "null", "\x01", ",{\"kinds\":[2]}" };
    static const char *const ROOT[] = { "", " ", "null", "true", "5", "\"x\"", "[]", "{}", "[{}]", "{\"ids\"}", "{\"ids\":}", "{1:2}", "{'ids':1}", "{\"kinds\":[1,]}", "{\"kinds\":[1],}", "{\"kinds\":[,1]}", "{\"kinds\":[1 2]}", "[{\"ids\":[]}]", "[\"ids\"]", "\"ids\"" };
    int p = mc_choose(MC_LEN(PRE)), q = mc_choose(MC_LEN(POST)); size_t n;
    for (int i = 0; i < MC_LEN(ROOT); i++) { n = sprintf(T, "%s%s%s", PRE[p], ROOT[i], POST[q]); feed(T, n, "frame"); }
    n = sprintf(T, "%s{\"kinds\" : [ 1 ,\n2],\"since\":\t5 }%s", PRE[p], POST[q]); feed(T, n, "frame"); mc_conform();
}
static size_t base(int k, char *o)
{
    static const int V[3][NMEM] = { {1,-1,1,0,-1,1,0,-1,0,-1,-1,-1,-1}, {-1,0,0,-1,0,-1,-1,0,-1,0,0,0,0}, {-1,-1,0,-1,-1,0,0,0,-1,2,-1,-1,-1} };
    return mk(o, V[k]);
}
static void mutate(void)
{
    int k = mc_choose(3); static char o[4000]; size_t n = base(k, o); int pos = mc_choose((int)n); char keep = o[pos];
    for (int c = 0; c < 256; c++) if ((char)c != keep) { o[pos] = (char)c; feed(o, n, "one byte replaced"); }
    o[pos] = keep; feed(o, pos, "truncated"); mc_conform();
}
static const char INS[] = "{}[]\",:\\0-1e. \nunlx/";
static void edit(void)
{
    static char o[4000], q[4100]; int k = mc_choose(3); size_t n = base(k, o); int pos = mc_choose((int)n);
    memcpy(q, o, pos); memcpy(q + pos, o + pos + 1, n - pos - 1); feed(q, n - 1, "one byte deleted");
    for (int c = 0; INS[c]; c++) { q[pos] = INS[c]; memcpy(q + pos + 1, o + pos, n - pos); feed(q, n + 1, "one byte inserted"); }
    for (int p2 = pos + 1; p2 < (int)n; p2 += mc_thorough() ? 1 : 7) for (int c = 0; INS[c]; c++) { memcpy(q, o, n); q[pos] = INS[c]; q[p2] = INS[(c + 3) % 20]; feed(q, n, "two bytes replaced"); }
    mc_conform();
}
static void counts(void)
{
    static const int N[] = { 1, 2, 255, 256, 257, 258, 300, 1000 }; int m = mc_choose(7), n = MC_PICK(N), bad = mc_choose(3); size_t k = sprintf(T, "{\"%s\":[", NM[m == 6 ? 2 : m]);
    for (int i = 0; i < n; i++) { if (i) T[k++] = ','; int b = bad && i == (bad == 1 ? 0 : n - 1); if (m == 2 || m == 6) k += sprintf(T + k, b ? "\"x\"" : "%d", (i * 7) % 65536); else k += sprintf(T + k, b ? "5" : "\"%064x\"", i); }
    k += sprintf(T + k, "]}"); feed(T, k, "many values"); mc_conform();
}
static void search(void)
{
    static const int N[] = { 0, 1, 255, 65535, 65536, 65537, 100000 }; int n = MC_PICK(N); size_t k = sprintf(T, "{\"search\":\""); memset(T + k, 'q', n); k += n; k += sprintf(T + k, "\"}"); feed(T, k, "search length"); mc_conform();
}
/* every sequence of parse / clone / free on three slots */
static void life(void)
{
    static const char *const J[] = { "{\"ids\":[\"ab\"],\"#t\":[\"x\"],\"search\":\"s\",\"since\":3}", "{\"kinds\":[1,2],\"#e\":[\"" H "\"],\"#p\":[\"" H2 "\"],\"authors\":[\"cd\",\"ef\"]}", "{\"ids\":[1]}", "{\"#t\":[\"a\"],\"#u\":[5]}", "{}", "[" };
    nostr_filter_t s[3]; int has[3] = { -1, -1, -1 }; memset(s, 0, sizeof s); fault_reset(); fault_track(1); int depth = mc_thorough() ? 5 : 4;
    for (int i = 0; i < depth; i++) {
        int op = mc_choose(3 * MC_LEN(J) + 6 + 3), a;
        if (op < 3 * MC_LEN(J)) { a = op % 3; int j = op / 3; if (has[a] >= 0) nostr_filter_free(&s[a]); nostr_relay_error_t r = nostr_filter_parse(J[j], strlen(J[j]), &s[a]); has[a] = r == NOSTR_RELAY_OK ? j : -1; MC_CHECK((r == NOSTR_RELAY_OK) == (j < 2 || j == 4), "life-parse", "%s: %d", J[j], r); MC_NOTE("parse %s into %d", J[j], a); }
        else if (op < 3 * MC_LEN(J) + 6) { static const int S[6][2] = { {0,1},{0,2},{1,0},{1,2},{2,0},{2,1} }; a = S[op - 3 * MC_LEN(J)][0]; int b = S[op - 3 * MC_LEN(J)][1]; if (has[b] >= 0) nostr_filter_free(&s[b]); nostr_relay_error_t r = nostr_filter_clone(&s[b], &s[a]); MC_CHECK(r == NOSTR_RELAY_OK, "life-clone", "clone: %d", r); has[b] = has[a] < 0 ? 4 : has[a]; MC_NOTE("clone %d to %d", a, b); }
        else { a = op - 3 * MC_LEN(J) - 6; nostr_filter_free(&s[a]); has[a] = -1; MC_NOTE("free %d", a); }
        mc_step(); uint64_t h = MC_H0;
        for (int x = 0; x < 3; x++) { if (has[x] < 0) MC_CHECK(zeroed(&s[x]), "life-zero", "slot %d not empty", x); else { rj_reset(); const rj *o = rj_parse(J[has[x]], strlen(J[has[x]]), 0); const char *d = differs(&s[x], o); MC_CHECK(!d, "life-value", "slot %d: %s", x, d); } h = mc_hash_u64(h, has[x] + 1); }
        mc_state(h);
    }
    for (int x = 0; x < 3; x++) nostr_filter_free(&s[x]);
    MC_CHECK(!fault_live(), "life-leak", "%s", fault_live_desc()); fault_track(0); mc_conform();
}
static void oom(void)
{
    int k = mc_choose(3), cl = mc_choose(2); static char o[4000]; size_t n = base(k, o); rj_reset(); const rj *root = rj_parse(o, n, 0);
    nostr_filter_t f, g; memset(&f, 0, sizeof f); memset(&g, 0, sizeof g); fault_reset(); fault_track(1); mc_set_dev_bound(mc_thorough() ? 2 : 1);
    if (!cl) fault_arm();
    nostr_relay_error_t r = nostr_filter_parse(o, n, &f); mc_step();
    if (r != NOSTR_RELAY_OK) MC_CHECK(fault_injected(), "oom-parse", "%d", r); else { const char *d = differs(&f, root); MC_CHECK(!d, "oom-parse-altered", "success after a failed allocation, but %s differs", d); }
    int inj = fault_injected(); fault_arm();
    if (r == NOSTR_RELAY_OK) { nostr_relay_error_t c = nostr_filter_clone(&g, &f); mc_step(); if (c != NOSTR_RELAY_OK) MC_CHECK(fault_injected() > inj, "oom-clone", "%d", c); else MC_CHECK(f_equal(&f, &g), "oom-clone-altered", "clone differs"); const char *d = differs(&f, root); MC_CHECK(!d, "oom-src", "source changed: %s", d); }
    fault_disarm(); nostr_filter_free(&g); nostr_filter_free(&f); MC_CHECK(!fault_live(), "oom-leak", "%s", fault_live_desc()); fault_track(0); mc_outcome(mc_hash_u64(MC_H0, r * 100 + fault_injected() * 10 + cl)); mc_conform();
}
static void setup(void) { fault_install(); }
const mc_scenario mc_scenarios[] = {
    { "combos", combos, setup, 3, 0, "every pair (thorough: triple) of member variants (13 members) over three backgrounds" },
    { "subsets", subsets, setup, 3, 0, "all 8192 subsets of members" },
    { "names", names, setup, 3, 0, "every one-character tag member name, close misses and duplicates" },
    { "frames", frames, setup, 3, 0, "text around the object, non-object roots" },
    { "mutate", mutate, setup, 3, 0, "every byte of three filters replaced by every value; truncations" },
    { "edit", edit, setup, 3, 0, "deletions, insertions, pairs of replacements" },
    { "counts", counts, setup, 3, 0, "value counts around the limit" },
    { "search", search, setup, 3, 0, "search text lengths around the limit" },
    { "life", life, setup, 3, 0, "every sequence of 4 (5) parse/clone/free operations on three filters" },
    { "oom", oom, setup, 3, 0, "allocation failures" },
    MC_END };
