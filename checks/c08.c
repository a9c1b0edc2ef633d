/* C08: filter matching equals the NIP-01 definition. */
#include "refev.h"
#include "guard.h"
#include <nostr_relay_protocol.h>

/* ---- reference ---- */
static int pfx(const uint8_t *b, char *const *l, size_t n) { if (!n) return 1; char h[65]; ref_hex(b, 32, h); for (size_t i = 0; i < n; i++) { size_t k = strlen(l[i]); if (k <= 64 && !memcmp(h, l[i], k)) return 1; } return 0; }
static int tagm(const nostr_event *e, const char *name, char *const *l, size_t n)
{
    for (size_t t = 0; t < e->tags_count; t++) if (e->tags[t].count >= 2 && !strcmp(e->tags[t].values[0], name)) for (size_t i = 0; i < n; i++) if (!strcmp(e->tags[t].values[1], l[i])) return 1;
    return 0;
}
static int ref_match(const nostr_filter_t *f, const nostr_event *e)
{
    if (!pfx(e->id, f->ids, f->ids_count) || !pfx(e->pubkey.data, f->authors, f->authors_count)) return 0;
    if (f->kinds_count) { int ok = 0; for (size_t i = 0; i < f->kinds_count; i++) ok |= f->kinds[i] == (int)e->kind; if (!ok) return 0; }
    if (f->since && e->created_at < f->since) return 0;
    if (f->until && e->created_at > f->until) return 0;
    if (f->e_tags_count && !tagm(e, "e", f->e_tags, f->e_tags_count)) return 0;
    if (f->p_tags_count && !tagm(e, "p", f->p_tags, f->p_tags_count)) return 0;
    for (size_t i = 0; i < f->generic_tags_count; i++) { char n[2] = { f->generic_tags[i].tag_name, 0 }; if (!tagm(e, n, f->generic_tags[i].values, f->generic_tags[i].values_count)) return 0; }
    return 1;
}
#define A64 "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
#define B64 "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
#define C64 "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdee"
#define P(...) ((char *[]){ __VA_ARGS__ })
typedef struct { char **v; size_t n; } sl;
static const sl IDS[] = { {0,0}, {(char*[]){ B64 },1}, {(char*[]){ "0123" },1}, {(char*[]){ C64 },1}, {(char*[]){ A64, C64, "012" },3}, {(char*[]){ "0" },1}, {(char*[]){ "f", "e", "1" },3}, {(char*[]){ "0123456789ABCDEF" },1} };
static const sl AUTH[] = { {0,0}, {(char*[]){ A64 },1}, {(char*[]){ "aaab" },1}, {(char*[]){ B64, "a" },2}, {(char*[]){ "ab", "b", "" "0" },3} };
static const struct { int32_t v[4]; size_t n; } KINDS[] = { {{0},0}, {{1},1}, {{0},1}, {{65535, 7, 1},3}, {{65537, -1, 2, 131073},4} };
static const int64_t SINCE[] = { 0, 1000, 1001, 999, INT64_MAX, 1, (int64_t)1 << 53 };
static const int64_t UNTIL[] = { 0, 1000, 999, 1001, INT64_MAX, 1, (int64_t)1 << 32 };
static const sl ETAG[] = { {0,0}, {(char*[]){ A64 },1}, {(char*[]){ B64, C64 },2}, {(char*[]){ C64 },1} };
static const sl PTAG[] = { {0,0}, {(char*[]){ A64 },1}, {(char*[]){ B64 },1} };
typedef struct { char c; char **v; size_t n; } gt;
static const struct { gt g[3]; size_t n; } GEN[] = { {{{0}},0}, {{{'t',(char*[]){ "x" },1}},1}, {{{'t',(char*[]){ "y","z" },2}},1}, {{{'t',(char*[]){ "x" },1},{'T',(char*[]){ "x" },1}},2}, {{{'E',(char*[]){ A64 },1}},1}, {{{'d',(char*[]){ "" },1},{'t',(char*[]){ "w","x" },2}},2}, {{{'t',(char*[]){ "X" },1}},1} };
static nostr_filter_t mk(int i, int a, int k, int s, int u, int e, int p, int g, nostr_generic_tag_filter_t *gs)
{
    nostr_filter_t f = { 0 }; f.ids = IDS[i].v; f.ids_count = IDS[i].n; f.authors = AUTH[a].v; f.authors_count = AUTH[a].n;
    f.kinds = KINDS[k].n ? (int32_t *)KINDS[k].v : NULL; f.kinds_count = KINDS[k].n; f.since = SINCE[s]; f.until = UNTIL[u]; f.e_tags = ETAG[e].v; f.e_tags_count = ETAG[e].n; f.p_tags = PTAG[p].v; f.p_tags_count = PTAG[p].n;
    for (size_t x = 0; x < GEN[g].n; x++) { gs[x].tag_name = GEN[g].g[x].c; gs[x].values = GEN[g].g[x].v; gs[x].values_count = GEN[g].g[x].n; }
    f.generic_tags = GEN[g].n ? gs : NULL; f.generic_tags_count = GEN[g].n; return f;
}
static nostr_event *EV[12]; static int nev;
static nostr_event *ev(const char *id, const char *pk, int kind, int64_t t) { nostr_event *e = refev_new(); ref_unhex(id, 64, e->id); ref_unhex(pk, 64, e->pubkey.data); e->kind = (uint16_t)kind; e->created_at = t; return e; }
static void setup(void)
{
    nostr_event *e;
    EV[nev++] = e = ev(B64, A64, 1, 1000);
    EV[nev++] = e = ev(B64, A64, 1, 1000); refev_tag(e, 2, "e", A64, 0, 0); refev_tag(e, 2, "p", B64, 0, 0); refev_tag(e, 2, "t", "x", 0, 0);
    EV[nev++] = e = ev(C64, B64, 0, 0); refev_tag(e, 2, "t", "z", 0, 0); refev_tag(e, 4, "e", B64, A64, C64); refev_tag(e, 2, "d", "", 0, 0);
    EV[nev++] = e = ev(A64, C64, 65535, 1001); refev_tag(e, 3, "x", "e", A64, 0); refev_tag(e, 1, "e", 0, 0, 0); refev_tag(e, 1, "t", 0, 0, 0); refev_tag(e, 2, "T", "x", 0, 0); refev_tag(e, 2, "tt", "x", 0, 0);
    EV[nev++] = e = ev(B64, A64, 7, 999); refev_tag(e, 2, "t", "q", 0, 0); refev_tag(e, 2, "t", "x", 0, 0); refev_tag(e, 2, "T", "x", 0, 0); refev_tag(e, 2, "d", "", 0, 0); refev_tag(e, 2, "e", C64, 0, 0); refev_tag(e, 2, "e", A64, 0, 0); refev_tag(e, 2, "p", A64, 0, 0); refev_tag(e, 2, "E", A64, 0, 0);
    EV[nev++] = e = ev(B64, B64, 1, INT64_MAX); refev_tag(e, 2, "E", A64, 0, 0); refev_tag(e, 3, "t", "", "x", 0);
    EV[nev++] = e = ev(B64, A64, 1, -5); refev_tag(e, 2, "t", "x", 0, 0);
    EV[nev++] = e = ev(B64, A64, 1, (int64_t)1 << 32); refev_tag(e, 2, "t", "x ", 0, 0); refev_tag(e, 2, "t ", "x", 0, 0); refev_tag(e, 2, "e", "aaaa", 0, 0);
    EV[nev++] = e = ev(B64, A64, 2, 1);
}
static void product(void)
{
    int ik = mc_choose(MC_LEN(IDS) * MC_LEN(KINDS)), a = mc_choose(MC_LEN(AUTH)), i = ik % MC_LEN(IDS), k = ik / MC_LEN(IDS), g = mc_choose(MC_LEN(GEN));
    for (int x = 0; x < nev; x++) {
        uint64_t h0 = refev_hash(EV[x]), n = 0, yes = 0;
        for (int s = 0; s < MC_LEN(SINCE); s++) for (int u = 0; u < MC_LEN(UNTIL); u++) for (int e = 0; e < MC_LEN(ETAG); e++) for (int p = 0; p < MC_LEN(PTAG); p++) {
            nostr_generic_tag_filter_t gs[3]; nostr_filter_t f = mk(i, a, k, s, u, e, p, g, gs); f.limit = (s + u) % 3; f.search = (e & 1) ? (char *)"not consulted" : NULL; n++;
            int want = ref_match(&f, EV[x]); bool got = nostr_filter_matches(&f, EV[x]);
            if (got != want) mc_fail("match", "event %d, ids %d authors %d kinds %d since %lld until %lld e %d p %d generic %d: matches=%d, definition %d", x, i, a, k, (long long)f.since, (long long)f.until, e, p, g, got, want);
            yes += got;
            bool g2 = nostr_filters_match(&f, 1, EV[x]); if (g2 != want) mc_fail("match-set1", "set of one: %d, definition %d", g2, want);
        }
        mc_eval(n); mc_steps(n); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, ik * 100 + a), g * 10000 + yes)); mc_state(mc_hash_u64(ik * 1000 + a * 100 + g, x));
        MC_CHECK(refev_hash(EV[x]) == h0, "event-changed", "matching altered the event");
    }
    mc_conform();
}
/* every prefix length, and one differing digit at every place */
static void prefix(void)
{
    int len = mc_choose(66), field = mc_choose(2), other = mc_choose(3); char s[80], d[65]; uint8_t b[32]; for (int i = 0; i < 32; i++) b[i] = (uint8_t)(i * 37 + 11); ref_hex(b, 32, d);
    nostr_event *e = refev_new(); memcpy(field ? e->pubkey.data : e->id, b, 32);
    memcpy(s, d, 64); s[64] = 'a'; s[65] = 0; if (len < 66) s[len] = 0;
    char *l[2] = { other == 2 ? (char *)A64 : s, other ? s : NULL }; if (other == 1) l[1] = (char *)C64;
    nostr_filter_t f = { 0 }; if (field) f.authors = l, f.authors_count = other ? 2 : 1; else f.ids = l, f.ids_count = other ? 2 : 1;
    for (int pos = -1; pos < len; pos++) for (int c = 0; c < 16; c++) {
        char o = 0; if (pos >= 0) { o = s[pos]; s[pos] = "0123456789abcdef"[c]; } 
        int want = ref_match(&f, e); bool got = nostr_filter_matches(&f, e); mc_step();
        MC_CHECK(got == want, "prefix", "%s %s against %s: %d", field ? "author" : "id", mc_q(s), d, got);
        if (pos >= 0) s[pos] = o; else break;
    }
    nostr_event_destroy(e); mc_outcome(mc_hash_u64(MC_H0, len * 6 + field * 3 + other));
}
/* many tags: the matching one at every place */
static void manytags(void)
{
    static const char *const N[] = { "e", "p", "t", "E", "z" }; int n = mc_choose(70) * 10, ni = mc_choose(5), vals = mc_choose(2) ? 1 : 256; int pos = n ? mc_choose(8) : 0;
    nostr_event *e = refev_new(); int at = n ? (pos == 7 ? -1 : pos == 6 ? n - 1 : n * pos / 6) : -1;
    for (int i = 0; i < n; i++) { char v[20]; snprintf(v, 20, "v%d", i); refev_tag(e, 2, N[ni], i == at ? "hit" : v, 0, 0); }
    char *l[256]; for (int i = 0; i < 256; i++) l[i] = i == vals - 1 ? (char *)"hit" : (char *)"nope";
    nostr_filter_t f = { 0 }; nostr_generic_tag_filter_t g = { N[ni][0], l, (size_t)vals };
    if (ni == 0) f.e_tags = l, f.e_tags_count = vals; else if (ni == 1) f.p_tags = l, f.p_tags_count = vals; else f.generic_tags = &g, f.generic_tags_count = 1;
    bool got = nostr_filter_matches(&f, e); mc_step();
    MC_CHECK(got == (at >= 0), "many-tags", "#%s with %d event tags, match at %d, %d values: %d", N[ni], n, at, vals, got);
    nostr_event_destroy(e); mc_outcome(mc_hash_u64(MC_H0, n * 100 + pos * 10 + ni));
}
/* first/second value, name prefixes, tag order: all sequences of up to 4 tags from an alphabet */
static void tagseq(void)
{
    static const struct { int n; const char *a, *b, *c; } T[] = { {2,"e",A64,0}, {2,"e",B64,0}, {3,"e",B64,A64}, {1,"e",0,0}, {2,"p",A64,0}, {2,"t","x",0}, {3,"t","y","x"}, {2,"T","x",0}, {2,"te","x",0}, {2,"","x",0}, {2,"t","",0}, {3,"x","t","x"} };
    int a = mc_choose(MC_LEN(T) + 1); nostr_event *e = refev_new(); int depth = mc_thorough() ? 5 : 4;
    for (int i = 0, k = a; ; ) { if (k == MC_LEN(T)) break; refev_tag(e, T[k].n, T[k].a, T[k].b, T[k].c, 0); if (++i == depth) break; k = mc_choose(MC_LEN(T) + 1); }
    for (int g = 0; g < MC_LEN(GEN); g++) for (int x = 0; x < MC_LEN(ETAG); x++) for (int p = 0; p < MC_LEN(PTAG); p++) {
        nostr_generic_tag_filter_t gs[3]; nostr_filter_t f = mk(0, 0, 0, 0, 0, x, p, g, gs); int want = ref_match(&f, e); bool got = nostr_filter_matches(&f, e);
        if (got != want) { ref_buf b = {0}; refev_json(&b, e); mc_fail("tag-match", "#e %d #p %d generic %d on %s: %d, definition %d", x, p, g, b.s, got, want); }
    }
    mc_steps(84); mc_state(refev_hash(e)); nostr_event_destroy(e); mc_conform();
}
/* sets of filters, search callback */
static int cb_calls, cb_answer, cb_bad; static void *cb_ud; static const nostr_event *cb_ev; static char cb_q[64];
static bool cb(const char *q, const nostr_event *e, void *u) { cb_calls++; if (u != cb_ud || e != cb_ev) cb_bad = 1; if (!q || !*q) cb_bad = 2; else { size_t n = strlen(cb_q); if (n < 50) snprintf(cb_q + n, 60 - n, "%s,", q); } return cb_answer >> (q[0] & 1) & 1; }
static void sets(void)
{
    static const char *const S[] = { NULL, "", "a", "b" };
    int first = mc_choose(36), n = mc_choose(4), ei = mc_choose(nev), usecb = mc_choose(2); cb_answer = mc_choose(4); nostr_filter_t f[3]; nostr_generic_tag_filter_t gs[3][3]; memset(f, 0, sizeof f);
    int want = 0, wants = 0, maxcalls = 0, anyneed = 0;
    for (int i = 0; i < n; i++) {
        int v = i ? mc_choose(12) : first % 12, s = i ? mc_choose(4) : first / 12 + (first / 12 == 2 ? 1 : 0);
        f[i] = mk(v % 4 == 1, v % 4 == 2 ? 3 : 0, v / 4 == 1 ? 1 : v / 4 == 2 ? 4 : 0, v % 4 == 3, 0, v == 5, v == 7, v == 9, gs[i]); f[i].search = (char *)S[s];
        int m = ref_match(&f[i], EV[ei]); want |= m;
        int ms = m; if (m && S[s] && *S[s]) { ms = usecb && (cb_answer >> (S[s][0] & 1) & 1); maxcalls++; anyneed = 1; } wants |= ms;
        bool one = nostr_filter_matches(&f[i], EV[ei]); MC_CHECK(one == m, "one", "filter %d alone: %d", i, one);
        cb_calls = cb_bad = 0; cb_q[0] = 0; cb_ud = &one; cb_ev = EV[ei];
        bool o2 = nostr_filter_matches_with_search(&f[i], EV[ei], usecb ? cb : NULL, &one); mc_step();
        MC_CHECK(o2 == ms && !cb_bad, "one-search", "filter %d search %s callback %d answer %d: %d, expected %d (bad %d)", i, S[s] ? S[s] : "none", usecb, cb_answer, o2, ms, cb_bad);
        MC_CHECK(cb_calls <= 1 && (S[s] && *S[s] ? 1 : !cb_calls), "one-calls", "callback called %d times for search %s", cb_calls, S[s] ? S[s] : "none");
    }
    bool got = nostr_filters_match(n ? f : NULL, n, EV[ei]); mc_step(); MC_CHECK(got == want, "set", "set of %d: %d, some filter matches: %d", n, got, want);
    cb_calls = cb_bad = 0; cb_q[0] = 0; cb_ud = &want; cb_ev = EV[ei];
    got = nostr_filters_match_with_search(f, n, EV[ei], usecb ? cb : NULL, &want); mc_step();
    MC_CHECK(got == wants && !cb_bad && cb_calls <= maxcalls, "set-search", "set of %d with search: %d, expected %d (calls %d bad %d)", n, got, wants, cb_calls, cb_bad);
    (void)anyneed; mc_state(mc_hash_u64(MC_H0, first * 1000 + n * 100 + ei)); mc_outcome(mc_hash_u64(MC_H0, want * 2 + wants)); mc_conform();
}
static void nulls(void)
{
    int i = mc_choose(6); nostr_filter_t f = { 0 }; mc_step(); bool r = true;
    switch (i) { case 0: r = nostr_filter_matches(NULL, EV[0]); break; case 1: r = nostr_filter_matches(&f, NULL); break; case 2: r = nostr_filters_match(NULL, 1, EV[0]); break; case 3: r = nostr_filters_match(&f, 0, EV[0]); break; case 4: r = nostr_filters_match_with_search(&f, 1, NULL, cb, NULL); break; case 5: r = nostr_filter_matches_with_search(&f, NULL, NULL, NULL); break; }
    MC_CHECK(!r, "null", "case %d matches", i); mc_outcome(i);
}
const mc_scenario mc_scenarios[] = {
    { "product", product, setup, 3, 0, "product of condition variants x 9 events against the definition" },
    { "prefix", prefix, NULL, 3, 0, "every id/author prefix length, every differing digit" },
    { "manytags", manytags, NULL, 3, 0, "0..690 tags of a name, the matching one at 7 places, 1 and 256 listed values" },
    { "tagseq", tagseq, setup, 3, 0, "every sequence of up to 4 (5) tags from 12" },
    { "sets", sets, setup, 3, 0, "sets of 0..3 filters, with search text and callback answers" },
    { "nulls", nulls, setup, 3, 0, "null arguments" },
    MC_END };
