/* C04: an event's tags behave like a growing list of string lists.
 * Reference: a plain list of string lists.  Explored: every sequence of operations up to the depth,
 * every arena fill level around the growth boundaries, every allocation failing once. */
#include "refev.h"
#include "fault.h"
#include <nostr_relay_protocol.h>

#define RT 140
typedef struct { int n; char **v; } rtag;
typedef struct { rtag t[RT]; int nt; char *content; } rev;
static char pool[1 << 22]; static size_t poolu;
static char *keep(const char *s) { size_t n = strlen(s) + 1; if (poolu + n > sizeof pool) abort(); char *p = pool + poolu; memcpy(p, s, n); poolu += n; return p; }
static char **keepv(int n) { poolu = (poolu + 7) & ~(size_t)7; size_t z = sizeof(char *) * (n < 3 ? 3 : n); if (poolu + z > sizeof pool) abort(); char **p = (char **)(pool + poolu); poolu += z; return p; }

static char BIG[5][6000];
static void setup(void)
{
    static const int L[5] = { 200, 500, 900, 1900, 5000 };
    for (int k = 0; k < 5; k++) { for (int i = 0; i < L[k]; i++) BIG[k][i] = "abcdefghijklmnopqrstuvwxyz"[(i * 7 + k) % 26]; }
    fault_install(); nostr_init();
}
static void setup_cfg(void) { setup(); nostr_init_with_config(NULL); }
static uint64_t model_hash(const rev *m)
{
    uint64_t h = MC_H0;
    for (int i = 0; i < m->nt; i++) { h = mc_hash_u64(h, m->t[i].n); for (int j = 0; j < m->t[i].n; j++) h = mc_hash_str(h, m->t[i].v[j]); }
    return mc_hash_str(h, m->content);
}
static void compare(const nostr_event *e, const rev *m, const char *what)
{
    if ((int)e->tags_count != m->nt) mc_fail("tags:count", "%s: %zu tags, expected %d", what, e->tags_count, m->nt);
    for (int i = 0; i < m->nt; i++) {
        if ((int)e->tags[i].count != m->t[i].n) mc_fail("tags:values", "%s: tag %d has %zu values, expected %d", what, i, e->tags[i].count, m->t[i].n);
        if ((uintptr_t)e->tags[i].values % _Alignof(char *)) mc_fail("tags:alignment", "%s: the values of tag %d are misaligned", what, i);
        for (int j = 0; j < m->t[i].n; j++)
            if (!e->tags[i].values[j] || strcmp(e->tags[i].values[j], m->t[i].v[j]))
                mc_fail("tags:content", "%s: tag %d value %d is %.60s, expected %.60s", what, i, j, mc_q(e->tags[i].values[j]), mc_q(m->t[i].v[j]));
    }
    if (strcmp(e->content ? e->content : "", m->content ? m->content : "")) mc_fail("content", "%s: content %.60s expected %.60s", what, mc_q(e->content), mc_q(m->content));
    mc_state(model_hash(m));
}
/* is (e) exactly (m)? */
static int same(const nostr_event *e, const rev *m)
{
    if ((int)e->tags_count != m->nt) return 0;
    for (int i = 0; i < m->nt; i++) {
        if ((int)e->tags[i].count != m->t[i].n) return 0;
        for (int j = 0; j < m->t[i].n; j++) if (!e->tags[i].values[j] || strcmp(e->tags[i].values[j], m->t[i].v[j])) return 0;
    }
    return !strcmp(e->content ? e->content : "", m->content ? m->content : "");
}
static void m_add(rev *m, int n, const char *const *v)
{
    rtag *t = &m->t[m->nt++]; t->n = n; t->v = keepv(n); for (int i = 0; i < n; i++) t->v[i] = keep(v[i]);
}
static void m_nonce(rev *m, uint64_t nonce, int target)
{
    char a[32], b[16]; sprintf(a, "%" PRIu64, nonce); sprintf(b, "%d", target);
    int i; for (i = 0; i < m->nt && strcmp(m->t[i].v[0], "nonce"); i++) ;
    if (i == m->nt) { const char *v[3] = { "nonce", a, b }; m_add(m, target > 0 ? 3 : 2, v); return; }
    rtag *t = &m->t[i]; char **old = t->v; t->v = keepv(t->n); memcpy(t->v, old, sizeof(char *) * t->n);
    t->v[1] = keep(a);
    if (target > 0) { t->v[2] = keep(b); if (t->n < 3) t->n = 3; } else t->n = 2;
}
enum { OP_MAX = 18 };
/* one operation on e and m; returns the library's verdict, *applied says the model's successor is in n */
static nostr_error_t op(int o, nostr_event *e, const rev *m, rev *n)
{
    *n = *m; nostr_error_t r; const char *v[8];
#define ADD(cnt, ...) do { const char *q[] = { __VA_ARGS__ }; m_add(n, cnt, q); r = nostr_event_add_tag(e, q, cnt); } while (0)
    switch (o) {
    case 0: ADD(1, "a"); break;
    case 1: ADD(2, "t", ""); break;
    case 2: ADD(3, "e", "x\"\\", "\xc3\xa9"); break;
    case 3: ADD(2, "big", BIG[0]); break;
    case 4: ADD(3, "big", BIG[1], BIG[1]); break;
    case 5: ADD(2, BIG[2], "z"); break;
    case 6: ADD(1, BIG[4]); break;
    case 7: n->content = keep("hello"); r = nostr_event_set_content(e, "hello"); break;
    case 8: n->content = keep(BIG[3]); r = nostr_event_set_content(e, BIG[3]); break;
    case 9: n->content = keep(""); r = nostr_event_set_content(e, ""); break;
    case 10: m_nonce(n, 7, 0); r = nostr_nip13_add_nonce_tag(e, 7, 0); break;
    case 11: m_nonce(n, 12345678901234ull, 20); r = nostr_nip13_add_nonce_tag(e, 12345678901234ull, 20); break;
    case 12: ADD(1, "nonce"); break;
    case 13: /* copy an existing tag through the event's own storage */
        if (!m->nt) return -1000;
        m_add(n, m->t[0].n, (const char *const *)m->t[0].v); r = nostr_event_add_tag(e, (const char **)e->tags[0].values, e->tags[0].count); break;
    case 14: /* values taken from the event's own last tag and content */
        if (!m->nt || !m->content) return -1000;
        { rtag *l = (rtag *)&m->t[m->nt - 1]; const char *mv[3] = { "q", l->v[l->n - 1], m->content }; m_add(n, 3, mv);
          nostr_tag *t = &e->tags[e->tags_count - 1]; v[0] = "q"; v[1] = t->values[t->count - 1]; v[2] = e->content; r = nostr_event_add_tag(e, v, 3); }
        break;
    case 15: /* own content (a suffix of it) as content */
        if (!m->content || strlen(m->content) < 2) return -1000;
        n->content = keep(m->content + 1); r = nostr_event_set_content(e, e->content + 1); break;
    case 16: { /* must be refused */
        const char *bad[3] = { "t", NULL, "x" }; int k = mc_choose(4);
        r = k == 0 ? nostr_event_add_tag(e, bad, 3) : k == 1 ? nostr_event_add_tag(e, bad, 0) : k == 2 ? nostr_event_add_tag(e, NULL, 1) : nostr_event_set_content(e, NULL);
        if (r == NOSTR_OK) mc_fail("bad-argument-accepted", "bad argument %d accepted", k);
        } break;
    case 17: ADD(5, "nonce", "5", "1", "extra", BIG[0]); break;
    default: return -1000;
    }
    return r;
}
static const char *OPN[] = { "add[a]", "add[t,\"\"]", "add[e,esc,utf8]", "add 200", "add 2x500", "add[900,z]", "add 5000", "content hello", "content 1900", "content empty", "nonce 7", "nonce big target 20", "add[nonce]", "copy own tag 0", "add own strings", "own content+1", "bad argument", "add[nonce,5 values]" };

static void finish(nostr_event *e)
{
    nostr_event_destroy(e);
    if (fault_live()) mc_fail("leak", "%ld blocks still allocated after destroying the event: %s", fault_live(), fault_live_desc());
    mc_conform();
}
static rev M, N;
static void run(int depth, int nops, nostr_event *e)
{
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(nops);
        nostr_error_t r = op(o, e, &M, &N);
        if (r == -1000) { nostr_event_destroy(e); mc_discard(); }
        mc_step(); MC_NOTE("%s -> %d", OPN[o], r);
        if (r == NOSTR_OK) M = N;
        else if (o != 16 && !fault_injected()) mc_fail("valid-operation-refused", "%s failed with %d", OPN[o], r);
        compare(e, &M, OPN[o]);
    }
    mc_outcome(model_hash(&M));
}
static void begin(void) { poolu = 0; memset(&M, 0, sizeof M); fault_reset(); fault_track(1); }
static void sequences(void)
{
    begin(); fault_realloc_moves = 1;
    nostr_event *e = NULL; nostr_event_create(&e);
    run(mc_thorough() ? 5 : 4, OP_MAX, e);
    finish(e);
}
/* every arena fill level 0..1100 (and around 2048) followed by every pair of operations */
static void boundary(void)
{
    int base = mc_choose(mc_thorough() ? 1100 : 160); if (!mc_thorough()) base = base < 80 ? 940 + base : 2040 - 80 + base;
    begin(); fault_realloc_moves = mc_choose(2);
    nostr_event *e = NULL; nostr_event_create(&e);
    static char fill[3000]; memset(fill, 'f', base); fill[base] = 0;
    const char *v[1] = { fill }; m_add(&M, 1, v); if (nostr_event_add_tag(e, v, 1) != NOSTR_OK) mc_fail("add", "add failed");
    MC_NOTE("first tag %d bytes", base);
    run(2, OP_MAX, e);
    finish(e);
}
/* the same with every single allocation failing (two in the thorough tier) */
static void faults(void)
{
    mc_set_dev_bound(mc_thorough() ? 2 : 1);
    begin(); fault_realloc_moves = 1;
    nostr_event *e = NULL; fault_arm();
    int d1 = mc_choose(OP_MAX), d2 = mc_choose(OP_MAX), d3 = mc_choose(OP_MAX); int seq[3] = { d1, d2, d3 };
    nostr_error_t r = nostr_event_create(&e);
    if (r != NOSTR_OK) { if (!fault_injected()) mc_fail("create", "create failed"); fault_disarm(); MC_CHECK(!fault_live(), "leak", "failed create leaks %s", fault_live_desc()); mc_outcome(1); mc_conform(); return; }
    for (int d = 0; d < 3; d++) {
        int before = fault_injected();
        r = op(seq[d], e, &M, &N); if (r == -1000) { fault_disarm(); nostr_event_destroy(e); mc_discard(); }
        mc_step(); MC_NOTE("%s -> %d", OPN[seq[d]], r);
        if (r == NOSTR_OK) M = N;
        else if (fault_injected() == before && seq[d] != 16) mc_fail("valid-operation-refused", "%s failed with %d", OPN[seq[d]], r);
        compare(e, &M, OPN[seq[d]]);
    }
    mc_outcome(mc_hash_u64(model_hash(&M), fault_injected())); fault_disarm(); finish(e);
}
/* configured limit on the number of tags: the first max_tags are accepted, the next refused without effect */
static void limits(void)
{
    int lim = 1 + mc_choose(120);
    begin();
    nostr_config c; nostr_config_get_defaults(&c); c.max_tags = lim;
    nostr_event *e = NULL;
    if (nostr_config_update(&c) != NOSTR_OK) mc_fail("config", "max_tags=%d rejected", lim);
    nostr_event_create(&e);
    for (int i = 0; i < lim + 2; i++) {
        char a[20]; sprintf(a, "%d", i); const char *v[2] = { "t", a };
        nostr_error_t r = nostr_event_add_tag(e, v, 2);
        if (i < lim) { MC_CHECK(r == NOSTR_OK, "limit:refused", "tag %d of max %d refused (%d)", i, lim, r); m_add(&M, 2, v); }
        else MC_CHECK(r != NOSTR_OK, "limit:exceeded", "tag %d accepted, max_tags is %d", i, lim);
        mc_step();
    }
    compare(e, &M, "limit"); mc_outcome(lim);
    finish(e);
}
/* growth chain: many tags of one size, storage moved at every growth */
static void chains(void)
{
    int sz = mc_choose(300), vals = 1 + mc_choose(4);
    begin(); fault_realloc_moves = 1;
    nostr_event *e = NULL; nostr_event_create(&e);
    static char s[400]; memset(s, 'c', sz); s[sz] = 0;
    for (int i = 0; i < 60; i++) {
        char k[16]; sprintf(k, "%d", i); const char *v[5] = { k, s, "x", k, s };
        m_add(&M, 1 + vals, v); if (nostr_event_add_tag(e, v, 1 + vals) != NOSTR_OK) mc_fail("add", "tag %d refused", i);
        if (i % 7 == 0) compare(e, &M, "chain");
        mc_step();
    }
    compare(e, &M, "chain end"); mc_outcome(mc_hash_u64(MC_H0, sz * 8 + vals)); finish(e);
}
/* repeated nonce refreshes as a miner does */
static void refresh(void)
{
    int where = mc_choose(5), first = mc_choose(4), n = mc_choose(3);
    begin(); fault_realloc_moves = 1;
    nostr_event *e = NULL; nostr_event_create(&e);
    const char *o[2] = { "t", "other" };
    for (int i = 0; i < where; i++) { m_add(&M, 2, o); nostr_event_add_tag(e, o, 2); }
    const char *nn[4] = { "nonce", "1", "2", "3" };
    if (first) { m_add(&M, first, nn); nostr_event_add_tag(e, nn, first); }
    for (int i = where; i < 5; i++) { m_add(&M, 2, o); nostr_event_add_tag(e, o, 2); }
    static const int CNT[] = { 3, 70, 400 };
    for (int i = 0; i < CNT[n]; i++) {
        uint64_t v = (uint64_t)i * 0x123456789abull; int t = (i % 3 == 0) ? 0 : i; poolu = poolu > sizeof pool / 2 ? poolu : poolu;
        m_nonce(&M, v, t); nostr_error_t r = nostr_nip13_add_nonce_tag(e, v, t);
        MC_CHECK(r == NOSTR_OK, "nonce:refused", "refresh %d failed %d", i, r);
        compare(e, &M, "refresh"); mc_step();
    }
    mc_outcome(model_hash(&M)); finish(e);
}
/* tags of every width (values per tag), before and after the nonce tag, through repeated growth by refreshing and adding */
static void widths(void)
{
    int w = 1 + mc_choose(40), w2 = mc_choose(4), pos = mc_choose(3), len = mc_choose(3), how = mc_choose(3); static const int W2[] = { 0, 1, 9, 33 }; w2 = W2[w2];
    begin(); fault_realloc_moves = 1;
    nostr_event *e = NULL; nostr_event_create(&e);
    static char buf[64][40]; const char *v[64]; const char *nn[3] = { "nonce", "0", "1" };
    for (int i = 0; i < 64; i++) { sprintf(buf[i], "v%d%.*s", i, len * 12, "abcdefghijklmnopqrstuvwxyz"); v[i] = buf[i]; }
    for (int k = 0; k < 3; k++) {
        if (k == pos) { m_add(&M, 3, nn); nostr_event_add_tag(e, nn, 3); }
        int n = k == 1 ? w2 : w; if (n) { m_add(&M, n, v); MC_CHECK(nostr_event_add_tag(e, v, n) == NOSTR_OK, "add", "tag of %d values refused", n); }
    }
    compare(e, &M, "widths");
    int growths = 0;
    for (int i = 0; i < 600 && growths < 2; i++) {
        void *mem = e->tag_arena->memory; nostr_error_t r;
        if (how == 0 || (how == 2 && i % 3)) { uint64_t x = 123456789ull * i; m_nonce(&M, x, 20); r = nostr_nip13_add_nonce_tag(e, x, 20); }
        else if (M.nt < RT - 2) { m_add(&M, w, v); r = nostr_event_add_tag(e, v, w); }
        else break;
        MC_CHECK(r == NOSTR_OK, "refused", "step %d refused %d", i, r);
        if (e->tag_arena->memory != mem) { growths++; compare(e, &M, "after growth"); mc_step(); }
    }
    compare(e, &M, "widths end"); mc_outcome(mc_hash_u64(model_hash(&M), growths)); finish(e);
}
/* long lists, with nonce refreshes in between */
static void many(void)
{
    int every = 1 + mc_choose(40), cnt = 1 + mc_choose(3);
    begin(); fault_realloc_moves = 1;
    nostr_event *e = NULL; nostr_event_create(&e);
    for (int i = 0; i < RT - 1; i++) {
        char a[20]; sprintf(a, "value-%d", i); const char *v[4] = { "t", a, "x", a };
        if (i % every == every - 1) { m_nonce(&M, i, i); MC_CHECK(nostr_nip13_add_nonce_tag(e, i, i) == NOSTR_OK, "nonce", "refused"); }
        else { m_add(&M, cnt + 1, v); MC_CHECK(nostr_event_add_tag(e, v, cnt + 1) == NOSTR_OK, "add", "tag %d refused", i); }
        compare(e, &M, "many"); mc_step();
    }
    mc_outcome(model_hash(&M)); finish(e);
}
const mc_scenario mc_scenarios[] = {
    {"widths", widths, setup, 3, 0, "every tag width 1..40 x second width x nonce position x value length x growth by refresh/add/both"},
    {"many", many, setup, 3, 0, "139 operations of adds and refreshes at every interval 1..40"},
    {"sequences", sequences, setup, 3, 0, "all sequences of 4 (5) operations from an alphabet of 18, storage moved at every growth"},
    {"boundary", boundary, setup, 3, 0, "160 (1100) fill levels around the growth boundary x all pairs of operations x moving/growing in place"},
    {"faults", faults, setup, 3, 0, "all 3-operation sequences x every single (pair of) allocation failure(s)"},
    {"limits", limits, setup_cfg, 3, 0, "every tag limit 1..120"},
    {"chains", chains, setup, 3, 0, "60 tags of every value size 0..299 x 1-4 values"},
    {"refresh", refresh, setup, 3, 0, "up to 400 nonce refreshes at every tag position and shape"},
    MC_END
};
