/* C12: replacement order and kind classes.
 *
 * Specified: NIP-01.  Of two events of one address the newer created_at wins, of equal ones the
 * lexically lower id; the answer is the sign of the comparison.  The kinds are partitioned into
 * regular, replaceable, ephemeral and addressable by the NIP-01 ranges.
 * Enumerated: all ordered pairs over boundary timestamps x ids differing in any one byte, all
 * triples over a smaller set, every arrival order of sets of events, every kind 0..65535.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include <nostr.h>
#include <nostr_relay_protocol.h>
#include <limits.h>
#include <string.h>
#include <stdlib.h>

static const int64_t T[] = { INT64_MIN, INT64_MIN + 1, -4294967297LL, -2147483649LL, -1, 0, 1, 255, 256, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 1700000000, 1700000001, (1LL << 53) + 1, INT64_MAX - 1, INT64_MAX };
enum { NT = MC_LEN(T) };
static int refcmp(const nostr_event *a, const nostr_event *b)
{
    if (a->created_at != b->created_at) return a->created_at < b->created_at ? -1 : 1;
    for (int i = 0; i < 32; i++) if (a->id[i] != b->id[i]) return a->id[i] < b->id[i] ? 1 : -1;
    return 0;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static const uint8_t B[] = { 0, 1, 0x7f, 0x80, 0xff };
static void mkid(uint8_t *id, int base, int pos, int b) { memset(id, base ? 0x55 : 0, 32); if (pos >= 0) id[pos] = B[b]; }
static void fill(nostr_event *e, int dress)
{
    static char *dv[] = { "d", "x" }, *tv[] = { "t", "y" }; static nostr_tag tg[2] = { { dv, 2 }, { tv, 2 } };
    memset(e, 0, sizeof *e); e->kind = 30023; memset(e->pubkey.data, 7, 32);
    e->tags = tg; e->tags_count = 1;
    if (dress & 1) { memset(e->sig, 0xff, 64); e->content = "zzz"; }
    if (dress & 2) e->tags_count = 2;
}
static void cmp(const nostr_event *a, const nostr_event *b)
{
    int w = refcmp(a, b), r1 = nostr_event_compare_replaceable(a, b), r2 = nostr_event_compare_addressable(a, b);
    mc_eval(2);
    if (sgn(r1) != w) mc_report("replaceable", "created_at %lld id %s against created_at %lld id %s: %d, expected %d", (long long)a->created_at, mc_hex(a->id, 32), (long long)b->created_at, mc_hex(b->id, 32), r1, w);
    if (sgn(r2) != w) mc_report("addressable", "created_at %lld id %s against created_at %lld id %s: %d, expected %d", (long long)a->created_at, mc_hex(a->id, 32), (long long)b->created_at, mc_hex(b->id, 32), r2, w);
}
/* all ordered pairs: (timestamp, timestamp) x one differing byte each */
static void pairs(void)
{
    int i = mc_choose(NT), j = mc_choose(NT), dress = mc_choose(9), base = mc_choose(2);
    nostr_event a, b; fill(&a, dress / 3); fill(&b, dress % 3); a.created_at = T[i]; b.created_at = T[j];
    for (int p = -1; p < 32; p++) for (int x = 0; x < (p < 0 ? 1 : 5); x++) {
        mkid(a.id, base, p, x);
        for (int q = -1; q < 32; q++) { if (i != j && (p + q) % 5) continue; for (int y = 0; y < (q < 0 ? 1 : 5); y++) { mkid(b.id, base, q, y); cmp(&a, &b); } }
    }
    mc_step(); mc_conform(); mc_state(mc_hash_u64(mc_hash_u64(MC_H0, i), j)); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, i * 100 + j), dress));
    MC_NOTE("created_at %lld against %lld: every pair of ids differing in one byte", (long long)T[i], (long long)T[j]);
}
/* ids sharing a prefix of every length, then differing in two bytes in opposite directions */
static void prefixes(void)
{
    int p = mc_choose(31), lo = mc_choose(2); nostr_event a, b; fill(&a, 0); fill(&b, 1); a.created_at = b.created_at = 1700000000;
    for (int q = p + 1; q < 32; q++) for (int v = 0; v < 256; v++) {
        memset(a.id, 0x3c, 32); memset(b.id, 0x3c, 32); a.id[p] = (uint8_t)v; b.id[p] = (uint8_t)(v ^ 0x80); (lo ? a.id : b.id)[q] = 0xff; (lo ? b.id : a.id)[q] = 0;
        cmp(&a, &b); b.id[p] = (uint8_t)(v + 1); cmp(&a, &b);
    }
    mc_step(); mc_conform(); mc_outcome(p * 2 + lo);
}
static nostr_event S[9];
static void mkset(void)
{
    static const struct { int t; uint8_t a, z; } D[9] = { {13, 0, 0}, {13, 0, 1}, {13, 0x80, 0}, {13, 0xff, 0x7f}, {14, 0xff, 0xff}, {14, 0, 0x80}, {4, 0, 0}, {5, 0, 0}, {17, 0x7f, 1} };
    for (int i = 0; i < 9; i++) { fill(&S[i], i % 3); S[i].created_at = T[D[i].t]; S[i].id[0] = D[i].a; S[i].id[31] = D[i].z; }
}
/* a relay keeps the survivor: every arrival sequence (with repetitions) leaves the same one */
static void arrivals(void)
{
    mkset(); int n = mc_thorough() ? 7 : 6, cur = -1; uint64_t seen = 0, h = MC_H0;
    for (int k = 0; k < n; k++) {
        int e = mc_choose(9), f = k & 1; seen |= 1ull << e; mc_step();
        int (*c)(const nostr_event *, const nostr_event *) = f ? nostr_event_compare_addressable : nostr_event_compare_replaceable;
        if (cur < 0 || c(&S[e], &S[cur]) > 0) cur = e; else if (cur != e && c(&S[cur], &S[e]) <= 0) mc_fail("order", "neither of events %d and %d wins", cur, e);
        int w = -1; for (int i = 0; i < 9; i++) if (seen >> i & 1 && (w < 0 || refcmp(&S[i], &S[w]) > 0)) w = i;
        MC_CHECK(cur == w, "survivor", "event %d survives, not %d", cur, w); h = mc_hash_u64(h, e);
        mc_state(mc_hash_u64(mc_hash_u64(MC_H0, seen), cur));
    }
    mc_outcome(h); mc_conform();
}
static void triples(void)
{
    nostr_event e[3]; int t0 = mc_choose(NT);
    static const int TT[] = { 0, 4, 5, 9, 10, 13, 14, 17 }; enum { N = 8 * 6 }; nostr_event A[N];
    for (int i = 0; i < N; i++) { fill(&A[i], i % 4); A[i].created_at = T[TT[i / 6]]; static const uint8_t V[6][2] = { {0, 0}, {0, 1}, {1, 0}, {0x80, 0}, {0, 0x80}, {0xff, 0xff} }; A[i].id[3] = V[i % 6][0]; A[i].id[20] = V[i % 6][1]; }
    fill(&e[0], 0); e[0].created_at = T[t0]; e[0].id[3] = 0; e[0].id[20] = 1;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
        int ab = nostr_event_compare_replaceable(&e[0], &A[i]), bc = nostr_event_compare_replaceable(&A[i], &A[j]), ac = nostr_event_compare_replaceable(&e[0], &A[j]), ba = nostr_event_compare_replaceable(&A[i], &e[0]);
        mc_eval(1);
        if (sgn(ab) != -sgn(ba)) mc_report("antisymmetry", "compare(a,b)=%d, compare(b,a)=%d", ab, ba);
        if (ab >= 0 && bc >= 0 && !(ac >= 0)) mc_report("transitivity", "a>=b, b>=c but compare(a,c)=%d", ac);
        if (ab > 0 && bc > 0 && !(ac > 0)) mc_report("transitivity", "a>b, b>c but compare(a,c)=%d", ac);
        if (ab == 0 && bc == 0 && ac) mc_report("transitivity", "a=b, b=c but compare(a,c)=%d", ac);
    }
    mc_step(); mc_conform(); mc_outcome(t0);
}
static int refkind(long k)
{
    if (k >= 20000 && k <= 29999) return NOSTR_KIND_EPHEMERAL;
    if (k >= 30000 && k <= 39999) return NOSTR_KIND_ADDRESSABLE;
    if (k == 0 || k == 3 || (k >= 10000 && k <= 19999)) return NOSTR_KIND_REPLACEABLE;
    return NOSTR_KIND_REGULAR;
}
static void kind1(int32_t k)
{
    int t = nostr_kind_get_type(k), n = nostr_kind_is_regular(k) + nostr_kind_is_replaceable(k) + nostr_kind_is_ephemeral(k) + nostr_kind_is_addressable(k);
    if (k >= 0 && k <= 65535 && t != refkind(k)) mc_report("kind-class", "kind %d is of class %d, expected %d", k, t, refkind(k));
    if (n != 1) mc_report("kind-partition", "kind %d belongs to %d classes", k, n);
    int ok = t == NOSTR_KIND_REGULAR ? nostr_kind_is_regular(k) : t == NOSTR_KIND_REPLACEABLE ? nostr_kind_is_replaceable(k) : t == NOSTR_KIND_EPHEMERAL ? nostr_kind_is_ephemeral(k) : t == NOSTR_KIND_ADDRESSABLE ? nostr_kind_is_addressable(k) : 0;
    if (!ok) mc_report("kind-predicate", "kind %d: class %d and predicates disagree", k, t);
    mc_eval(1);
}
static void kinds(void)
{
    int c = mc_choose(264);
    if (c < 256) for (int k = 0; k < 256; k++) kind1(c * 256 + k);
    else { static const int64_t X[8] = { INT32_MIN, -65536, -40000, -10000, -1, 65536, 131072, INT32_MAX }; for (int64_t k = X[c - 256] - 40000; k <= X[c - 256] + 40000; k++) if (k >= INT32_MIN && k <= INT32_MAX) kind1((int32_t)k); }
    mc_step(); mc_conform(); mc_outcome(c); MC_NOTE("256 kinds from %d", c * 256);
}
static void nulls(void)
{
    nostr_event a; fill(&a, 0);
    MC_CHECK(!nostr_event_compare_replaceable(NULL, &a) && !nostr_event_compare_replaceable(&a, NULL) && !nostr_event_compare_addressable(NULL, NULL) && !nostr_event_compare_replaceable(&a, &a), "null", "comparison with NULL or itself"); mc_step(); mc_outcome(0);
}
const mc_scenario mc_scenarios[] = {
    {"pairs", pairs, 0, 3, 60, "all ordered pairs of 18 timestamps x ids differing in one byte"},
    {"prefixes", prefixes, 0, 3, 60, "ids with common prefix of every length and two differing bytes"},
    {"arrivals", arrivals, 0, 3, 0, "all arrival sequences of 6 (7) out of 9 events"},
    {"triples", triples, 0, 3, 0, "order axioms on all triples"},
    {"kinds", kinds, 0, 3, 0, "all kinds 0..65535 and around, negative and extreme values"},
    {"nulls", nulls, 0, 3, 0, "NULL arguments"},
    MC_END
};
