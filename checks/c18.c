/* C18: proof of work: difficulty, mining and verification agree.
 *
 * Oracles: leading zero bits counted one by one; NIP-13 verification written out; a reference miner
 * that tries every nonce of the budget with an independent serializer and SHA-256.  The clock is a
 * link-time seam (constant during a call).
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <limits.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <time.h>

static int64_t NOW = 1700000000;
time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
static void setup(void) { fault_install(); nostr_init(); }
static int bits(const uint8_t *id) { int n = 0; while (n < 256 && !(id[n / 8] >> (7 - n % 8) & 1)) n++; return n; }

static void dif1(const uint8_t *id) { int w = bits(id), g = nostr_nip13_calculate_difficulty(id); mc_eval(1); if (g != w) mc_report("difficulty", "%s: %d, expected %d", mc_hex(id, 32), g, w); }
static void difficulty(void)
{
    int p = mc_choose(257); uint8_t id[32];
    for (int fill = 0; fill < 4; fill++) {
        memset(id, fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0xaa : 0x55, 32); for (int b = 0; b < p; b++) id[b / 8] &= ~(0x80 >> (b % 8)); if (p < 256) id[p / 8] |= 0x80 >> (p % 8); dif1(id);
        int lo = p / 8; if (p < 256) for (int b = lo + 1; b < 32; b++) { uint8_t o = id[b]; for (int v = 0; v < 256; v++) { id[b] = (uint8_t)v; dif1(id); } id[b] = o; }
        if (lo < 32) for (int v = 0; v < 65536; v++) { id[lo] = (uint8_t)(v >> 8); if (lo < 31) id[lo + 1] = (uint8_t)v; dif1(id); }
    }
    mc_step(); mc_conform(); mc_outcome(p); mc_state(p); MC_NOTE("ids with %d leading zero bits", p);
}
/* tag shapes: n elements of a nonce tag */
typedef struct { int n; const char *v[6]; } shape;
static const shape SH[] = { { 0, {0} }, { 1, { "nonce" } }, { 2, { "nonce", "" } }, { 2, { "nonce", "7" } }, { 3, { "nonce", "7", "" } }, { 3, { "nonce", "7", "0" } }, { 3, { "nonce", "7", "1" } }, { 3, { "nonce", "7", "8" } }, { 3, { "nonce", "7", "20" } }, { 3, { "nonce", "7", "255" } }, { 3, { "nonce", "7", "256" } }, { 3, { "nonce", "7", "257" } },
    { 3, { "nonce", "7", "65536" } }, { 3, { "nonce", "7", "2147483647" } }, { 3, { "nonce", "7", "2147483648" } }, { 3, { "nonce", "7", "4294967295" } }, { 3, { "nonce", "7", "4294967296" } }, { 3, { "nonce", "7", "4294967297" } }, { 3, { "nonce", "7", "18446744073709551616" } }, { 3, { "nonce", "7", "18446744073709551617" } }, { 3, { "nonce", "7", "-5" } }, { 3, { "nonce", "7", "abc" } }, { 3, { "nonce", "7", "12abc" } }, { 3, { "nonce", "7", " 9" } }, { 4, { "nonce", "7", "8", "x" } }, { 5, { "nonce", "776531", "16", "a", "b" } }, { 2, { "Nonce", "1" } }, { 3, { "nonc", "1", "2" } } };
/* committed target: -1 none or not a number, -2 not judged, else value (saturated) */
static int committed(const shape *s) { if (s->n < 3) return -1; const char *t = s->v[2]; if (!*t) return -1; int v = 0; for (const char *p = t; *p; p++) { if (*p < '0' || *p > '9') return -2; v = v > 100000 ? 1000000 : v * 10 + (*p - '0'); } return v; }
static void verify(void)
{
    int d = mc_choose(257), place = mc_choose(3); uint8_t id[32]; memset(id, 0xb7, 32); for (int b = 0; b < d; b++) id[b / 8] &= ~(0x80 >> (b % 8)); if (d < 256) id[d / 8] |= 0x80 >> (d % 8);
    nostr_event e; memset(&e, 0, sizeof e); memcpy(e.id, id, 32); e.content = "nonce"; char *o1[2] = { "p", "nonce" }, *o2[3] = { "t", "nonce", "20" };
    for (int k = 0; k < MC_LEN(SH); k++) for (int m = -3; m < 264; m++) {
        int min = m == -3 ? INT_MIN : m == -2 ? -2 : m == 258 ? 512 : m == 259 ? 65536 : m == 260 ? INT_MAX : m; if (m > 260) break;
        nostr_tag tg[3]; int n = 0; if (place) { tg[n].values = o1; tg[n++].count = 2; } if (SH[k].n) { tg[n].values = (char **)SH[k].v; tg[n++].count = SH[k].n; } if (place == 2) { tg[n].values = o2; tg[n++].count = 3; }
        e.tags = n ? tg : NULL; e.tags_count = n; nostr_error_t r = nostr_nip13_verify_pow(&e, min); mc_eval(1);
        int has = SH[k].n >= 2 && !strcmp(SH[k].v[0], "nonce"), c = committed(&SH[k]);
        int ok = min >= 1 && has && d >= min && (c < 0 || d >= c);
        if (c == -2 && ok) continue;                               /* a target that is no number may also be refused */
        if ((r == NOSTR_OK) != ok) { mc_report(ok ? "verify-refused" : "verify-accepted", "id with %d zero bits, level %d, nonce tag of %d elements, target %s: %d", d, min, SH[k].n, SH[k].n > 2 ? mc_q(SH[k].v[2]) : "-", r); }
    }
    mc_step(); mc_conform(); mc_outcome(d * 3 + place); MC_NOTE("id with %d leading zero bits, all tag shapes and levels", d);
}
/* ---- events under mining and their model ---- */
typedef struct { char *v[8]; int n; } mtag;
typedef struct { mtag t[24]; int nt; char *content; int kind; uint8_t sig[64], pk[32]; } model;
static model M;
static void madd(int n, const char *const *v) { mtag *t = &M.t[M.nt++]; t->n = n; for (int i = 0; i < n; i++) t->v[i] = strdup(v[i]); }
static void mfree(void) { for (int i = 0; i < M.nt; i++) for (int j = 0; j < M.t[i].n; j++) free(M.t[i].v[j]); free(M.content); memset(&M, 0, sizeof M); }
static int mnonce(void) { for (int i = 0; i < M.nt; i++) if (!strcmp(M.t[i].v[0], "nonce")) return i; return -1; }
static void mset(uint64_t nonce, int target)
{
    char a[32], b[32]; snprintf(a, sizeof a, "%llu", (unsigned long long)nonce); snprintf(b, sizeof b, "%d", target); int i = mnonce(); const char *v[3] = { "nonce", a, b };
    if (i < 0) { madd(target > 0 ? 3 : 2, v); return; } mtag *t = &M.t[i];
    if (t->n < 2) t->n = 2; else free(t->v[1]);
    t->v[1] = strdup(a);
    if (target > 0) { if (t->n < 3) t->n = 3; else free(t->v[2]); t->v[2] = strdup(b); } else { for (int k = 2; k < t->n; k++) free(t->v[k]); t->n = 2; }
}
static void mid(int64_t created, uint8_t id[32])
{
    static nostr_tag tg[24]; nostr_event e; memset(&e, 0, sizeof e); memcpy(e.pubkey.data, M.pk, 32); e.kind = (uint16_t)M.kind; e.created_at = created; e.content = M.content; for (int i = 0; i < M.nt; i++) { tg[i].values = M.t[i].v; tg[i].count = M.t[i].n; } e.tags = tg; e.tags_count = M.nt; refev_id(&e, id);
}
/* the event is the model, except that its nonce text may be any number (returned) */
static const char *diff(const nostr_event *e, int anynonce, uint64_t *nonce)
{
    if (e->kind != M.kind || strcmp(e->content ? e->content : "", M.content)) return "kind or content";
    if (memcmp(e->sig, M.sig, 64) || memcmp(e->pubkey.data, M.pk, 32)) return "author or signature";
    if (e->tags_count != (size_t)M.nt) return "number of tags";
    int nn = mnonce();
    for (int i = 0; i < M.nt; i++) { if (e->tags[i].count != (size_t)M.t[i].n) return "number of elements of a tag"; for (int j = 0; j < M.t[i].n; j++) { const char *g = e->tags[i].values[j]; if (anynonce && i == nn && j == 1) { char *end; if (!g || !*g || strspn(g, "0123456789") != strlen(g) || (g[0] == '0' && g[1])) return "nonce text"; *nonce = strtoull(g, &end, 10); continue; } if (!g || strcmp(g, M.t[i].v[j])) return i == nn ? "element of the nonce tag" : "element of a tag"; } }
    return NULL;
}
static nostr_event *mk(int sh, int before, int after, int seed)
{
    mfree(); M.kind = 1; char c[20]; sprintf(c, "hello %d", seed); M.content = strdup(c); nostr_event *e = refev_new(); nostr_event_set_content(e, c); memset(e->pubkey.data, 0x21 + seed, 32); memset(e->sig, 0x5a, 64); memset(e->id, 0, 32); memcpy(M.pk, e->pubkey.data, 32); memcpy(M.sig, e->sig, 64); e->kind = 1;
    static const char *o[3] = { "p", "nonce", "wss://r\"" }; for (int i = 0; i < before; i++) { nostr_event_add_tag(e, o, 1 + i % 3); madd(1 + i % 3, o); }
    if (SH[sh].n) { nostr_event_add_tag(e, (const char **)SH[sh].v, SH[sh].n); madd(SH[sh].n, SH[sh].v); }
    for (int i = 0; i < after; i++) { nostr_event_add_tag(e, o, 1 + (i + 1) % 3); madd(1 + (i + 1) % 3, o); }
    NOW = 1700000000 + seed * 977; return e;
}
/* reference miner: smallest nonce below the budget that reaches the target, or -1 (the model is left with it) */
static long refmine(int target, uint64_t budget, int *tried)
{
    for (uint64_t n = 0; !budget || n < budget; n++) { mset(n, target); uint8_t id[32]; mid(NOW, id); if (tried) ++*tried; if (bits(id) >= target) return (long)n; }
    return -1;
}
static void judge(nostr_event *e, nostr_error_t r, int target, uint64_t budget, long w, const char *what)
{
    uint64_t got = 0; const char *d = diff(e, 1, &got); uint8_t id[32];
    if (r == NOSTR_OK) {
        if (w < 0) mc_fail("impossible", "%s: success although no nonce below %llu reaches %d", what, (unsigned long long)budget, target);
        if (d) mc_fail("altered", "%s: %s differs after mining", what, d);
        if (budget && got >= budget) mc_fail("nonce", "%s: nonce %llu beyond the budget %llu", what, (unsigned long long)got, (unsigned long long)budget);
        if (e->created_at != NOW) mc_fail("created-at", "%s: created_at %lld, the clock says %lld", what, (long long)e->created_at, (long long)NOW);
        mset(got, target); mid(e->created_at, id); if (memcmp(id, e->id, 32)) mc_fail("id", "%s: the id is not the hash of the mined event", what);
        if (bits(e->id) < target) mc_fail("target", "%s: id has %d zero bits, target %d", what, bits(e->id), target);
        if (nostr_nip13_verify_pow(e, target) != NOSTR_OK) mc_fail("verify-mined", "%s: the mined event does not verify at %d", what, target);
        int b = bits(e->id); if (nostr_nip13_verify_pow(e, b) != NOSTR_OK || nostr_nip13_verify_pow(e, b + 1) == NOSTR_OK) mc_fail("verify-level", "%s: id with %d zero bits", what, b);
    } else {
        if (w >= 0) mc_fail("missed", "%s: error %d although nonce %ld reaches %d within %llu", what, r, w, target, (unsigned long long)budget);
        if (r != NOSTR_ERR_NOT_FOUND) mc_fail("error-code", "%s: error %d", what, r);
        if (d) mc_fail("altered", "%s: %s differs after a failed search", what, d);
        mset(got, target);
    }
}
static const int SHM[] = { 0, 1, 2, 3, 4, 6, 10, 20, 21, 24, 25, 26 };
static void mine(void)
{
    int sh = MC_PICK(SHM), seed = mc_choose(mc_thorough() ? 24 : 6), pos = mc_choose(3), target = mc_choose(mc_thorough() ? 11 : 9) + 1;
    for (int budget = 0; budget <= 40; budget++) {
        if (budget == 0 && target > 9) continue;
        nostr_event *e = mk(sh, pos == 1 ? 3 : 0, pos == 2 ? 2 : pos, seed); long w = refmine(target, budget, NULL);
        nostr_error_t r = nostr_nip13_mine_event(e, target, budget); mc_step(); mc_eval(1); judge(e, r, target, budget, w, "mining"); nostr_event_destroy(e);
    }
    mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, sh * 100 + seed), pos * 20 + target)); mc_state(sh * 20 + target); MC_NOTE("nonce tag shape %d, content %d, target %d, budgets 0..40", sh, seed, target); mfree();
}
static void longmine(void)
{
    int seed = mc_choose(mc_thorough() ? 32 : 8), target = 11 + mc_choose(3), before = mc_choose(2) * 20 % 13; nostr_event *e = mk(0, before, 0, seed); long w = refmine(target, 0, NULL);
    nostr_error_t r = nostr_nip13_mine_event(e, target, 0); mc_step(); judge(e, r, target, 0, w, "unlimited mining"); nostr_event_destroy(e);
    e = mk(0, before, 0, seed); w = refmine(target, (uint64_t)w + 1, NULL); r = nostr_nip13_mine_event(e, target, w + 1); judge(e, r, target, w + 1, w, "mining with the exact budget"); nostr_event_destroy(e);
    if (w) { long w2 = w; e = mk(0, before, 0, seed); w = refmine(target, (uint64_t)w2, NULL); r = nostr_nip13_mine_event(e, target, w2); judge(e, r, target, w2, w, "mining with one nonce less"); nostr_event_destroy(e); }
    mc_conform(); mc_outcome(seed * 10 + target); MC_NOTE("target %d reached by nonce %ld", target, w); mfree();
}
/* histories of mining, nonce and tag operations on one event */
static void histories(void)
{
    int n = mc_thorough() ? 6 : 4; nostr_event *e = mk(0, 1, 0, 1); uint64_t h = MC_H0; static const char *ot[2] = { "t", "x" };
    for (int k = 0; k < n; k++) {
        int op = mc_choose(9); mc_step(); h = mc_hash_u64(h, op); NOW++;
        switch (op) {
        case 0: case 1: case 2: case 3: { static const int T[] = { 1, 4, 7, 20 }, B[] = { 3, 20, 200, 2 }; model save = M; (void)save; long w = refmine(T[op], B[op], NULL); nostr_error_t r = nostr_nip13_mine_event(e, T[op], B[op]); MC_NOTE("mine(%d, %d) -> %d", T[op], B[op], r); judge(e, r, T[op], B[op], w, "history"); break; }
        case 4: case 5: case 6: { static const uint64_t V[] = { 0, UINT64_MAX, 4294967296ULL }; static const int T[] = { 0, 3, 2147483647 }; nostr_error_t r = nostr_nip13_add_nonce_tag(e, V[op - 4], T[op - 4]); MC_NOTE("add_nonce_tag(%llu, %d)", (unsigned long long)V[op - 4], T[op - 4]); if (r != NOSTR_OK) mc_fail("add-nonce", "error %d", r); int nn = mnonce(); if (!T[op - 4] && nn >= 0 && M.t[nn].n > 2 && e->tags_count > (size_t)nn && e->tags[nn].count != 2) mc_fail("add-nonce", "a nonce without target keeps the old target"); mset(V[op - 4], T[op - 4]); break; }
        case 7: if (M.nt < 20) { if (nostr_event_add_tag(e, ot, 2) != NOSTR_OK) mc_fail("add-tag", "failed"); madd(2, ot); } MC_NOTE("add tag"); break;
        case 8: nostr_event_set_content(e, "other"); free(M.content); M.content = strdup("other"); MC_NOTE("set content"); break;
        }
        uint64_t g; const char *d = diff(e, 0, &g); if (d) mc_fail("history", "after operation %d: %s differs", op, d);
    }
    nostr_event_destroy(e); mfree(); mc_conform(); mc_outcome(h);
}
static void addnonce(void)
{
    int sh = mc_choose(MC_LEN(SH)), b = mc_choose(65), before = mc_choose(10);
    static const int T[] = { 0, 1, 9, 10, 256, 99999, INT_MAX, -1, INT_MIN };
    for (int dlt = -1; dlt <= 1; dlt++) for (int t = 0; t < MC_LEN(T); t++) { uint64_t v = (b == 64 ? 0 : 1ull << b) + (uint64_t)(int64_t)dlt; nostr_event *e = mk(sh, before, 1, 2); nostr_error_t r = nostr_nip13_add_nonce_tag(e, v, T[t]); mc_eval(1); if (r == NOSTR_OK) { mset(v, T[t]); uint64_t g; const char *d = diff(e, 0, &g); if (d) mc_report("add-nonce", "nonce %llu target %d on shape %d: %s differs", (unsigned long long)v, T[t], sh, d); } else if (T[t] >= 0) mc_report("add-nonce", "nonce %llu target %d: error %d", (unsigned long long)v, T[t], r); nostr_event_destroy(e); }
    mc_step(); mc_conform(); mc_outcome(mc_hash_u64(MC_H0, (sh * 65 + b) * 10 + before)); mfree();
}
static void oom(void)
{
    int sh = MC_PICK(SHM), target = 1 + mc_choose(6), before = mc_choose(3) * 4; mc_set_dev_bound(mc_thorough() ? 2 : 1); fault_reset(); nostr_event *e = mk(sh, before, 0, 3); long w = refmine(target, 12, NULL);
    fault_arm(); nostr_error_t r = nostr_nip13_mine_event(e, target, 12); fault_disarm(); mc_step(); int inj = fault_injected();
    if (r == NOSTR_OK || !inj) judge(e, r, target, 12, w, "out of memory");
    else { if (r == NOSTR_ERR_NOT_FOUND && w >= 0) mc_fail("oom:missed", "not found although nonce %ld reaches %d", w, target); for (size_t i = 0; i < e->tags_count; i++) for (size_t j = 0; j < e->tags[i].count; j++) if (!e->tags[i].values[j] || strlen(e->tags[i].values[j]) > 100) mc_fail("oom:event", "broken tag"); r = nostr_nip13_mine_event(e, 1, 0); if (r != NOSTR_OK || bits(e->id) < 1) mc_fail("oom:retry", "mining again: %d", r); }
    nostr_event_destroy(e); mfree(); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, sh * 10 + target), r * 2 + before));
}
static void params(void)
{
    nostr_event *e = mk(3, 0, 0, 1); static const int T[] = { 0, -1, INT_MIN }; for (int i = 0; i < 3; i++) { MC_CHECK(nostr_nip13_mine_event(e, T[i], 5) != NOSTR_OK && nostr_nip13_mine_event_threaded(e, T[i], 2, 5) != NOSTR_OK && nostr_nip13_verify_pow(e, T[i]) != NOSTR_OK, "params", "target %d accepted", T[i]); uint64_t g; const char *d = diff(e, 0, &g); MC_CHECK(!d, "params", "refused call changed %s", d); }
    MC_CHECK(nostr_nip13_mine_event(NULL, 1, 1) != NOSTR_OK && nostr_nip13_verify_pow(NULL, 1) != NOSTR_OK && nostr_nip13_add_nonce_tag(NULL, 1, 1) != NOSTR_OK && nostr_nip13_calculate_difficulty(NULL) <= 0, "null", "NULL accepted"); nostr_event_destroy(e); mfree(); mc_step(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    {"difficulty", difficulty, setup, 3, 0, "every bit position, all two-byte continuations, every single byte behind"},
    {"verify", verify, setup, 3, 0, "257 difficulties x 263 levels x 28 nonce tag shapes x 3 placements"},
    {"mine", mine, setup, 3, 120, "12 shapes x 6 (24) contents x 3 placements x targets 1..9 (11) x budgets 0..40"},
    {"longmine", longmine, setup, 3, 120, "targets 11..13, unlimited, exact and one-less budgets"},
    {"histories", histories, setup, 3, 0, "all sequences of 5 (6) of 9 operations on one event"},
    {"addnonce", addnonce, setup, 3, 0, "nonce values around all powers of two x targets x shapes x fill levels"},
    {"oom", oom, setup, 3, 0, "every allocation failing (pairs)"},
    {"params", params, setup, 3, 0, "invalid parameters"},
    MC_END
};
