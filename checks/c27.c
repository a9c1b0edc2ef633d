/* C27: reply markers (NIP-10), reposts and quotes (NIP-18), reactions (NIP-25).
 *
 * Reference: the set of answers NIP-10/18/25 allow for a tag list, computed from the tags as data; a set
 * with more than one member (or with "not found" in it) is a list the specifications leave open.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/guard.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <stdio.h>

#define A "aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111"
#define B "bbbb2222bbbb2222bbbb2222bbbb2222bbbb2222bbbb2222bbbb2222bbbb2222"
#define C_ "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
#define P1 "cccc3333cccc3333cccc3333cccc3333cccc3333cccc3333cccc3333cccc3333"
#define P2 "dddd4444dddd4444dddd4444dddd4444dddd4444dddd4444dddd4444dddd4444"
#define R1 "wss://relay.example.com"
#define R2 "ws://b.example:7777/path"
static char LONG[400];
static void setup(void) { fault_install(); nostr_init(); memset(LONG, 'x', 300); memcpy(LONG, "wss://", 6); LONG[300] = 0; }
typedef struct { int n; const char *v[5]; } tg;
static int good(const char *s) { return s && strlen(s) == 64 && ref_is_hex(s, 64); }
static int upper(const char *s) { for (; *s; s++) if (*s >= 'A' && *s <= 'F') return 1; return 0; }

/* ---- NIP-10 ---- */
static const tg TA[] = {
    { 2, { "e", A } }, { 2, { "e", B } }, { 3, { "e", C_, R2 } }, { 4, { "e", A, R1, "root" } }, { 4, { "e", B, R1, "root" } }, { 4, { "e", B, R2, "reply" } }, { 4, { "e", A, "", "reply" } }, { 4, { "e", C_, R1, "mention" } }, { 4, { "e", A, "", "mention" } },
    { 4, { "e", B, R1, "" } }, { 2, { "p", P1 } }, { 5, { "e", C_, R1, "root", P1 } }, { 5, { "e", C_, "", "reply", P2 } }, { 1, { "e" } }, { 4, { "e", "tooshort", R1, "root" } }, { 4, { "e", A "0", R1, "reply" } }, { 4, { "p", A, R1, "root" } }, { 4, { "E", A, R1, "reply" } }, { 3, { "q", B, "" } }, { 2, { "e", "" } }, { 4, { "e", A, R2, "Root" } },
    { 4, { "e", "gggg1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111", R1, "reply" } }, { 4, { "e", B, R1, "rootx" } }, { 4, { "root", B, R1, "e" } }, { 5, { "e", A, R1, "", "reply" } },
};
#define NA MC_LEN(TA)
/* may tag x be the answer for the role? *none: "not found" is (also) right */
static void ref10(const tg *const *t, int n, int reply, char *may, int *none)
{
    int roots = 0, replies = 0, plain = 0, odd = 0; *none = 0; memset(may, 0, 8);
#define V(i) (t[i]->n >= 2 && !strcmp(t[i]->v[0], "e") && good(t[i]->v[1]))
#define MK(i) (t[i]->n >= 4 ? t[i]->v[3] : "")
    for (int i = 0; i < n; i++) if (V(i)) { if (!strcmp(MK(i), "root")) roots++; else if (!strcmp(MK(i), "reply")) replies++; else if (!*MK(i)) plain++; else if (strcmp(MK(i), "mention")) odd++; }
    const char *want = reply ? "reply" : "root"; int own = reply ? replies : roots;
    if (own) { for (int i = 0; i < n; i++) if (V(i) && !strcmp(MK(i), want)) may[i] = 1; return; }
    if (!roots && !replies) {            /* no marker: position among the unmarked (unknown markers: counted or not) */
        for (int with = 0; with < 2; with++) { int pick = -1; for (int i = 0; i < n; i++) if (V(i) && strcmp(MK(i), "mention") && (with || !*MK(i))) { if (pick < 0 || reply) pick = i; } if (pick >= 0) may[pick] = 1; else *none = 1; }
        return;
    }
    /* only the other role is marked: a direct reply has only a root; anything else is left open */
    for (int i = 0; i < n; i++) if (V(i) && strcmp(MK(i), "mention")) may[i] = 1;
    if (reply) { if (!plain && !odd) for (int i = 0; i < n; i++) may[i] = V(i) && !strcmp(MK(i), "root"); } else *none = 1;
}
static void judge10(const tg *const *t, int n)
{
    nostr_event *e = refev_new(); for (int i = 0; i < n; i++) { const char *v[5]; memcpy(v, t[i]->v, sizeof v); if (nostr_event_add_tag(e, v, t[i]->n) != NOSTR_OK) mc_fail("add_tag", "refused"); }
    int found = -1; for (int reply = 0; reply < 2; reply++) {
        char may[8]; int none; ref10(t, n, reply, may, &none); char id[65], hint[64]; memset(id, 'z', 65); memset(hint, 'z', 64); nostr_error_t r = reply ? nostr_event_get_reply_id(e, id, 65, hint, 64) : nostr_event_get_root_id(e, id, 65, hint, 64); mc_eval(1); int any = 0, ok = 0;
        for (int i = 0; i < n; i++) if (may[i]) { any = 1; if (r == NOSTR_OK && !strcmp(id, t[i]->v[1]) && !strcmp(hint, t[i]->n >= 3 ? t[i]->v[2] : "")) ok = 1; }
        const char *w = reply ? "reply" : "root"; if (r == NOSTR_OK) { if (!ok) mc_report(any ? "wrong-id" : "found-nothing", "%s is %s (%s)", w, mc_q(id), mc_q(hint)); } else if (any && !none) mc_report("not-found", "%s not found: %d", w, r); if (reply) found = r == NOSTR_OK;
        char id2[65]; if ((reply ? nostr_event_get_reply_id(e, id2, 65, NULL, 0) : nostr_event_get_root_id(e, id2, 65, NULL, 0)) != r || (r == NOSTR_OK && strcmp(id, id2))) mc_report("hint", "%s differs without a hint buffer", w); }
    int is = -1; if (nostr_event_is_reply(e, &is) != NOSTR_OK || is != found) mc_report("is_reply", "is_reply says %d, reply id %s", is, found ? "found" : "not found"); nostr_event_destroy(e);
}
static void threads(void)
{
    int n = mc_thorough() ? 4 : 3; const tg *t[5]; int x[5]; x[0] = mc_choose(NA + 1); if (x[0] == NA) { judge10(t, 0); mc_step(); mc_conform(); mc_outcome(0); return; } x[1] = mc_choose(NA); t[0] = &TA[x[0]]; t[1] = &TA[x[1]];
    judge10(t, 1); judge10(t, 2); for (x[2] = 0; x[2] < NA; x[2]++) { t[2] = &TA[x[2]]; judge10(t, 3); for (x[3] = 0; x[3] < (n > 3 ? NA : 13); x[3]++) { t[3] = &TA[x[3]]; judge10(t, 4); } }
    mc_step(); mc_conform(); mc_outcome(x[0] * 100 + x[1] + 1); MC_NOTE("tag lists beginning with %s/%s", mc_q(t[0]->v[1] ? t[0]->v[1] : "-"), mc_q(t[1]->v[1] ? t[1]->v[1] : "-"));
}
static const char *const IDV[] = { A, B, "AAAA1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111", "", "a", "aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa111", A "a", A A, " aaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111", "aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa111g", "aaaa1111aaaa1111aaaa1111`aaa1111aaaa1111aaaa1111aaaa1111aaaa1111", "0x" "aa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111", "aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa111\xc3" };
static void sizes10(void)
{
    int iv = mc_choose(MC_LEN(IDV)), mk = mc_choose(4), hv = mc_choose(4); static const char *const MKS[] = { "", "root", "reply", "mention" }; const char *hint = hv == 0 ? "" : hv == 1 ? R1 : hv == 2 ? LONG : "x"; nostr_event *e = refev_new(); refev_tag(e, 4, "e", IDV[iv], hint, MKS[mk]); int g = good(IDV[iv]);
    for (int role = 0; role < 2; role++) for (size_t is = 0; is < 70; is++) for (size_t hs = 0; hs < 320; hs = hs < 40 ? hs + 1 : hs < 250 ? 250 : hs + 1) {
        if (is != 65 && is != 64 && is != 66 && hs > 3 && hs != 256) continue; char *id = guard_buf(0, is), *h = guard_buf(1, hs); nostr_error_t r = role ? nostr_event_get_reply_id(e, id, is, h, hs) : nostr_event_get_root_id(e, id, is, h, hs); mc_eval(1);
        if (guard_under(id) || guard_under(h)) mc_fail("overrun", "sizes %zu, %zu", is, hs); if (r != NOSTR_OK) { if (is >= 65 && g && mk != 3 && !upper(IDV[iv]) && !(mk == 2 && !role)) mc_fail("not-found", "id %s, sizes %zu, %zu: %d", mc_q(IDV[iv]), is, hs, r); continue; }
        if (is < 65 || !g || mk == 3) mc_fail("wrong-id", "id %s marker %s with a buffer of %zu accepted", mc_q(IDV[iv]), MKS[mk], is); if (strcmp(id, IDV[iv])) mc_fail("wrong-id", "%s", mc_q(id)); if (hs) { if (!memchr(h, 0, hs)) mc_fail("unterminated", "hint of size %zu", hs); size_t l = strlen(h); if (strncmp(h, hint, l) || (l < strlen(hint) && l + 1 < hs && l < 255)) mc_fail("hint", "hint %s in %zu bytes is %s", mc_q(hint), hs, mc_q(h)); } }
    nostr_event_destroy(e); mc_step(); mc_conform(); mc_outcome(iv * 16 + mk * 4 + hv); MC_NOTE("id %s, marker %s", mc_q(IDV[iv]), MKS[mk]);
}
/* the reply helper, before/after other tags, read back */
static void helper(void)
{
    static const char *const RI[] = { NULL, A, B }; static const char *const RE[] = { NULL, "", R1, R2 }; static const char *const PK[] = { NULL, P1, P2 };
    const char *root = MC_PICK(RI), *rr = MC_PICK(RE), *rp = MC_PICK(PK), *rep = MC_PICK(RI), *er = MC_PICK(RE), *ep = MC_PICK(PK); int pre = mc_choose(3); mc_set_dev_bound(1); nostr_event *e = refev_new(); if (pre) refev_tag(e, 2, "p", P1, 0, 0); if (pre == 2) refev_tag(e, 4, "e", C_, "", "mention"); size_t before = e->tags_count;
    fault_reset(); fault_track(1); fault_arm(); nostr_error_t r = nostr_event_add_reply_tags(e, root, rr, rp, rep, er, ep); fault_disarm(); mc_step();
    if (!root && !rep) { if (r == NOSTR_OK || e->tags_count != before) mc_fail("helper", "no ids accepted"); }
    else if (r != NOSTR_OK) { if (!fault_injected()) mc_fail("helper", "refused: %d", r); if (e->tags_count != before) mc_fail("partial", "a failed call left %zu of its tags", e->tags_count - before); }
    else { const char *ids[2] = { root, rep }, *rl[2] = { rr, er }, *pk[2] = { rp, ep }, *mk[2] = { "root", "reply" }; size_t k = before; for (int i = 0; i < 2; i++) if (ids[i]) { if (k >= e->tags_count) mc_fail("helper", "tag missing"); nostr_tag *t = &e->tags[k++]; if (t->count != (pk[i] ? 5u : 4u) || strcmp(t->values[0], "e") || strcmp(t->values[1], ids[i]) || strcmp(t->values[2], rl[i] ? rl[i] : "") || strcmp(t->values[3], mk[i]) || (pk[i] && strcmp(t->values[4], pk[i]))) mc_fail("helper", "the %s tag is not [e, id, relay, %s, pubkey]", mk[i], mk[i]); }
        if (k != e->tags_count) mc_fail("helper", "%zu tags too many", e->tags_count - k); char id[65], h[64]; if (nostr_event_get_root_id(e, id, 65, h, 64) != NOSTR_OK || strcmp(id, root ? root : rep) || strcmp(h, (root ? rr : er) ? (root ? rr : er) : "")) mc_fail("helper-root", "root reads back as %s", mc_q(id)); if (nostr_event_get_reply_id(e, id, 65, h, 64) != NOSTR_OK || strcmp(id, rep ? rep : root) || strcmp(h, (rep ? er : rr) ? (rep ? er : rr) : "")) mc_fail("helper-reply", "reply reads back as %s", mc_q(id)); int is; if (nostr_event_is_reply(e, &is) != NOSTR_OK || !is) mc_fail("helper-reply", "not a reply"); }
    nostr_event_destroy(e); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64((root ? root[0] : 0) * 1000 + (rep ? rep[0] : 0), (rr ? strlen(rr) : 99) * 100 + (er ? strlen(er) : 99)), (rp != NULL) * 4 + (ep != NULL) * 2 + pre * 8 + (r != NOSTR_OK))); MC_NOTE("helper: %d", r);
}
static void mention(void)
{
    static const char *const RE[] = { NULL, "", R1 }; const char *p = mc_choose(2) ? P1 : NULL, *h = MC_PICK(RE); mc_set_dev_bound(1); nostr_event *e = refev_new(); refev_tag(e, 2, "t", "x", 0, 0); fault_reset(); fault_track(1); fault_arm(); nostr_error_t r = nostr_event_add_mention_tag(e, p, h); fault_disarm(); mc_step(); nostr_tag *t = &e->tags[e->tags_count - 1];
    if (r == NOSTR_OK) { if (!p || e->tags_count != 2 || t->count != (h ? 3u : 2u) || strcmp(t->values[0], "p") || strcmp(t->values[1], p) || (h && strcmp(t->values[2], h))) mc_fail("mention", "tag is not [p, pubkey, hint]"); } else { if (p && !fault_injected()) mc_fail("mention", "refused: %d", r); if (e->tags_count != 1) mc_fail("mention", "failed but added"); }
    nostr_event_destroy(e); mc_conform(); mc_outcome((p != NULL) * 10 + (h ? strlen(h) : 5) * 2 + (r != 0)); MC_NOTE("mention: %d", r);
}

/* ---- NIP-25 / NIP-18 creation ---- */
static const char *const CO[] = { NULL, "+", "-", "", "\xF0\x9F\x94\xA5", ":soapbox:", "+1", "--", " ", "a\"b\\c\n", "\xe2\x9d\xa4" };
static const int KI[] = { 0, 1, 2, 6, 7, 16, 255, 256, 30023, 39999, 65534, 65535 };
static void reaction(void)
{
    int iv = mc_choose(MC_LEN(IDV)), pv = mc_choose(MC_LEN(IDV) + 1), ci = mc_choose(MC_LEN(CO)), k = MC_PICK(KI), hv = mc_choose(3); if (iv > 2 && pv < MC_LEN(IDV) && pv > 2 && iv != pv) mc_discard(); const char *pk = pv < MC_LEN(IDV) ? IDV[pv] : P1, *h = hv == 0 ? NULL : hv == 1 ? "" : R1; mc_set_dev_bound(iv < 2 && (pv == 0 || pv == MC_LEN(IDV)) ? 1 : 0);
    nostr_event *e = NULL; fault_reset(); fault_track(1); fault_arm(); nostr_error_t r = nostr_reaction_create(&e, CO[ci], IDV[iv], pk, h, (uint16_t)k); fault_disarm(); mc_step(); int ok = good(IDV[iv]) && good(pk), either = upper(IDV[iv]) || upper(pk);
    if (r != NOSTR_OK) { if (ok && !either && !fault_injected()) mc_fail("reaction-refused", "%d", r); if (e) mc_fail("reaction-dangling", "a failed creation left an event"); }
    else { if (!ok) mc_fail("reaction-accepted", "ids %s, %s", mc_q(IDV[iv]), mc_q(pk)); const char *co = CO[ci] ? CO[ci] : "+"; if (e->kind != 7 || strcmp(e->content, co)) mc_fail("reaction-event", "kind %d content %s", e->kind, mc_q(e->content));
        size_t cl = strlen(co), cs[] = { 0, 1, 2, cl, cl + 1, cl + 2, 64 }, is[] = { 0, 1, 64, 65, 66 }; for (int a = 0; a < 7; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) { char *x = guard_buf(0, cs[a]), *y = guard_buf(1, is[b]), *z = guard_buf(2, is[c]); uint16_t kk = 999; nostr_error_t q = nostr_reaction_parse(e, x, cs[a], y, is[b], z, is[c], &kk); mc_eval(1); if (guard_under(x) || guard_under(y) || guard_under(z)) mc_fail("overrun", "sizes %zu %zu %zu", cs[a], is[b], is[c]);
            if (q != NOSTR_OK) { if (cs[a] > cl && is[b] >= 65 && is[c] >= 65) mc_fail("reaction-parse", "%d", q); continue; }
            if (kk != k || (cs[a] && (!memchr(x, 0, cs[a]) || strncmp(x, co, cs[a] - 1))) || (is[b] && (!memchr(y, 0, is[b]) || strncmp(y, IDV[iv], is[b] - 1))) || (is[c] && (!memchr(z, 0, is[c]) || strncmp(z, pk, is[c] - 1)))) mc_fail("reaction-parse", "kind %d (given %d), sizes %zu %zu %zu", kk, k, cs[a], is[b], is[c]); if ((cs[a] > cl && strlen(x) != cl) || (is[b] > 64 && strlen(y) != 64) || (is[c] > 64 && strlen(z) != 64)) mc_fail("reaction-parse", "cut although it fits"); }
        int l = 9, d = 9; if (nostr_reaction_is_like(e, &l) != NOSTR_OK || nostr_reaction_is_dislike(e, &d) != NOSTR_OK || l != (!*co || !strcmp(co, "+")) || d != !strcmp(co, "-")) mc_fail("reaction-class", "content %s is like %d, dislike %d", mc_q(co), l, d);
        for (size_t i = 0; i < e->tags_count; i++) { nostr_tag *t = &e->tags[i]; if (!strcmp(t->values[0], "e") && t->count >= 3 && strcmp(t->values[2], h ? h : "")) mc_fail("reaction-event", "relay %s", mc_q(t->values[2])); } }
    nostr_event_destroy(e); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(iv * 100 + pv, ci * 10 + hv), k * 10 + (r != 0))); MC_NOTE("reaction %s: %d", mc_q(CO[ci] ? CO[ci] : "NULL"), r);
}
/* every content of up to two bytes, and + or - followed by 0..70 others: classified by NIP-25 */
static void classes(void)
{
    int a = mc_choose(256); nostr_event *e = refev_new(); e->kind = 7; char c[80]; mc_step();
    for (int b = 0; b < 256 + 71; b++) { if (!a && b) break; if (b < 256) { c[0] = (char)a; c[1] = (char)b; c[2] = 0; } else { if (a != '+' && a != '-' && a != ':' && a != ' ') break; c[0] = (char)a; memset(c + 1, b & 1 ? a : 'x', (size_t)b - 256); c[b - 255] = 0; } int u = 1; for (int i = 0; c[i]; i++) if ((unsigned char)c[i] > 0x7e) u = 0; if (nostr_event_set_content(e, c) != NOSTR_OK) { if (u) mc_fail("reaction-event", "content %s refused", mc_q(c)); continue; }
        int l = 9, d = 9; mc_eval(1); if (nostr_reaction_is_like(e, &l) != NOSTR_OK || nostr_reaction_is_dislike(e, &d) != NOSTR_OK || l != (!*c || !strcmp(c, "+")) || d != !strcmp(c, "-")) mc_fail("reaction-class", "content %s is like %d, dislike %d", mc_q(c), l, d); }
    nostr_event_destroy(e); mc_conform(); mc_outcome(a); MC_NOTE("contents beginning with byte %d", a);
}
/* addresses with identifiers of every length */
static void addresses(void)
{
    int n = mc_choose(600), k = MC_PICK(KI); char d[640], want[800]; mc_step(); for (int i = 0; i < n; i++) d[i] = (char)('a' + (i * 7 + n) % 26); d[n] = 0; snprintf(want, sizeof want, "%d:%s:%s", k, P1, d);
    nostr_event *e = NULL; nostr_error_t r = nostr_repost_create(&e, A, P1, R1, (uint16_t)k, d, ""); if (r != NOSTR_OK) mc_fail("repost-refused", "identifier of %d: %d", n, r); int as = 0; for (size_t i = 0; i < e->tags_count; i++) if (!strcmp(e->tags[i].values[0], "a")) { as++; if (strcmp(e->tags[i].values[1], want)) mc_fail("repost-address", "%s", mc_q(e->tags[i].values[1])); } if (as != 1) mc_fail("repost-address", "%d a tags", as); nostr_event_destroy(e); mc_conform(); mc_outcome((uint64_t)(n * 100000 + k));
}
static void repost(void)
{
    static const char *const D[] = { NULL, "", "my-article", "a:b", "\"q\"" }; static const char *const EJ[] = { NULL, "", "{\"id\":\"x\"}" };
    int iv = mc_choose(MC_LEN(IDV)), pv = mc_choose(MC_LEN(IDV) + 1), k = MC_PICK(KI), hv = mc_choose(3); const char *d = MC_PICK(D), *ej = MC_PICK(EJ); if (iv > 2 && pv < MC_LEN(IDV) && pv > 2 && iv != pv) mc_discard(); const char *pk = pv < MC_LEN(IDV) ? IDV[pv] : P1, *h = hv == 0 ? NULL : hv == 1 ? "" : R1; mc_set_dev_bound(iv < 2 && pv == MC_LEN(IDV) ? 1 : 0);
    nostr_event *e = NULL; fault_reset(); fault_track(1); fault_arm(); nostr_error_t r = nostr_repost_create(&e, IDV[iv], pk, h, (uint16_t)k, d, ej); fault_disarm(); mc_step(); int ok = good(IDV[iv]) && good(pk) && h, either = upper(IDV[iv]) || upper(pk);
    if (r != NOSTR_OK) { if (ok && !either && !fault_injected()) mc_fail("repost-refused", "%d", r); if (e) mc_fail("repost-dangling", "a failed creation left an event"); }
    else { if (!ok) mc_fail("repost-accepted", "ids %s, %s", mc_q(IDV[iv]), mc_q(pk)); if (e->kind != (k == 1 ? 6 : 16) || strcmp(e->content, ej ? ej : "")) mc_fail("repost-event", "kind %d content %s", e->kind, mc_q(e->content)); char want[300]; snprintf(want, sizeof want, "%d:%s:%s", k, pk, d ? d : ""); int as = 0; for (size_t i = 0; i < e->tags_count; i++) if (!strcmp(e->tags[i].values[0], "a")) { as++; if (!d || strcmp(e->tags[i].values[1], want)) mc_fail("repost-address", "%s", mc_q(e->tags[i].values[1])); } if (as != (d != NULL)) mc_fail("repost-address", "%d a tags", as);
        static const size_t is[] = { 0, 1, 64, 65, 66 }; size_t hl = strlen(h), hs[] = { 0, 1, hl, hl + 1, hl + 2 }; for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) { char *x = guard_buf(0, is[a]), *y = guard_buf(1, is[b]), *z = guard_buf(2, hs[c]); uint16_t kk = 999; nostr_error_t q = nostr_repost_parse(e, x, is[a], y, is[b], z, hs[c], &kk); mc_eval(1); if (guard_under(x) || guard_under(y) || guard_under(z)) mc_fail("overrun", "sizes"); if (q != NOSTR_OK) { if (is[a] >= 65 && is[b] >= 65 && hs[c] > hl) mc_fail("repost-parse", "%d", q); continue; }
            if (kk != k || (is[a] && (!memchr(x, 0, is[a]) || strncmp(x, IDV[iv], is[a] - 1))) || (is[b] && (!memchr(y, 0, is[b]) || strncmp(y, pk, is[b] - 1))) || (hs[c] && (!memchr(z, 0, hs[c]) || strncmp(z, h, hs[c] - 1)))) mc_fail("repost-parse", "kind %d (given %d), sizes %zu %zu %zu", kk, k, is[a], is[b], hs[c]); } }
    nostr_event_destroy(e); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(iv * 100 + pv, (d ? strlen(d) : 50) * 10 + hv), k * 10 + (r != 0) + (ej ? strlen(ej) : 5) * 700000)); MC_NOTE("repost of kind %d: %d", k, r);
}
/* ---- parsing foreign reactions and reposts: every list of up to 3 (4) tags ---- */
static const tg TB[] = {
    { 2, { "e", A } }, { 3, { "e", B, R1 } }, { 3, { "e", A, "" } }, { 2, { "p", P1 } }, { 3, { "p", P2, R2 } }, { 2, { "k", "1" } }, { 2, { "k", "30023" } }, { 2, { "k", "65535" } }, { 2, { "k", "65536" } }, { 2, { "k", "-1" } }, { 2, { "k", "4294967297" } }, { 2, { "k", "x" } }, { 2, { "k", "" } }, { 2, { "k", " 7" } }, { 2, { "k", "7x" } }, { 2, { "k", "18446744073709551617" } }, { 2, { "k", "-18446744073709551615" } }, { 2, { "k", "+6" } },
    { 2, { "e", "short" } }, { 3, { "e", A "f", R2 } }, { 2, { "p", "gg" } }, { 2, { "p", P1 P1 } }, { 1, { "e" } }, { 1, { "p" } }, { 1, { "k" } }, { 2, { "E", B } }, { 2, { "a", "1:" A ":x" } }, { 2, { "e", "" } },
};
#define NB MC_LEN(TB)
static int num(const char *s) { if (!*s || strlen(s) > 5) return -1; int v = 0; for (; *s; s++) { if (*s < '0' || *s > '9') return -1; v = v * 10 + *s - '0'; } return v > 65535 ? -1 : v; }
static void judge25(const tg *const *t, int n, int kind)
{
    nostr_event *e = refev_new(); e->kind = (uint16_t)kind; nostr_event_set_content(e, "+"); for (int i = 0; i < n; i++) { const char *v[5]; memcpy(v, t[i]->v, sizeof v); nostr_event_add_tag(e, v, t[i]->n); }
    char id[65], pk[65], h[64], c[8]; uint16_t k = 4242; memset(id, 'z', 65); memset(pk, 'z', 65); memset(h, 'z', 64); int rx = kind == 7; nostr_error_t r = rx ? nostr_reaction_parse(e, c, 8, id, 65, pk, 65, &k) : nostr_repost_parse(e, id, 65, pk, 65, h, 64, &k); mc_eval(1);
    int laste = -1, ge = 0, be = 0, gp = 0, bp = 0, lastp = -1, lastk = -1, bk = 0; for (int i = 0; i < n; i++) if (t[i]->n >= 2) { if (t[i]->v[0][0] == 'e') { if (good(t[i]->v[1])) laste = i, ge++; else be++; } if (t[i]->v[0][0] == 'p') { if (good(t[i]->v[1])) lastp = i, gp++; else bp++; } if (t[i]->v[0][0] == 'k') { if (num(t[i]->v[1]) >= 0) lastk = i; else bk++; } }
    if (kind != 6 && kind != 7 && kind != 16) { if (r == NOSTR_OK) mc_report("kind", "an event of kind %d parses", kind); }
    else if (r != NOSTR_OK) { if (ge && !be && !bp && !bk) mc_report("parse-refused", "%d", r); }
    else { int ok = 0; for (int i = 0; i < n; i++) if (t[i]->n >= 2 && t[i]->v[0][0] == 'e' && good(t[i]->v[1]) && !strcmp(id, t[i]->v[1]) && (!rx || i == laste) && (rx || !strcmp(h, t[i]->n >= 3 ? t[i]->v[2] : ""))) ok = 1; if (!ok) mc_report("parse-target", "target %s%s%s", mc_q(id), rx ? "" : " at ", rx ? "" : mc_q(h));
        ok = !*pk && (!gp || bp); for (int i = 0; i < n; i++) if (t[i]->n >= 2 && t[i]->v[0][0] == 'p' && good(t[i]->v[1]) && !strcmp(pk, t[i]->v[1]) && (!rx || i == lastp)) ok = 1; if (!ok) mc_report("parse-author", "author %s", mc_q(pk));
        int dk = kind == 6 ? 1 : 0; ok = k == dk && (lastk < 0 || bk || kind == 6); if (lastk >= 0) for (int i = 0; i < n; i++) if (t[i]->n >= 2 && t[i]->v[0][0] == 'k' && num(t[i]->v[1]) == k && (!rx || i == lastk)) ok = 1; for (int i = 0; i < n; i++) if (t[i]->n >= 2 && t[i]->v[0][0] == 'k' && ((!strcmp(t[i]->v[1], " 7") && k == 7) || (!strcmp(t[i]->v[1], "+6") && k == 6))) ok = 1; if (!ok) mc_report("parse-kind", "kind %d", k); }
    nostr_event_destroy(e);
}
static void parse(void)
{
    static const int K[] = { 7, 6, 16 }; int kind = MC_PICK(K), a = mc_choose(NB), b = mc_choose(NB); const tg *t[4] = { &TB[a], &TB[b] }; if (!a && !b) { judge25(t, 0, kind); for (int k = 0; k < 65536; k++) if (k != 6 && k != 7 && k != 16) { nostr_event *e = refev_new(); e->kind = (uint16_t)k; refev_tag(e, 2, "e", A, 0, 0); char id[65]; uint16_t kk; int x; nostr_error_t r = kind == 7 ? nostr_reaction_parse(e, NULL, 0, id, 65, NULL, 0, &kk) : nostr_repost_parse(e, id, 65, NULL, 0, NULL, 0, &kk); if (r == NOSTR_OK || (kind == 7 && (nostr_reaction_is_like(e, &x) == NOSTR_OK || nostr_reaction_is_dislike(e, &x) == NOSTR_OK))) mc_report("kind", "an event of kind %d parses", k); nostr_event_destroy(e); } }
    if (!b) judge25(t, 1, kind); judge25(t, 2, kind); for (int c = 0; c < NB; c++) { t[2] = &TB[c]; judge25(t, 3, kind); if (mc_thorough()) for (int d = 0; d < NB; d++) { t[3] = &TB[d]; judge25(t, 4, kind); } }
    mc_step(); mc_conform(); mc_outcome(kind * 1000 + a * 30 + b); MC_NOTE("kind %d, tag lists beginning with %s, %s", kind, TB[a].v[0], TB[b].v[0]);
}
/* ---- quotes: texts built from pieces ---- */
typedef struct { char text[900]; const char *kind; char q[420], relay[64], author[65]; } pc;
static pc PC[24]; static int NP;
static void piece(const char *text, const char *q, const char *relay, const char *author) { pc *p = &PC[NP++]; snprintf(p->text, sizeof p->text, "%s", text); p->kind = q ? "q" : NULL; snprintf(p->q, sizeof p->q, "%s", q ? q : ""); snprintf(p->relay, sizeof p->relay, "%s", relay); snprintf(p->author, sizeof p->author, "%s", author); }
static void setupq(void)
{
    setup(); NP = 0; uint8_t a[32], b[32], p[32], w[900]; char o[1500], t[1600]; ref_unhex(A, 64, a); ref_unhex(B, 64, b); ref_unhex(P1, 64, p);
    ref_bech32_encode("note", a, 32, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, A, "", ""); char bad[900]; snprintf(bad, sizeof bad, "%s", t); 
    ref_bech32_encode("note", b, 32, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, B, "", "");
    size_t n = 0; w[n++] = 0; w[n++] = 32; memcpy(w + n, a, 32); n += 32; ref_bech32_encode("nevent", w, n, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, A, "", "");
    w[n++] = 1; w[n++] = strlen(R1); memcpy(w + n, R1, strlen(R1)); n += strlen(R1); w[n++] = 1; w[n++] = strlen(R2); memcpy(w + n, R2, strlen(R2)); n += strlen(R2); w[n++] = 2; w[n++] = 32; memcpy(w + n, p, 32); n += 32; ref_bech32_encode("nevent", w, n, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, A, R1, P1);
    n = 34; w[n++] = 1; w[n++] = strlen(R2); memcpy(w + n, R2, strlen(R2)); n += strlen(R2); ref_bech32_encode("nevent", w, n, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, A, R2, "");
    n = 34; w[n++] = 2; w[n++] = 32; memcpy(w + n, p, 32); n += 32; ref_bech32_encode("nevent", w, n, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, A, "", P1);
    n = 0; w[n++] = 0; w[n++] = 4; memcpy(w + n, "slug", 4); n += 4; w[n++] = 2; w[n++] = 32; memcpy(w + n, p, 32); n += 32; w[n++] = 3; w[n++] = 4; w[n++] = 0; w[n++] = 0; w[n++] = 0x75; w[n++] = 0x47; ref_bech32_encode("naddr", w, n, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, "30023:" P1 ":slug", "", "");
    w[n++] = 1; w[n++] = strlen(R2); memcpy(w + n, R2, strlen(R2)); n += strlen(R2); ref_bech32_encode("naddr", w, n, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, "30023:" P1 ":slug", R2, "");
    n = 0; w[n++] = 0; w[n++] = 200; memset(w + n, 'L', 200); n += 200; w[n++] = 2; w[n++] = 32; memcpy(w + n, p, 32); n += 32; w[n++] = 3; w[n++] = 4; w[n++] = 0; w[n++] = 0; w[n++] = 0x75; w[n++] = 0x47; ref_bech32_encode("naddr", w, n, o); snprintf(t, sizeof t, "nostr:%s", o); { char q[420], L[201]; memset(L, 'L', 200); L[200] = 0; snprintf(q, sizeof q, "30023:" P1 ":%s", L); piece(t, q, "", ""); }
    ref_bech32_encode("npub", p, 32, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, NULL, "", "");
    n = 0; w[n++] = 0; w[n++] = 32; memcpy(w + n, p, 32); n += 32; ref_bech32_encode("nprofile", w, n, o); snprintf(t, sizeof t, "nostr:%s", o); piece(t, NULL, "", "");
    bad[20] = bad[20] == 'q' ? 'p' : 'q'; piece(bad, NULL, "", ""); piece("nostr:note1", NULL, "", ""); piece("nostr:", NULL, "", ""); piece("nostr:nostr:", NULL, "", ""); snprintf(t, sizeof t, "%s", PC[0].text + 6); piece(t, NULL, "", ""); piece("note1 nevent1 nostr", NULL, "", ""); piece("nostr:nevent1qqqq", NULL, "", ""); piece("plain text", NULL, "", "");
}
static void quotes(void)
{
    static const char *const SEP[] = { " ", "\n", ".", ")", "/", "\xc3\xa9", "?x=", "#" }; int n = mc_thorough() ? 4 : 3, x[4]; x[0] = mc_choose(MC_LEN(PC)); if (x[0] >= NP) mc_discard(); int np = 1 + mc_choose(n); const char *sep = MC_PICK(SEP); int pre = mc_choose(2); for (int i = 1; i < np; i++) x[i] = mc_choose(NP);
    char s[4000] = ""; if (pre) strcat(s, "see\t"); for (int i = 0; i < np; i++) { if (i) strcat(s, sep); strcat(s, PC[x[i]].text); } if (pre) strcat(s, sep);
    mc_set_dev_bound(np == 1 ? 1 : 0); nostr_event *e = refev_new(); nostr_event_set_content(e, s); refev_tag(e, 2, "t", "x", 0, 0); fault_reset(); fault_track(1); fault_arm(); nostr_error_t r = nostr_quote_tags_from_content(e); fault_disarm(); mc_step();
    if (r != NOSTR_OK) { if (!fault_injected()) mc_fail("quote-error", "%s: %d", mc_q(s), r); } else if (strcmp(e->content, s)) mc_fail("quote-content", "content changed");
    else { size_t k = 1; for (int i = 0; i < np; i++) if (PC[x[i]].kind) { int seen = 0; for (int j = 0; j < i; j++) if (PC[x[j]].kind && !strcmp(PC[x[j]].q, PC[x[i]].q)) seen = 1; nostr_tag *t = k < e->tags_count ? &e->tags[k] : NULL; int m = t && t->count == 4 && !strcmp(t->values[0], "q") && !strcmp(t->values[1], PC[x[i]].q) && !strcmp(t->values[2], PC[x[i]].relay) && !strcmp(t->values[3], PC[x[i]].author); if (m) k++; else if (!seen && !fault_injected()) mc_fail("quote-missing", "%s: no q tag [%s, %s, %s] in place %zu", mc_q(s), PC[x[i]].q, PC[x[i]].relay, PC[x[i]].author, k); } if (k != e->tags_count) mc_fail("quote-extra", "%s: %zu tags too many", mc_q(s), e->tags_count - k); }
    nostr_event_destroy(e); if (fault_live()) mc_fail("leak", "%s: %s", mc_q(s), fault_live_desc()); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_str(MC_H0, s), r != 0)); MC_NOTE("%d pieces: %d", np, r);
}
static void params(void)
{
    nostr_event *e = refev_new(); refev_tag(e, 2, "e", A, 0, 0); char id[65]; int x; uint16_t k; nostr_event *o = NULL;
    MC_CHECK(nostr_event_get_root_id(NULL, id, 65, NULL, 0) != 0 && nostr_event_get_root_id(e, NULL, 65, NULL, 0) != 0 && nostr_event_get_reply_id(NULL, id, 65, NULL, 0) != 0 && nostr_event_get_reply_id(e, NULL, 65, NULL, 0) != 0 && nostr_event_is_reply(NULL, &x) != 0 && nostr_event_is_reply(e, NULL) != 0 && nostr_event_add_reply_tags(NULL, A, 0, 0, 0, 0, 0) != 0 && nostr_event_add_mention_tag(NULL, P1, 0) != 0, "null", "NIP-10");
    MC_CHECK(nostr_reaction_create(NULL, "+", A, P1, 0, 1) != 0 && nostr_reaction_create(&o, "+", NULL, P1, 0, 1) != 0 && nostr_reaction_create(&o, "+", A, NULL, 0, 1) != 0 && nostr_reaction_parse(NULL, id, 65, id, 65, id, 65, &k) != 0 && nostr_reaction_is_like(NULL, &x) != 0 && nostr_reaction_is_like(e, NULL) != 0 && nostr_reaction_is_dislike(NULL, &x) != 0, "null", "NIP-25");
    MC_CHECK(nostr_repost_create(NULL, A, P1, R1, 1, 0, 0) != 0 && nostr_repost_create(&o, NULL, P1, R1, 1, 0, 0) != 0 && nostr_repost_create(&o, A, NULL, R1, 1, 0, 0) != 0 && nostr_repost_parse(NULL, id, 65, id, 65, id, 65, &k) != 0 && nostr_quote_tags_from_content(NULL) != 0 && nostr_quote_tags_from_content(e) == 0, "null", "NIP-18");
    e->kind = 7; MC_CHECK(nostr_reaction_parse(e, NULL, 0, NULL, 0, NULL, 0, NULL) == 0, "null", "optional outputs"); e->kind = 6; MC_CHECK(nostr_repost_parse(e, NULL, 0, NULL, 0, NULL, 0, NULL) == 0, "null", "optional outputs"); nostr_event_destroy(e); mc_steps(24); mc_conform(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    { "threads", threads, setup, 3, 0, "every list of up to 3 tags (and a fourth from the unmarked and marked forms; all in thorough) over 25 tag shapes" }, { "sizes10", sizes10, setup, 3, 0, "id spellings x markers x hints x buffer sizes" }, { "helper", helper, setup, 3, 0, "all argument combinations of the reply helper, allocation failures" }, { "mention", mention, setup, 3, 0, "mention tags" },
    { "reaction", reaction, setup, 3, 0, "reactions: ids x authors x contents x kinds x hints, read back at several sizes" }, { "classes", classes, setup, 3, 0, "all contents of up to 2 bytes, marks followed by up to 70 others" }, { "addresses", addresses, setup, 3, 0, "reposts of addresses with identifiers of 0..599 characters" }, { "repost", repost, setup, 3, 0, "reposts: ids x authors x kinds x hints x d tags x contents" }, { "parse", parse, setup, 3, 0, "foreign reactions and reposts: every list of up to 3 (4) tags over 28 shapes; every event kind" }, { "quotes", quotes, setupq, 3, 0, "texts of up to 3 (4) pieces x separators" }, { "params", params, setup, 3, 0, "NULL arguments" }, MC_END
};
