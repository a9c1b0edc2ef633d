/* C26: NIP-65 relay lists.  Reference: a plain array of (url, read, write). */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <stdio.h>

typedef struct { char *u; int r, w; } ent;
typedef struct { ent e[400]; int n; } model;
static char BIG[2049], BIG2[2050];
static void setup(void) { fault_install(); nostr_init(); memset(BIG, 'h', 2048); memcpy(BIG, "wss://", 6); memset(BIG2, 'h', 2049); memcpy(BIG2, "wss://", 6); }
static int find(const model *m, const char *u) { for (int i = 0; i < m->n; i++) if (!strcmp(m->e[i].u, u)) return i; return -1; }
static void same(const nostr_relay_list *l, const model *m, const char *when)
{
    if (nostr_relay_list_count(l) != (size_t)m->n) mc_fail("list", "%s: %zu relays instead of %d", when, nostr_relay_list_count(l), m->n);
    for (int i = 0; i < m->n; i++) { const nostr_relay_list_entry *e = nostr_relay_list_get(l, i); if (!e || strcmp(e->url, m->e[i].u) || e->read != m->e[i].r || e->write != m->e[i].w) mc_fail("list", "%s: relay %d is %s %d%d instead of %s %d%d", when, i, e ? mc_q(e->url) : "missing", e ? e->read : 0, e ? e->write : 0, mc_q(m->e[i].u), m->e[i].r, m->e[i].w); }
    if (nostr_relay_list_get(l, m->n) || nostr_relay_list_get(l, (size_t)m->n + 1) || nostr_relay_list_get(l, (size_t)-1)) mc_fail("get", "%s: an entry beyond the end", when);
}
static void selection(const nostr_relay_list *l, const model *m, int read)
{
    char **u = (char **)1; size_t n = 77; nostr_error_t r = read ? nostr_relay_list_get_read_relays(l, &u, &n) : nostr_relay_list_get_write_relays(l, &u, &n); if (r != NOSTR_OK) mc_fail("select", "%d", r);
    size_t k = 0; for (int i = 0; i < m->n; i++) if (read ? m->e[i].r : m->e[i].w) { if (k >= n || !u || strcmp(u[k], m->e[i].u)) mc_fail(read ? "select-read" : "select-write", "place %zu is not %s", k, mc_q(m->e[i].u)); k++; } if (k != n) mc_fail(read ? "select-read" : "select-write", "%zu relays instead of %zu", n, k); nostr_relay_list_free_urls(u, n);
}
static void roundtrip(const nostr_relay_list *l, const model *m)
{
    nostr_event *e = NULL; if (nostr_relay_list_to_event(l, &e) != NOSTR_OK) mc_fail("to_event", "refused"); if (e->kind != 10002 || !e->content || *e->content) mc_fail("to_event", "kind %d, content %s", e->kind, mc_q(e->content ? e->content : ""));
    for (size_t i = 0; i < e->tags_count; i++) if (!strcmp(e->tags[i].values[0], "r")) { int j = find(m, e->tags[i].values[1]); const char *mk = e->tags[i].count > 2 ? e->tags[i].values[2] : ""; if (j < 0 || strcmp(mk, m->e[j].r && m->e[j].w ? "" : m->e[j].r ? "read" : "write")) mc_fail("to_event", "tag %zu: %s marked %s", i, mc_q(e->tags[i].values[1]), mc_q(mk)); }
    nostr_relay_list *b = NULL; if (nostr_relay_list_from_event(e, &b) != NOSTR_OK) mc_fail("from_event", "refused"); same(b, m, "round trip"); nostr_relay_list_free(b); nostr_event_destroy(e);
}
static const char *const U[] = { "wss://relay.example.com", "wss://relay.example.com/", "ws://127.0.0.1:7777/nostr?x=1", "wss://b", "wss://relay.example", "http://x.example", "wss://", "", BIG, BIG2, "wss:// x" };
static void adds(void)
{
    int depth = mc_thorough() ? 5 : 4; nostr_relay_list *l; model m = { 0 }; if (nostr_relay_list_create(&l) != NOSTR_OK) mc_fail("create", "refused"); same(l, &m, "new"); uint64_t h = MC_H0; int n = 1 + mc_choose(depth);
    for (int s = 0; s < n; s++) { int u = mc_choose(s < 2 ? MC_LEN(U) : 5), f = mc_choose(4); nostr_error_t r = nostr_relay_list_add(l, U[u], f & 1, f & 2); mc_step(); int bad = !f || (u >= 5 && u != 8) || find(&m, U[u]) >= 0; if ((r == NOSTR_OK) == bad) mc_fail(bad ? "add-accepted" : "add-refused", "%s read %d write %d: %d", mc_q(u < 8 ? U[u] : "a long one"), f & 1, f >> 1, r); if (!bad) m.e[m.n++] = (ent){ (char *)U[u], f & 1, f >> 1 }; same(l, &m, "after add"); h = mc_hash_u64(h, u * 4 + f); mc_state(mc_hash_u64(h, m.n)); }
    selection(l, &m, 1); selection(l, &m, 0); roundtrip(l, &m); nostr_relay_list_free(l); mc_conform(); mc_outcome(h); MC_NOTE("%d adds, %d relays", n, m.n);
}
static void growth(void)
{
    int n = 1 + mc_choose(mc_thorough() ? 399 : 270), p = mc_choose(3); nostr_relay_list *l; static model m; static char names[400][40]; m.n = 0; nostr_relay_list_create(&l); int full = 0;
    for (int i = 0; i < n; i++) { sprintf(names[i], "wss://relay%d.example/%d", i, i * 7); int f = p == 0 ? 3 : p == 1 ? 1 + i % 3 : 1 + (i * i) % 3; nostr_error_t r = nostr_relay_list_add(l, names[i], f & 1, f & 2); if (r == NOSTR_OK) { if (full) mc_fail("growth", "relay %d accepted after a refusal", i); m.e[m.n++] = (ent){ names[i], f & 1, f >> 1 }; } else { full = 1; if (i < 64) mc_fail("add-refused", "relay %d: %d", i, r); } }
    same(l, &m, "grown"); selection(l, &m, 1); selection(l, &m, 0); roundtrip(l, &m); nostr_relay_list_free(l); mc_steps(n); mc_conform(); mc_outcome(n * 3 + p); MC_NOTE("%d adds", n);
}
/* 1 must be accepted, 0 must be refused, 2 either */
static int url_ref(const char *u)
{
    size_t p = !strncmp(u, "wss://", 6) ? 6 : !strncmp(u, "ws://", 5) ? 5 : 0; if (!p) { char l[7] = ""; for (int i = 0; i < 6 && u[i]; i++) l[i] = u[i] | 32; return !strncmp(l, "wss://", 6) || !strncmp(l, "ws://", 5) ? 2 : 0; }
    size_t n = strlen(u); if (n == p) return 0; if (strchr("/:?#@ ", u[p])) return 0; if (n > 2048) return 0; int plain = 1; for (size_t i = p; i < n; i++) if (!((u[i] >= 'a' && u[i] <= 'z') || (u[i] >= '0' && u[i] <= '9') || u[i] == '.' || (u[i] == '-' && i > p) || (i > p && strchr(":/?=&_%~", u[i])))) plain = 0; return plain && u[p] != '.' ? 1 : 2;
}
static void url1(const char *u) { nostr_relay_list *l; nostr_relay_list_create(&l); nostr_error_t r = nostr_relay_list_add(l, u, true, true); int w = url_ref(u); mc_eval(1); if (w == 1 && r != NOSTR_OK) mc_report("url-refused", "%s: %d", mc_q(u), r); if (w == 0 && r == NOSTR_OK) mc_report("url-accepted", "%s", mc_q(u)); if (r == NOSTR_OK && strcmp(nostr_relay_list_get(l, 0)->url, u)) mc_report("url-altered", "%s", mc_q(u)); nostr_relay_list_free(l); }
static void urls(void)
{
    static const char *const PRE[] = { "wss://", "ws://", "wss:/", "ws:/", "wss:", "http://", "https://", "wss//", "ws", "", "WSS://", " wss://", "xwss://", "wsss://" }; int p = mc_choose(MC_LEN(PRE)), a = mc_choose(256); static char s[3000]; strcpy(s, PRE[p]); size_t n = strlen(s);
    if (!a) { url1(s); for (size_t L = 1; L < 2100; L++) { if (L > 20 && L < 2020) continue; memset(s + n, 'a', L); s[n + L] = 0; url1(s); } }
    else { s[n] = (char)a; s[n + 1] = 0; url1(s); strcpy(s + n + 1, "elay.example.com"); url1(s); for (int b = 1; b < 256; b++) { s[n + 1] = (char)b; s[n + 2] = 0; url1(s); } }
    mc_step(); mc_conform(); mc_outcome(p * 256 + a); MC_NOTE("urls beginning with %s and byte %d", PRE[p], a);
}
typedef struct { int n; const char *v[5]; } tg;
static const tg T[] = { { 2, { "r", "wss://a.example" } }, { 3, { "r", "wss://a.example", "read" } }, { 3, { "r", "wss://a.example", "write" } }, { 2, { "r", "wss://b.example" } }, { 3, { "r", "wss://b.example", "read" } }, { 3, { "r", "wss://b.example", "write" } }, { 3, { "r", "ws://c.example", "" } }, { 3, { "r", "ws://c.example", "READ" } }, { 3, { "r", "ws://c.example", "both" } }, { 4, { "r", "ws://c.example", "write", "read" } }, { 4, { "r", "ws://c.example", "read", "write" } }, { 3, { "r", "ws://c.example", "readx" } }, { 3, { "r", "ws://c.example", "writ" } }, { 3, { "r", "ws://c.example", " read" } },
    { 1, { "r" } }, { 2, { "r", "" } }, { 2, { "r", "http://d.example" } }, { 3, { "r", "read", "wss://d.example" } }, { 2, { "R", "wss://d.example" } }, { 3, { "relay", "wss://d.example", "read" } }, { 2, { "p", "wss://d.example" } }, { 3, { "r", "wss://", "read" } }, { 3, { "read", "wss://d.example", "r" } }, { 4, { "r", "ws://c.example", "", "write" } } };
#define NT MC_LEN(T)
static void jt(const tg *const *t, int n)
{
    nostr_event *e = refev_new(); e->kind = 10002; for (int i = 0; i < n; i++) { const char *v[5]; memcpy(v, t[i]->v, sizeof v); nostr_event_add_tag(e, v, t[i]->n); } nostr_relay_list *l = NULL; nostr_error_t r = nostr_relay_list_from_event(e, &l); mc_eval(1);
    if (r != NOSTR_OK) { mc_report("parse-refused", "%d", r); nostr_event_destroy(e); return; }
    size_t at = 0; char done[8] = { 0 };
    for (int i = 0; i < n; i++) { if (t[i]->n < 2 || strcmp(t[i]->v[0], "r") || url_ref(t[i]->v[1]) != 1 || done[i]) continue; const char *u = t[i]->v[1]; int must = 0, rd = 0, wr = 0, odd = 0, cnt = 0;
        for (int j = i; j < n; j++) if (t[j]->n >= 2 && !strcmp(t[j]->v[0], "r") && !strcmp(t[j]->v[1], u)) { done[j] = 1; cnt++; const char *m = t[j]->n > 2 ? t[j]->v[2] : NULL; if (!m) must = rd = wr = 1; else if (!strcmp(m, "read")) must = rd = 1; else if (!strcmp(m, "write")) must = wr = 1; else odd = 1; }
        const nostr_relay_list_entry *x = nostr_relay_list_get(l, at); if (x && !strcmp(x->url, u)) { at++; int ok = cnt == 1 ? (odd ? x->read && x->write : x->read == rd && x->write == wr) : (x->read <= (rd || odd) && x->write <= (wr || odd) && (x->read || x->write)); if (cnt > 1 && !odd && rd == wr && 0) ok = 0; if (cnt > 1 && !odd && (!rd || !wr) && (x->read != rd || x->write != wr)) ok = 0; if (!ok) mc_report("permission", "%s is read %d write %d (of %d tags)", u, x->read, x->write, cnt); }
        else { if (must && !odd) mc_report("relay-lost", "%s", u); else if (must) { int later = 0; for (size_t k = at; k < nostr_relay_list_count(l); k++) if (!strcmp(nostr_relay_list_get(l, k)->url, u)) later = 1; if (!later) mc_report("relay-lost", "%s", u); else at = at; } } }
    if (nostr_relay_list_count(l) > at) { int odd = 0; for (int i = 0; i < n; i++) if (t[i]->n > 2 && strcmp(t[i]->v[2], "read") && strcmp(t[i]->v[2], "write")) odd = 1; if (!odd) mc_report("relay-extra", "%s", mc_q(nostr_relay_list_get(l, at)->url)); else for (size_t k = 0; k < nostr_relay_list_count(l); k++) { int f = 0; for (int i = 0; i < n; i++) if (t[i]->n >= 2 && !strcmp(t[i]->v[0], "r") && url_ref(t[i]->v[1]) == 1 && !strcmp(t[i]->v[1], nostr_relay_list_get(l, k)->url)) f = 1; if (!f) mc_report("relay-extra", "%s", mc_q(nostr_relay_list_get(l, k)->url)); } }
    nostr_relay_list_free(l); nostr_event_destroy(e);
}
static void tags(void)
{
    int a = mc_choose(NT + 1), b = a < NT ? mc_choose(NT) : 0; const tg *t[4]; if (a == NT) { jt(t, 0); for (int k = 0; k < 65536; k++) if (k != 10002) { nostr_event *e = refev_new(); e->kind = (uint16_t)k; refev_tag(e, 2, "r", "wss://a.example", 0, 0); nostr_relay_list *l = NULL; if (nostr_relay_list_from_event(e, &l) == NOSTR_OK) { mc_report("kind", "kind %d accepted", k); nostr_relay_list_free(l); } nostr_event_destroy(e); } }
    else { t[0] = &T[a]; t[1] = &T[b]; if (!b) jt(t, 1); jt(t, 2); for (int c = 0; c < NT; c++) { t[2] = &T[c]; jt(t, 3); for (int d = 0; d < (mc_thorough() ? NT : 7); d++) { t[3] = &T[d]; jt(t, 4); } } }
    mc_step(); mc_conform(); mc_outcome(a * 100 + b); MC_NOTE("tag lists beginning with shapes %d, %d", a, b);
}
static void faults(void)
{
    int op = mc_choose(6), n = mc_choose(18); mc_set_dev_bound(mc_thorough() ? 2 : 1); nostr_relay_list *l = NULL, *b = NULL; model m = { 0 }; static char names[40][40]; nostr_event *e = NULL; char **u = NULL; size_t c = 0; fault_reset(); fault_track(1); nostr_relay_list_create(&l); for (int i = 0; i < n; i++) { sprintf(names[i], "wss://r%d.example", i); nostr_relay_list_add(l, names[i], i % 3 != 0, i % 3 != 1); m.e[m.n++] = (ent){ names[i], i % 3 != 0, i % 3 != 1 }; } if (op == 3) nostr_relay_list_to_event(l, &e);
    fault_arm(); nostr_error_t r = op == 0 ? nostr_relay_list_create(&b) : op == 1 ? nostr_relay_list_add(l, "ws://new.example", true, false) : op == 2 ? nostr_relay_list_to_event(l, &e) : op == 3 ? nostr_relay_list_from_event(e, &b) : op == 4 ? nostr_relay_list_get_read_relays(l, &u, &c) : nostr_relay_list_get_write_relays(l, &u, &c); fault_disarm(); mc_step();
    if (r == NOSTR_OK) { if (op == 1) m.e[m.n++] = (ent){ "ws://new.example", 1, 0 }; if (op == 0) { model z = { 0 }; same(b, &z, "new"); } if (op == 2) { nostr_relay_list_from_event(e, &b); same(b, &m, "to_event"); } if (op == 3) same(b, &m, "from_event"); if (op >= 4) { size_t k = 0; for (int i = 0; i < m.n; i++) if (op == 4 ? m.e[i].r : m.e[i].w) { if (k >= c || strcmp(u[k], m.e[i].u)) mc_fail("select", "after a failure"); k++; } if (k != c) mc_fail("select", "after a failure"); nostr_relay_list_free_urls(u, c); } }
    else { if (!fault_injected()) mc_fail("fault", "operation %d: %d without a failure", op, r); if ((op == 2 && e) || ((op == 0 || op == 3) && b)) mc_fail("dangling", "operation %d failed and left a result", op); if (op >= 4 && u) mc_fail("dangling", "urls"); }
    same(l, &m, "after a failure"); if (r == NOSTR_OK || op != 3) { } nostr_relay_list_free(b); nostr_event_destroy(e); if (op == 1 && r != NOSTR_OK) { if (nostr_relay_list_add(l, "ws://new.example", true, false) != NOSTR_OK) mc_fail("retry", "refused"); m.e[m.n++] = (ent){ "ws://new.example", 1, 0 }; same(l, &m, "retry"); } nostr_relay_list_free(l); if (fault_live()) mc_fail("leak", "operation %d: %s", op, fault_live_desc()); mc_conform(); mc_outcome(op * 100 + n * 2 + (r != 0)); MC_NOTE("operation %d on %d relays: %d", op, n, r);
}
static void params(void)
{
    nostr_relay_list *l; nostr_relay_list_create(&l); nostr_event *e = NULL; char **u; size_t n; MC_CHECK(nostr_relay_list_create(NULL) != 0 && nostr_relay_list_add(NULL, U[0], 1, 1) != 0 && nostr_relay_list_add(l, NULL, 1, 1) != 0 && nostr_relay_list_to_event(NULL, &e) != 0 && nostr_relay_list_to_event(l, NULL) != 0 && nostr_relay_list_from_event(NULL, &l) != 0 && nostr_relay_list_count(NULL) == 0 && !nostr_relay_list_get(NULL, 0) && nostr_relay_list_get_read_relays(NULL, &u, &n) != 0 && nostr_relay_list_get_read_relays(l, NULL, &n) != 0 && nostr_relay_list_get_write_relays(l, &u, NULL) != 0, "null", "accepted"); nostr_relay_list_free_urls(NULL, 3); nostr_relay_list_free(NULL); nostr_relay_list_free(l); mc_steps(13); mc_conform(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    { "adds", adds, setup, 3, 0, "add sequences of up to 4 (5) over 11 urls x 4 flag pairs, selections, round trip" }, { "growth", growth, setup, 3, 0, "1..270 (399) relays" }, { "urls", urls, setup, 3, 0, "14 prefixes x every first two bytes; every length around the limits" }, { "tags", tags, setup, 3, 0, "r tags: every list of up to 4 over 24 shapes (fourth from the valid ones in quick); every event kind" }, { "faults", faults, setup, 3, 0, "allocation failures in every operation" }, { "params", params, setup, 3, 0, "NULL arguments" }, MC_END
};
