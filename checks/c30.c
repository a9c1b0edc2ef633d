/* C30: relay input is handled the same however the network fragments it. */
#include "relayh.h"
#include "../lib/fault.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

/* ---- what is delivered ---- */
enum { D_NONE, D_EVENT, D_MSG };
typedef struct { int what, who; uint64_t h; } del_t;
#define NGOT 3000
static del_t got[NGOT]; static int ngot, nstate; static nostr_relay *R; static int ud[8]; static char last_text[400];
static void put(int what, int who, uint64_t h) { if (ngot == NGOT) mock_fail("too-many", "more than %d deliveries", NGOT); got[ngot++] = (del_t){ what, who, h }; }
static void on_state(nostr_relay *r, nostr_relay_state s, void *u) { (void)r; (void)s; (void)u; nstate++; }
static void ev(int k, const nostr_event *e, void *u) { int fp = fault_pause(); if (u != &ud[k]) mock_fail("user-data", "event callback %d gets other user data", k); if (!e) mock_fail("null-event", "an event callback without event"); MC_NOTE("  event for subscription %d", k); put(D_EVENT, k, refev_hash(e)); fault_resume(fp); }
static void on_e0(const nostr_event *e, void *u) { ev(0, e, u); } static void on_e1(const nostr_event *e, void *u) { ev(1, e, u); } static void on_e2(const nostr_event *e, void *u) { ev(2, e, u); } static void on_e3(const nostr_event *e, void *u) { ev(3, e, u); } static void on_e4(const nostr_event *e, void *u) { ev(4, e, u); } static void on_e5(const nostr_event *e, void *u) { ev(5, e, u); }
static const nostr_event_callback CB[] = { on_e0, on_e1, on_e2, on_e3, on_e4, on_e5 };
static uint64_t last_big; static size_t last_len;
static void on_msg(const char *t, const char *d, void *u)
{
    int fp = fault_pause(); if (u != &ud[7]) mock_fail("user-data", "the message callback gets other user data"); if (!t || !d) mock_fail("null-message", "a message callback without text");
    rj_reset(); rj *j = rj_parse(d, strlen(d), 0); if (!j || j->t != RJ_ARR || !rj_at(j, 0) || rj_at(j, 0)->t != RJ_STR || strcmp(rj_at(j, 0)->s, t)) mock_fail("message-text", "the message callback gets type %s with %s", t, mc_q(d));
    put(D_MSG, 7, js_hash(MC_H0, j)); rj_reset(); snprintf(last_text, sizeof last_text, "%s", d); MC_NOTE("  message %s", mc_qn(d, strlen(d) > 200 ? 200 : strlen(d))); last_len = strlen(d); (void)last_big; fault_resume(fp);
}

/* ---- what a message means, from its text alone ---- */
typedef struct { const char *t; size_t n; char name[60]; int may; del_t d; } msg_t;   /* may: d is allowed, not demanded */
static const char *SID[6]; static int nsid;
static del_t judge(const char *t, size_t n, int *may)
{
    *may = 0; del_t d = { D_NONE, 0, 0 }; rj_reset(); rj *j = rj_parse(t, n, 0); if (!j || j->t != RJ_ARR || !j->count || rj_at(j, 0)->t != RJ_STR) { rj_reset(); return d; }
    const char *ty = rj_at(j, 0)->s; rj *a = rj_at(j, 1), *b = rj_at(j, 2), *c = rj_at(j, 3); int ok;
    if (rj_has_nul(j)) *may = 1;   /* text with U+0000 cannot be told apart from shorter text in C: either is malformed or not */
    if (!strcmp(ty, "EVENT")) {
        int k = -1; if (a && a->t == RJ_STR) for (int i = 0; i < nsid; i++) if (!strcmp(SID[i], a->s) && strlen(SID[i]) == a->n) k = i;
        if (a && a->t == RJ_STR && b && j->count == 3) {
            char *e = strndup(b->raw, b->rawn); nostr_event *v = NULL; nostr_error_t r = nostr_event_from_json(e, &v); free(e);
            if (!r && v) { if (k >= 0) { d = (del_t){ D_EVENT, k, refev_hash(v) }; if (!rj_has_nul(a)) *may = 0; } nostr_event_destroy(v); }
            rj_reset(); return d;
        }
        ok = 0;
    } else if (!strcmp(ty, "OK")) ok = j->count == 4 && a->t == RJ_STR && (b->t == RJ_TRUE || b->t == RJ_FALSE) && c->t == RJ_STR;
    else if (!strcmp(ty, "EOSE")) ok = j->count == 2 && a->t == RJ_STR;
    else if (!strcmp(ty, "NOTICE")) ok = j->count == 2 && a->t == RJ_STR;
    else if (!strcmp(ty, "CLOSED")) ok = j->count == 3 && a->t == RJ_STR && b->t == RJ_STR;
    else if (!strcmp(ty, "AUTH")) ok = j->count == 2 && a->t == RJ_STR;
    else ok = 0;
    if (!ok) *may = 1;
    d = (del_t){ D_MSG, 7, js_hash(MC_H0, j) }; rj_reset(); return d;
}
static msg_t POOL[64]; static int npool;
static void add(const char *name, const char *t, size_t n) { msg_t *m = &POOL[npool++]; char *c = malloc(n + 1); memcpy(c, t, n); c[n] = 0; m->t = c; m->n = n; snprintf(m->name, sizeof m->name, "%s", name); m->d = judge(c, n, &m->may); }
static void adds(const char *name, const char *t) { add(name, t, strlen(t)); }
static char *fmt(const char *f, ...) { static char b[4][4000]; static int i; char *o = b[i = (i + 1) & 3]; va_list ap; va_start(ap, f); vsnprintf(o, 4000, f, ap); va_end(ap); return o; }
static void setup(void)
{
    if (npool) return; fault_install(); nostr_init(); SID[0] = "a"; SID[1] = "b c:d"; nsid = 2; const char *e1 = ev_text(1, "hi"), *e2 = strdup(ev_text(2, "[\"EVENT\",\"a\"] \\\" ] } \xc3\xa9\n"));
    adds("event for a", fmt("[\"EVENT\",\"a\",%s]", e1)); adds("event for b", fmt("[\"EVENT\",\"b c:d\",%s]", e2)); adds("event for nobody", fmt("[\"EVENT\",\"c\",%s]", e1));
    adds("event with blanks", fmt(" \n[ \"EVENT\"\t,\r\n\"a\" , %s ] \n", e2)); adds("notice", "[\"NOTICE\",\"x]}[\\\"{\\\\\"]"); adds("ok", "[\"OK\",\"00ff\",true,\"\"]"); adds("not ok", "[\"OK\",\"00ff\",false,\"error: \\u00e9[\"]"); adds("eose", "[\"EOSE\",\"a\"]");
    adds("auth", "[\"AUTH\",\"chall\"]"); adds("closed for nobody", "[\"CLOSED\",\"zz\",\"\"]"); adds("unknown type", "[\"COUNT\",\"a\",{\"count\":7}]");
    adds("empty", ""); adds("blank", " \n "); adds("no array", "{\"a\":[\"NOTICE\",\"x\"]}"); adds("string", "\"[\\\"NOTICE\\\"\""); adds("empty array", "[]"); adds("no type", "[1,\"NOTICE\"]"); adds("type only", "[\"NOTICE\"]"); adds("unclosed array", "[\"NOTICE\",\"x\""); adds("unclosed string", "[\"NOTICE\",\"x]");
    adds("unclosed event", fmt("[\"EVENT\",\"a\",%.*s", 200, e1)); adds("closing first", "][\"NOTICE\",\"x\"]"); adds("text first", "x [\"NOTICE\",\"x\"]"); adds("mismatched", "[\"NOTICE\",\"x\"}"); adds("bad literal", "[\"NOTICE\",tru]"); adds("trailing comma", "[\"NOTICE\",\"x\",]"); adds("bad escape", "[\"NOTICE\",\"\\x\"]"); adds("backslash end", "[\"NOTICE\",\"\\");
    add("NUL inside", "[\"NOTICE\",\"x\0y\"]", 16); add("NUL first", "\0[\"NOTICE\",\"x\"]", 15); adds("event not an object", "[\"EVENT\",\"a\",[1]]"); adds("event without members", "[\"EVENT\",\"a\",{}]"); adds("event for number", fmt("[\"EVENT\",1,%s]", e1)); adds("short event", "[\"EVENT\",\"a\"]");
    adds("bad event id", fmt("[\"EVENT\",\"a\",{\"id\":\"zz%s]", e1 + 9)); adds("eose number", "[\"EOSE\",1]"); adds("ok short", "[\"OK\",\"00\"]"); adds("lone continuation", "[\"NOTICE\",\"\x80\xff\"]");
}
/* lone continuation bytes are not JSON; the client may pass them on */
static const char *sub_json(int i) { (void)i; return "{}"; }
static void open_conn(void)
{
    fault_reset(); mock_reset(); ngot = 0; nstate = 0; nostr_relay_create(&R, "ws://h/"); nostr_relay_set_message_callback(R, on_msg, &ud[7]);
    if (nostr_relay_connect(R, on_state, NULL)) mc_fail("harness", "connect"); mock_established(); mock_pump();
    for (int i = 0; i < nsid; i++) if (nostr_subscribe(R, SID[i], sub_json(i), CB[i], &ud[i])) mc_fail("harness", "subscribe %s", SID[i]);
}
static void start(void) { fault_reset(); mock_reset(); ngot = 0; nstate = 0; R = NULL; fault_track(1); nostr_relay_create(&R, "ws://h/"); nostr_relay_set_message_callback(R, on_msg, &ud[7]); if (nostr_relay_connect(R, on_state, NULL)) mc_fail("harness", "connect"); mock_established(); mock_pump(); for (int i = 0; i < nsid; i++) if (nostr_subscribe(R, SID[i], "{}", CB[i], &ud[i])) mc_fail("harness", "subscribe %s", SID[i]); (void)open_conn; }
static void finish(void) { nostr_relay_destroy(R); fault_track(0); mock_end(); if (fault_live()) mc_fail("leak", "%ld allocations are left: %s", fault_live(), fault_live_desc()); mc_conform(); }
/* the deliveries since `at` must be those of the messages, in order */
static void check(const msg_t *const *m, int n, int at, const char *how)
{
    int g = at;
    for (int i = 0; i < n; i++) {
        const del_t *d = &m[i]->d; if (d->what == D_NONE) continue;
        int hit = g < ngot && got[g].what == d->what && got[g].who == d->who && got[g].h == d->h;
        if (hit) { g++; continue; }
        if (!m[i]->may) { if (g < ngot) mc_fail("delivered-wrong", "%s: message %d (%s) is not what is delivered", how, i, m[i]->name); mc_fail("not-delivered", "%s: message %d of %d (%s) is not delivered", how, i + 1, n, m[i]->name); }
    }
    if (g < ngot) mc_fail(got[g].what == D_EVENT ? "extra-event" : "extra-message", "%s: something no message said is delivered (%s)", how, got[g].what == D_MSG ? mc_q(last_text) : "an event");
    if (R->state != NOSTR_RELAY_CONNECTED) mc_fail("state", "%s: the connection ended", how);
}
static void rx(const char *p, size_t n, int first, int final) { mock_rx(p, n, first, final); mc_step(); }
static void whole(const msg_t *m) { rx(m->t, m->n, 1, 1); }
static void cut1(const msg_t *m, size_t i) { rx(m->t, i, 1, 0); rx(m->t + i, m->n - i, 0, 1); }
static const char *how(const char *f, ...) { static char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void pool_whole(void) { start(); for (int a = 0; a < npool; a++) { const msg_t *m = &POOL[a]; int at = ngot; MC_NOTE("%s", m->name); whole(m); mock_pump(); check(&m, 1, at, "whole"); mc_outcome(mc_hash_u64(a, ngot - at)); mc_eval(1); } finish(); }
/* every way of cutting one message into three pieces (empty ones included), on one connection */
static void cuts(void)
{
    const msg_t *m = &POOL[mc_choose(npool)]; size_t lo = mc_choose((int)m->n + 1); start(); MC_NOTE("%s", m->name);
    for (size_t j = lo; j <= m->n; j++) { ngot = 0; rx(m->t, lo, 1, 0); rx(m->t + lo, j - lo, 0, 0); rx(m->t + j, m->n - j, 0, 1); mock_pump(); check(&m, 1, 0, how("%s cut at %zu and %zu", m->name, lo, j)); mc_eval(1); mc_outcome(mc_hash_u64(m - POOL, ngot)); }
    finish();
}
/* every cut of either message of every ordered pair */
static void pairs(void)
{
    const msg_t *m[3]; m[0] = &POOL[mc_choose(npool)]; m[1] = &POOL[mc_choose(npool)]; m[2] = &POOL[4]; start(); MC_NOTE("%s, %s", m[0]->name, m[1]->name);
    for (size_t i = 0; i <= m[0]->n; i++) { ngot = 0; cut1(m[0], i); whole(m[1]); whole(m[2]); mock_pump(); check(m, 3, 0, how("%s cut at %zu, %s, notice", m[0]->name, i, m[1]->name)); mc_eval(1); }
    for (size_t i = 0; i <= m[1]->n; i++) { ngot = 0; whole(m[0]); cut1(m[1], i); whole(m[2]); mock_pump(); check(m, 3, 0, how("%s, %s cut at %zu, notice", m[0]->name, m[1]->name, i)); mc_eval(1); }
    mc_outcome(mc_hash_u64(m[0] - POOL, (m[1] - POOL) * 10 + ngot)); finish();
}
/* sequences of three (four), in pieces of a few sizes */
static void chunked(const msg_t *m, size_t k) { size_t o = 0; do { size_t x = m->n - o < k ? m->n - o : k; rx(m->t + o, x, o == 0, o + x == m->n); o += x; } while (o < m->n); }
static void sequences(void)
{
    static const size_t K[] = { 1, 3, 64, 1 << 20 }; const msg_t *m[4]; for (int i = 0; i < 2; i++) m[i] = &POOL[mc_choose(npool)]; start();
    for (int c = 0; c < npool; c++) for (int f = 0; f < (mc_thorough() ? npool : 1); f++) for (int k = mc_thorough() ? 1 : 0; k < 4; k++) { m[2] = &POOL[c]; m[3] = &POOL[f]; int n = mc_thorough() ? 4 : 3; ngot = 0; for (int i = 0; i < n; i++) chunked(m[i], K[k]); mock_pump(); check(m, n, 0, how("%s, %s, %s%s%s in pieces of %zu", m[0]->name, m[1]->name, m[2]->name, n > 3 ? ", " : "", n > 3 ? m[3]->name : "", K[k])); mc_eval(1); }
    mc_outcome(mc_hash_u64(m[0] - POOL, m[1] - POOL)); finish();
}
/* all 2^(n-1) ways of cutting the short messages, then the same message again whole; with an empty piece at each place */
static void all_cuts(void)
{
    static const char *const T[] = { "[\"NOTICE\",\"]\"]", "[\"EOSE\",\"a\"]", "[\"OK\",\"\",true,\"\"]", "[\"NOTICE\",\"\\\"]", " [\"NOTICE\",1" }; const char *t = MC_PICK(T); size_t n = strlen(t); int hi = mc_choose(64), e = 0; msg_t M = { t, n, "", 0, { 0, 0, 0 } }; M.d = judge(t, n, &M.may); snprintf(M.name, 60, "%s", t); const msg_t *m[2] = { &M, &M }; start();
    uint32_t lob = n - 1 > 6 ? n - 1 - 6 : 0;
    for (uint32_t lo = 0; lo < 1u << lob; lo++) for (e = 0; e < 4; e++) {
        uint32_t mask = (uint32_t)hi << lob | lo; ngot = 0; size_t s = 0; if (e == 1) rx("", 0, 1, 0);
        for (size_t i = 1; i <= n; i++) if (i == n || mask >> (i - 1) & 1) { rx(t + s, i - s, s == 0 && e != 1, i == n && e != 3); if (e == 2 && i < n) rx("", 0, 0, 0); s = i; }
        if (e == 3) rx("", 0, 0, 1);
        whole(&M); mock_pump(); check(m, 2, 0, how("%s cut by %x, empty pieces %d", t, mask, e)); mc_eval(1);
    }
    mc_outcome(hi); finish();
}
/* lengths around every buffer boundary; over-long ones may be dropped, what follows may not */
static void sizes(void)
{
    static const size_t B[] = { 1024, 2048, 4096, 65536, 131072, 1 << 20, 8 << 20, 10 << 20, 11 << 20, 24 << 20 }; static const size_t K[] = { 256, 1024, 4096, 65535, 65536, 1 << 20, 64 << 20 };
    size_t b = MC_PICK(B); size_t k = MC_PICK(K); int wide = mc_thorough() ? 40 : 6, nn = b > 1 << 20 ? 5 : 2 * wide + 1; if (b >= 8 << 20 && k < 65535) { mc_discard(); } if (b / k > 20000) mc_discard();
    for (int x = 0; x < nn; x++) {
        size_t n = b + x - nn / 2; char *t = malloc(n + 1); memset(t, 'q', n); memcpy(t, "[\"NOTICE\",\"", 11); memcpy(t + n - 2, "\"]", 3); start(); const msg_t *two[2]; msg_t M = { t, n, "long", n > (8 << 20) + 2, { D_MSG, 7, 0 } };
        { uint64_t h = mc_hash_u64(MC_H0, RJ_ARR * 8 + 1); h = mc_hash_u64(h, 2); h = mc_hash_u64(h, RJ_STR * 8 + 1); h = mc_hash(mc_hash_u64(h, 6), "NOTICE", 6); h = mc_hash_u64(h, RJ_STR * 8 + 1); h = mc_hash(mc_hash_u64(h, n - 13), t + 11, n - 13); M.d.h = h; }
        two[0] = &M; two[1] = &POOL[4]; chunked(&M, k); whole(two[1]); mock_pump(); check(two, 2, 0, how("%zu bytes in pieces of %zu, notice", n, k)); mc_outcome(mc_hash_u64(ngot, b)); mc_eval(1);
        ngot = 0; two[0] = &POOL[0]; chunked(two[0], 7); whole(two[1]); mock_pump(); check(two, 2, 0, "an event and a notice after a long message");
        finish(); free(t);
    }
}
/* every short text over an alphabet that decides about structure, whole and cut in the middle */
static void texts(void)
{
    static const char AL[] = { '[', ']', '{', '}', '"', '\\', ',', ':', 'E', '1', ' ', 0 }; enum { A = sizeof AL }; int L = mc_thorough() ? 6 : 5; char t[16]; size_t n; t[0] = AL[mc_choose(A)]; t[1] = AL[mc_choose(A)]; start();
    const msg_t *nt = &POOL[4]; int len = 2, tot = 1; for (int i = 2; i < L; i++) tot *= A; (void)len;
    for (int v = 0; v < tot; v++) {
        int x = v; for (int i = 2; i < L; i++) { t[i] = AL[x % A]; x /= A; } n = L; if (v == 0 || v == 1) n = v + 1;   /* shorter ones are these followed by blanks */
        msg_t M = { t, n, "text", 0, { 0, 0, 0 } }; M.d = judge(t, n, &M.may); M.may = 1; const msg_t *m[2] = { &M, nt }; ngot = 0; if (v & 1) whole(&M); else cut1(&M, n / 2); whole(nt); mock_pump(); check(m, 2, 0, how("%s, notice", mc_qn(t, n))); mc_eval(1);
    }
    mc_outcome(t[0] * 256 + t[1]); finish();
}
/* the right subscription: ids that look alike */
static void dispatch(void)
{
    static char longid[257]; memset(longid, 'L', 256); static const char *const ID[] = { "a", "A", "ab", "b", " a", "a ", "\xc3\xa9", "e\xcc\x81", longid, "0", "a,b", "[a]" }; static const char *const AS[] = { "a", "A", "ab", "b", " a", "a ", "\\u00e9", "e\\u0301", longid, "0", "a,b", "[a]", "\\u0061", "\\u0041b", "", "a\\u0000", "aa" };
    int n = 3, id[3]; for (int i = 0; i < n; i++) id[i] = mc_choose(MC_LEN(ID)); if (id[0] == id[1] || id[1] == id[2] || id[0] == id[2]) mc_discard();
    const char *s0 = SID[0], *s1 = SID[1]; int n0 = nsid; nsid = n; for (int i = 0; i < n; i++) SID[i] = ID[id[i]]; start(); const char *e = ev_text(5, "dispatch");
    for (int a = 0; a < MC_LEN(AS); a++) {
        char *t = fmt("[\"EVENT\",\"%s\",%s]", AS[a], e); msg_t M = { t, strlen(t), "event", 0, { 0, 0, 0 } }; snprintf(M.name, 60, "event for %s", AS[a]); M.d = judge(t, M.n, &M.may); const msg_t *m = &M; ngot = 0; whole(&M); mock_pump(); check(&m, 1, 0, "dispatch"); mc_eval(1); mc_outcome(mc_hash_u64(a, ngot));
        /* closed: no event any more, the others stay */
    }
    int c = mc_choose(4); if (c < 3) {
        char *t = fmt("[\"CLOSED\",\"%s\",\"bye\"]", SID[c]); const char *was = SID[c]; rx(t, strlen(t), 1, 1); mock_pump(); SID[c] = "\x01"; ngot = 0;
        for (int i = 0; i < n; i++) { char *x = fmt("[\"EVENT\",\"%s\",%s]", i == c ? was : SID[i], e); msg_t M = { x, strlen(x), "event after closed", 0, { 0, 0, 0 } }; M.d = judge(x, M.n, &M.may); const msg_t *m = &M; ngot = 0; whole(&M); mock_pump(); check(&m, 1, 0, "after CLOSED"); mc_eval(1); }
        SID[c] = was;
    } else {   /* unsubscribe and subscribe again with another callback */
        nostr_relay_unsubscribe(R, SID[1]); if (nostr_subscribe(R, SID[1], "{}", CB[4], &ud[4])) mc_fail("harness", "again"); char *x = fmt("[\"EVENT\",\"%s\",%s]", SID[1], e); msg_t M = { x, strlen(x), "event", 0, { 0, 0, 0 } }; M.d = judge(x, M.n, &M.may); M.d.who = 4; const msg_t *m = &M; ngot = 0; whole(&M); mock_pump(); check(&m, 1, 0, "subscribed again"); mc_eval(1);
    }
    finish(); nsid = n0; SID[0] = s0; SID[1] = s1;
}
/* the event a subscription gets is the event the relay sent */
static void events(void)
{
    static const char *const CONTENT[] = { "\"\"", "\"\\u00e9\\ud83d\\ude00\"", "\"\xc3\xa9\xf0\x9f\x98\x80\"", "\"\\b\\f\\n\\r\\t\\/\\\\\\\"\"", "\"\\u0001\\u001f\\u007f\"", "\"\x7f\"", "\"a\\u0000b\"", "\"\\ud800\"", "\"\xff\"", "\"]}\\\"],[\"", "\"\\u2028\xe2\x80\xa8\"" }, *const AT[] = { "0", "1", "1700000000", "2147483647", "2147483648", "4294967296", "9007199254740991", "9007199254740993", "9223372036854775807", "1e3", "1.0", "-1" }, *const KIND[] = { "0", "1", "30023", "65535", "65536", "1.5", "-1" }, *const TAGS[] = { "[]", "[[\"e\",\"]\\\"}\"],[\"\"]]", "[[\"p\",\"x\",\"\\u00e9\"],[\"t\"]]", "[[]]", "{}" }, *const EXTRA[] = { "", ",\"extra\":[{\"content\":\"no\"}]", ",\"content\":\"second\"" };
    const char *c = MC_PICK(CONTENT), *at = MC_PICK(AT), *k = MC_PICK(KIND), *tg = MC_PICK(TAGS); start();
    for (int x = 0; x < MC_LEN(EXTRA); x++) for (int o = 0; o < 2; o++) {
        const char *e = ev_text(7, "x"); char id[80], pk[80], sg[150]; snprintf(id, 80, "%.64s", strstr(e, "\"id\":\"") + 6); snprintf(pk, 80, "%.64s", strstr(e, "\"pubkey\":\"") + 10); snprintf(sg, 150, "%.128s", strstr(e, "\"sig\":\"") + 7);
        char *t = o ? fmt("[\"EVENT\",\"a\",{ \"content\" : %s, \"sig\":\"%s\",\"tags\":%s,\"kind\":%s,\"created_at\":%s,\"pubkey\":\"%s\",\"id\":\"%s\"%s}]", c, sg, tg, k, at, pk, id, EXTRA[x]) : fmt("[\"EVENT\",\"a\",{\"id\":\"%s\",\"pubkey\":\"%s\",\"created_at\":%s,\"kind\":%s,\"tags\":%s,\"content\":%s,\"sig\":\"%s\"%s}]", id, pk, at, k, tg, c, sg, EXTRA[x]);
        size_t n = strlen(t); msg_t M = { t, n, "event", 0, { 0, 0, 0 } }; snprintf(M.name, 60, "content %s", c); M.d = judge(t, n, &M.may); const msg_t *m = &M; for (int w = 0; w < 2; w++) { ngot = 0; if (w) cut1(&M, n / 2); else whole(&M); mock_pump(); check(&m, 1, 0, how("created_at %s kind %s tags %s extra %s", at, k, tg, EXTRA[x])); mc_eval(1); mc_outcome(mc_hash_u64(ngot, M.d.h)); }
    }
    finish();
}
/* a connection that breaks off in the middle of a message leaves nothing for the next */
static void broken_off(void)
{
    const msg_t *a = &POOL[mc_choose(npool)], *b = &POOL[mc_choose(npool)]; int again = mc_choose(2); if (a->n == 0) mc_discard();
    for (size_t i = 0; i < a->n; i++) {
        start(); rx(a->t, i, 1, 0); mock_closed(); mock_pump(); if (ngot) mc_fail("extra-message", "%s is delivered before it is complete (%zu of %zu)", a->name, i, a->n);
        if (again) { if (nostr_relay_disconnect(R)) mc_fail("harness", "disconnect"); } if (nostr_relay_connect(R, on_state, NULL)) mc_fail("harness", "reconnect"); mock_established(); mock_pump(); for (int s = 0; s < nsid; s++) if (nostr_subscribe(R, SID[s], "{}", CB[s], &ud[s])) mc_fail("harness", "subscribe");
        whole(b); mock_pump(); check(&b, 1, 0, how("%s broken off at %zu, then %s", a->name, i, b->name)); mc_eval(1); finish();
        if (!mc_thorough() && i >= 24) break;
    }
    mc_outcome(mc_hash_u64(a - POOL, b - POOL));
}
/* memory running out while receiving: what is delivered is right and in order, what follows is complete */
static void memory(void)
{
    mc_set_dev_bound(mc_thorough() ? 2 : 1); static const int S[][3] = { { 0, 4, 1 }, { 5, 20, 0 }, { 1, 29, 7 }, { 0, 0, 0 } }; int s = mc_choose(4), k = mc_choose(3); const msg_t *m[3]; msg_t c[3]; for (int i = 0; i < 3; i++) { c[i] = POOL[S[s][i]]; m[i] = &c[i]; } start();
    fault_arm(); for (int i = 0; i < 3; i++) { if (k == 0) whole(m[i]); else chunked(m[i], k == 1 ? 100 : 33); } mock_pump(); fault_disarm();
    for (int i = 0; i < 3; i++) c[i].may |= fault_injected() > 0;
    check(m, 3, 0, "memory ran out"); int n = 0; for (int i = 0; i < 3; i++) n += c[i].d.what != D_NONE; if (ngot < n - fault_injected()) mc_fail("lost-more", "%d of %d messages are lost through %d failed allocations", n - ngot, n, fault_injected());
    for (int i = 0; i < 3; i++) c[i].may = 0; ngot = 0; for (int i = 0; i < 3; i++) chunked(m[i], 50); mock_pump(); check(m, 3, 0, "after memory ran out"); mc_outcome(mc_hash_u64(fault_injected(), s)); mc_eval(1); finish();
}
const mc_scenario mc_scenarios[] = {
    { "whole", pool_whole, setup, 3, 20, "each message" }, { "cuts", cuts, setup, 3, 60, "every two cuts of every message" }, { "pairs", pairs, setup, 3, 60, "every cut of every ordered pair" }, { "sequences", sequences, setup, 3, 60, "all sequences of three (four) in four piece sizes" },
    { "all-cuts", all_cuts, setup, 3, 60, "all 2^(n-1) ways of cutting, with empty pieces" }, { "sizes", sizes, setup, 3, 120, "lengths around buffer boundaries" }, { "texts", texts, setup, 3, 60, "all texts of 5 (6) characters over an alphabet" },
    { "dispatch", dispatch, setup, 3, 20, "subscriptions with similar ids" }, { "events", events, setup, 3, 20, "events in unusual spellings" }, { "broken-off", broken_off, setup, 3, 20, "connections that end inside a message" }, { "memory", memory, setup, 3, 20, "allocation failures while receiving" }, MC_END };
