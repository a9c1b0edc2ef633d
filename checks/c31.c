/* C31: a relay connection's life cycle is consistent under any network behaviour. */
#include "relayh.h"
#include "../lib/fault.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

enum { DISC = NOSTR_RELAY_DISCONNECTED, CONNING = NOSTR_RELAY_CONNECTING, CONN = NOSTR_RELAY_CONNECTED, ERR = NOSTR_RELAY_ERROR };
static const char *const SN[] = { "DISCONNECTED", "CONNECTING", "CONNECTED", "ERROR" };
/* ---- what the callbacks report ---- */
enum { G_STATE, G_EVENT, G_MSG };
typedef struct { int what, who; uint64_t v; char t[12]; } got_t;
static got_t got[4000]; static int ngot, closed_for_callbacks; static nostr_relay *R; static int ud[8];
static void put(int what, int who, uint64_t v, const char *t) { if (ngot == 4000) mock_fail("too-many", "more than 4000 callbacks"); if (closed_for_callbacks) mock_fail("late-callback", "a callback after disconnect had returned"); got[ngot] = (got_t){ what, who, v, "" }; snprintf(got[ngot].t, 12, "%s", t ? t : ""); ngot++; }
static void reenter_now(int where);
static void on_state(nostr_relay *r, nostr_relay_state s, void *u) { int fp = fault_pause(); if (r != R) mock_fail("callback-relay", "the state callback gets another relay"); if (u != &ud[0]) mock_fail("user-data", "the state callback gets other user data"); MC_NOTE("state callback: %s", SN[s & 3]); put(G_STATE, 0, s, NULL); fault_resume(fp); reenter_now(s); }
static void ev(int k, const nostr_event *e, void *u) { int fp = fault_pause(); if (u != &ud[k]) mock_fail("user-data", "event callback %d gets other user data", k); if (!e) mock_fail("null-event", "an event callback without event"); MC_NOTE("event callback %d", k); put(G_EVENT, k, refev_hash(e), NULL); fault_resume(fp); reenter_now(10); }
static void on_ev1(const nostr_event *e, void *u) { ev(1, e, u); }
static void on_ev2(const nostr_event *e, void *u) { ev(2, e, u); }
static void on_ev3(const nostr_event *e, void *u) { ev(3, e, u); }
static void msgcb(int k, const char *t, const char *d, void *u) { int fp = fault_pause(); if (u != &ud[k]) mock_fail("user-data", "message callback %d gets other user data", k); if (!t || !d) mock_fail("null-message", "a message callback without text"); MC_NOTE("message callback %d: %s %s", k, t, mc_q(d)); rj_reset(); rj *j = rj_parse(d, strlen(d), 0); if (!j || j->t != RJ_ARR || !rj_is(rj_at(j, 0), t)) mock_fail("message-text", "the message callback gets %s with %s", t, mc_q(d)); uint64_t h = MC_H0; for (rj *x = j->child; x; x = x->next) h = mc_hash(h, x->s ? x->s : x->raw, x->s ? x->n : x->rawn); rj_reset(); put(G_MSG, k, h, t); fault_resume(fp); reenter_now(11); }
static void on_m4(const char *t, const char *d, void *u) { msgcb(4, t, d, u); }
static void on_m5(const char *t, const char *d, void *u) { msgcb(5, t, d, u); }
static uint64_t msg_hash(const char *d) { rj_reset(); rj *j = rj_parse(d, strlen(d), 0); uint64_t h = MC_H0; for (rj *x = j->child; x; x = x->next) h = mc_hash(h, x->s ? x->s : x->raw, x->s ? x->n : x->rawn); rj_reset(); return h; }

/* ---- the model ---- */
typedef struct { int k, sid; } pend_t;
enum { P_EST, P_ERR, P_CLOSED, P_EVA, P_EVB, P_CLOSEDA, P_NOTICE, P_OK, P_EOSE, P_NOISE };
static struct { int st, err_ok; int sub[2], was[2], any[2]; int cb; int conn_note; int live; pend_t pend[8]; int npend; } M;
static int gpos, spos; static nostr_event *PUB; static char *PUBJ; static int seq_ev;
static const char *const SID[2] = { "a", "b sub:2" };
static const char *const FJ[2] = { "{\"kinds\":[1],\"#t\":[\"x\"]}", " {} , {\"ids\":[\"ab\"],\"since\":5} " };
static const char *rx_text(int k) { static char b[1200]; switch (k) {
    case P_EVA: snprintf(b, 1200, "[\"EVENT\",\"%s\",%s]", SID[0], ev_text(1, "hello")); break; case P_EVB: snprintf(b, 1200, "[\"EVENT\",\"%s\",%s]", SID[1], ev_text(2, "wo\"r\\ld\n")); break;
    case P_CLOSEDA: snprintf(b, 1200, "[\"CLOSED\",\"%s\",\"error: bye\"]", SID[0]); break; case P_NOTICE: snprintf(b, 1200, "[\"NOTICE\",\"be nice\"]"); break; case P_OK: snprintf(b, 1200, "[\"OK\",\"%064d\",true,\"\"]", 7); break; default: snprintf(b, 1200, "[\"EOSE\",\"%s\"]", SID[0]); } return b; }
static void expect(int what, int who, uint64_t v, const char *why)
{
    if (gpos >= ngot) mc_fail("missing-callback", "%s was not reported", why);
    got_t *g = &got[gpos++]; if (g->what != what || g->who != who || g->v != v) mc_fail("wrong-callback", "expected %s (%d,%d), got (%d,%d%s%s)", why, what, who, g->what, g->who, g->what == G_STATE ? " " : "", g->what == G_STATE ? SN[g->v & 3] : "");
}
static void no_more(const char *when) { if (gpos < ngot) mc_fail("extra-callback", "%s: unexpected callback (%d,%d%s%s)", when, got[gpos].what, got[gpos].who, got[gpos].what == G_STATE ? " " : "", got[gpos].what == G_STATE ? SN[got[gpos].v & 3] : ""); }
static void note_connecting(int must) { if (!M.conn_note) return; if (gpos < ngot && got[gpos].what == G_STATE && got[gpos].v == CONNING) { gpos++; M.conn_note = 0; } else if (must) mc_fail("missing-callback", "CONNECTING was not reported"); }
/* one network event as the model sees it; in `optional` mode stops at the first one that was not delivered */
static int apply(int k)
{
    switch (k) {
    case P_EST: M.st = CONN; expect(G_STATE, 0, CONN, "CONNECTED"); break;
    case P_ERR: case P_CLOSED: M.st = DISC; M.live = 0; memset(M.sub, 0, sizeof M.sub); memset(M.any, 0, sizeof M.any); expect(G_STATE, 0, DISC, "DISCONNECTED"); break;
    case P_EVA: case P_EVB: { int s = k - P_EVA; uint64_t h = ev_hash_of(s ? ev_text(2, "wo\"r\\ld\n") : ev_text(1, "hello")); if (M.any[s]) { if (gpos < ngot && got[gpos].what == G_EVENT) { if (got[gpos].v != h) mc_fail("wrong-callback", "another event is delivered"); gpos++; } } else if (M.sub[s]) expect(G_EVENT, M.sub[s], h, "an event"); break; }
    case P_CLOSEDA: M.sub[0] = 0; M.any[0] = 0; /* fall through */
    case P_NOTICE: case P_OK: case P_EOSE: if (M.cb) expect(G_MSG, M.cb, msg_hash(rx_text(k)), "a message"); break;
    }
    mc_step(); return 1;
}
static void sent_is(const char *want, const char *why) { if (mock_sent_n() != spos + 1) mc_fail(mock_sent_n() > spos ? "sent-twice" : "not-sent", "%s: %d messages were sent", why, mock_sent_n() - spos); if (!mock_sent_text(spos)) mc_fail("sent-binary", "%s: not sent as text", why); if (!js_same(mock_sent(spos), want)) mc_fail("sent-text", "%s: sent %s, expected %s", why, mc_q(mock_sent(spos)), mc_q(want)); spos++; }
static void nothing_sent(const char *why) { if (mock_sent_n() != spos) mc_fail("sent-unasked", "%s: %s was sent", why, mc_q(mock_sent(spos))); }
static void settle(void) { mock_pump(); note_connecting(1); for (int i = 0; i < M.npend; i++) apply(M.pend[i].k); M.npend = 0; no_more("after the network's events"); nothing_sent("network event"); }
static void check_state(const char *after)
{
    nostr_relay_state s = R->state; int lenient = M.npend;
    if (!lenient && !(s == (nostr_relay_state)M.st || (M.err_ok && (s == ERR || s == DISC)))) mc_fail("state", "after %s the state is %s, expected %s", after, SN[s & 3], SN[M.st]);
    if (mock_slow_joins) mc_fail("slow-disconnect", "%s waits for the network", after);
    mc_state(mc_hash_u64(mc_hash_u64(M.st, M.sub[0] * 10 + M.sub[1]), M.cb * 100 + M.any[0] * 10 + M.live));
}
static void net(int k) { switch (k) { case P_EST: mock_established(); break; case P_ERR: mock_error(); break; case P_CLOSED: mock_closed(); break; case P_NOISE: mock_noise(); break; default: { const char *t = rx_text(k); mock_rx(t, strlen(t), 1, 1); } } M.pend[M.npend++] = (pend_t){ k, 0 }; }

static void fresh(void)
{
    fault_reset(); mock_reset(); ngot = gpos = spos = closed_for_callbacks = 0; memset(&M, 0, sizeof M);
    fault_track(1); nostr_error_t r = nostr_relay_create(&R, "wss://relay.example/path"); fault_track(0);
    if (r || !R) mc_fail("create", "nostr_relay_create: %d", r);
    if (R->state != NOSTR_RELAY_DISCONNECTED) mc_fail("state", "a new relay is not disconnected");
}
/* disconnecting or destroying: undelivered events may still be delivered, then at most DISCONNECTED */
static void drain(void)
{
    note_connecting(0); M.conn_note = 0;
    int i = 0; while (gpos < ngot && i < M.npend) { int g0 = gpos; 
        int silent = (M.pend[i].k == P_NOISE) || (M.pend[i].k >= P_CLOSEDA && !M.cb) || ((M.pend[i].k == P_EVA || M.pend[i].k == P_EVB) && !M.sub[M.pend[i].k - P_EVA] && !M.any[M.pend[i].k - P_EVA]);
        if (!silent && got[gpos].what == G_STATE && got[gpos].v == DISC && M.pend[i].k != P_ERR && M.pend[i].k != P_CLOSED) break;
        apply(M.pend[i++].k); (void)g0; }
    if (gpos < ngot && got[gpos].what == G_STATE && got[gpos].v == DISC) gpos++;
    M.npend = 0; no_more("while disconnecting"); nothing_sent("disconnect");
}
static int unconnected(void) { return M.st == DISC || M.st == ERR; }
static void do_connect(int how)
{
    int was_live = M.live; mk.fail_context = how == 1; mk.connect = how == 2 ? MK_NULL : how == 3 ? MK_NULL_CB : MK_OK; mk.fail_thread = how == 4; mk.fail_mutex = how >= 5 ? how - 4 : 0;
    int n0 = mock_last.n; fault_track(1); nostr_error_t r = nostr_relay_connect(R, on_state, &ud[0]); fault_track(0); MC_NOTE("connect (%d): %d", how, r);
    int missed = how >= 5 && mk.fail_mutex > 0; mk.fail_context = mk.fail_thread = mk.fail_mutex = 0; mk.connect = MK_OK; mc_step();
    if (M.npend) {   /* the attempt may end the pending connection's events or be judged before them */
        if (!r && mock_last.n == n0) mc_fail("connect-nothing", "connect succeeds without an attempt");
    }
    if (!unconnected()) { if (r == NOSTR_OK) mc_fail("connect-twice", "a second connect is accepted while %s", SN[M.st]); if (mock_last.n != n0) mc_fail("connect-twice", "a refused connect makes an attempt"); no_more("refused connect"); return; }
    (void)was_live;
    /* whatever an ended connection still reported came before */
    if (how && !missed) { if (r == NOSTR_OK) mc_fail("connect-failed", "connect succeeds although it failed (%d)", how);
        while (gpos < ngot && got[gpos].what == G_STATE) gpos++;
        no_more("failed connect"); M.st = DISC; M.err_ok = 1; M.live = 0; if (R->state == NOSTR_RELAY_CONNECTED || R->state == NOSTR_RELAY_CONNECTING) mc_fail("state", "after a failed connect the state is %s", SN[R->state & 3]); return; }
    if (r != NOSTR_OK) mc_fail("connect", "connect is refused with %d while %s", r, SN[M.st]);
    M.st = CONNING; M.err_ok = 0; M.live = 1; memset(M.sub, 0, sizeof M.sub); memset(M.any, 0, sizeof M.any); M.was[0] = M.was[1] = 0; M.conn_note = 1; note_connecting(0);
    if (mock_last.n != n0 + 1) mc_fail("connect-attempts", "%d attempts", mock_last.n - n0);
}
static void do_disconnect(void)
{
    int none = unconnected() && !M.npend; void *h = R->ws_handle;
    fault_track(1); nostr_error_t r = nostr_relay_disconnect(R); fault_track(0); MC_NOTE("disconnect: %d", r); mc_step();
    drain();
    if (!none && r != NOSTR_OK) mc_fail("disconnect", "disconnect is refused with %d", r);
    if (none && !h && r == NOSTR_OK) {} /* nothing to disconnect: either answer */
    M.st = DISC; M.live = 0; memset(M.sub, 0, sizeof M.sub); memset(M.any, 0, sizeof M.any);
    if (mock_wsi_live() || mock_contexts_live()) mc_fail("still-connected", "after disconnect a connection is left");
}
static void do_sub(int s, int who)
{
    char w[300]; nostr_event_callback cb = who == 1 ? on_ev1 : who == 2 ? on_ev2 : on_ev3; int f0 = mock_write_failures;
    char id[20], fj[100]; strcpy(id, SID[s]); strcpy(fj, FJ[s]);
    fault_track(1); nostr_error_t r = nostr_subscribe(R, id, fj, cb, &ud[who]); fault_track(0); MC_NOTE("subscribe %s -> callback %d: %d", SID[s], who, r); memset(id, 'z', 19); memset(fj, 'z', 99); mc_step();
    if (M.st != CONN) { if (r == NOSTR_OK) mc_fail("accepted", "subscribe is accepted while %s", SN[M.st]); nothing_sent("refused subscribe"); return; }
    if (mock_write_failures > f0) { if (r == NOSTR_OK) mc_fail("write-lost", "subscribe succeeds although the write failed"); if (M.sub[s]) M.any[s] = 1; else M.sub[s] = 0; return; }
    if (r != NOSTR_OK) mc_fail("refused", "subscribe is refused with %d", r);
    snprintf(w, 300, "[\"REQ\",\"%s\",%s]", SID[s], FJ[s]); sent_is(w, "subscribe"); M.sub[s] = who; M.any[s] = 0;
}
static void do_unsub(int s)
{
    char w[100]; int f0 = mock_write_failures; fault_track(1); nostr_error_t r = nostr_relay_unsubscribe(R, SID[s]); fault_track(0); MC_NOTE("unsubscribe %s: %d", SID[s], r); mc_step();
    if (M.st != CONN) { if (r == NOSTR_OK) mc_fail("accepted", "unsubscribe is accepted while %s", SN[M.st]); nothing_sent("refused unsubscribe"); return; }
    if (mock_write_failures > f0) { if (r == NOSTR_OK) mc_fail("write-lost", "unsubscribe succeeds although the write failed"); if (M.sub[s]) M.any[s] = 1; return; }
    if (!M.sub[s] && !M.any[s]) { if (r != NOSTR_OK && mock_sent_n() == spos) return; /* refusing to close what is not open */ }
    if (r != NOSTR_OK) mc_fail("refused", "unsubscribe is refused with %d", r);
    snprintf(w, 100, "[\"CLOSE\",\"%s\"]", SID[s]); sent_is(w, "unsubscribe"); M.sub[s] = 0; M.any[s] = 0;
}
static void do_pub(int other)
{
    int f0 = mock_write_failures; fault_track(1); nostr_error_t r = other ? nostr_relay_send_event(R, PUB) : nostr_publish_event(R, PUB); fault_track(0); MC_NOTE("publish: %d", r); mc_step();
    if (M.st != CONN) { if (r == NOSTR_OK) mc_fail("accepted", "publish is accepted while %s", SN[M.st]); nothing_sent("refused publish"); return; }
    if (mock_write_failures > f0) { if (r == NOSTR_OK) mc_fail("write-lost", "publish succeeds although the write failed"); return; }
    if (r != NOSTR_OK) mc_fail("refused", "publish is refused with %d", r);
    char w[1200]; snprintf(w, 1200, "[\"EVENT\",%s]", PUBJ); sent_is(w, "publish");
}
static const char *const BADID[] = { "", "a\"b", "a\\b", "a\nb", "\x01" };
static const char *const BADF[] = { "", "x", "{", "{}}", "{}]", "{},", "{}{}", "[]", "[{}]", "1", "\"s\"", "null", "{} x", "{},1", ",{}", "{\"a\":}", "{}],[\"CLOSE\",\"x\"" };
static void do_bad(void)
{
    char longid[300]; memset(longid, 'i', 299); longid[299] = 0; longid[257] = 0; nostr_error_t r; mc_step();
#define REFUSED(x, why) do { fault_track(1); r = (x); fault_track(0); if (r == NOSTR_OK) mc_fail("accepted-bad", "%s is accepted", why); nothing_sent(why); mc_eval(1); } while (0)
    for (int i = 0; i < MC_LEN(BADID); i++) { REFUSED(nostr_subscribe(R, BADID[i], "{}", on_ev3, &ud[3]), mc_q(BADID[i])); REFUSED(nostr_relay_unsubscribe(R, BADID[i]), mc_q(BADID[i])); }
    REFUSED(nostr_subscribe(R, longid, "{}", on_ev3, &ud[3]), "an id of 257 characters"); REFUSED(nostr_relay_unsubscribe(R, longid), "an id of 257 characters");
    for (int i = 0; i < MC_LEN(BADF); i++) REFUSED(nostr_subscribe(R, SID[0], BADF[i], on_ev3, &ud[3]), mc_q(BADF[i]));
    REFUSED(nostr_subscribe(NULL, "a", "{}", on_ev3, NULL), "NULL"); REFUSED(nostr_subscribe(R, NULL, "{}", on_ev3, NULL), "NULL"); REFUSED(nostr_subscribe(R, "a", NULL, on_ev3, NULL), "NULL");
    REFUSED(nostr_relay_unsubscribe(NULL, "a"), "NULL"); REFUSED(nostr_relay_unsubscribe(R, NULL), "NULL"); REFUSED(nostr_publish_event(NULL, PUB), "NULL"); REFUSED(nostr_publish_event(R, NULL), "NULL"); REFUSED(nostr_relay_send_event(R, NULL), "NULL");
    REFUSED(nostr_relay_connect(R, NULL, NULL), "connect without callback"); REFUSED(nostr_relay_connect(NULL, on_state, NULL), "NULL"); REFUSED(nostr_relay_disconnect(NULL), "NULL"); REFUSED(nostr_relay_set_message_callback(NULL, on_m4, NULL), "NULL"); nostr_relay_destroy(NULL);
    MC_NOTE("calls that must be refused: %s", "done");
}
static void do_cb(int k) { fault_track(1); nostr_error_t r = nostr_relay_set_message_callback(R, k == 4 ? on_m4 : k == 5 ? on_m5 : NULL, k ? &ud[k] : NULL); fault_track(0); MC_NOTE("message callback %d", k); mc_step(); if (r) mc_fail("refused", "set_message_callback: %d", r); M.cb = k; }
static void do_destroy(void)
{
    fault_track(1); nostr_relay_destroy(R); fault_track(0); MC_NOTE("destroy"); mc_step(); drain(); closed_for_callbacks = 1; R = NULL;
    if (mock_wsi_live()) mc_fail("still-connected", "after destroy a connection is left"); mock_end();
    if (fault_live()) mc_fail("leak", "%ld allocations are left: %s", fault_live(), fault_live_desc());
}
static void setup(void) { fault_install(); nostr_init(); nostr_event_from_json(ev_text(9, "published \"text\""), &PUB); PUBJ = strdup(ev_text(9, "published \"text\"")); if (!PUB) abort(); }
static int mode = -1, inner;

/* ---- every history up to the depth ---- */
enum { O_CONN, O_CTXFAIL, O_REFUSED, O_REFUSEDCB, O_THREADFAIL, O_MUTEX1, O_MUTEX2, O_DISC, O_REBORN, O_SUBA, O_SUBA2, O_SUBB, O_UNSUBA, O_UNSUBB, O_PUB, O_BAD, O_CB4, O_CB5, O_CB0, O_ALL, N_EST, N_ERR, N_CLOSED, N_EVA, N_EVB, N_CLOSEDA, N_NOTICE, N_OK, N_NOISE, NO };
static int applicable(int o)
{
    if (o >= N_EST) { int est = M.st == CONN, closing = 0; for (int i = 0; i < M.npend; i++) { if (M.pend[i].k == P_EST) est = 1; if (M.pend[i].k == P_CLOSED || M.pend[i].k == P_ERR) closing = 1; } if (!M.live || closing) return 0; if (o == N_EST || o == N_ERR) return !est; if (o == N_CLOSED) return 1; if (o == N_NOISE) return 1; return est; }
    if (unconnected()) return o <= O_REBORN || o == O_ALL || o == O_CB4 || o == O_CB0;
    if (M.st == CONNING) return o == O_CONN || o == O_DISC || o == O_REBORN || o == O_ALL || o == O_CB4;
    return o == O_CONN || o >= O_DISC;
}
static void op(int o)
{
    switch (o) {
    case O_CONN: case O_CTXFAIL: case O_REFUSED: case O_REFUSEDCB: case O_THREADFAIL: case O_MUTEX1: case O_MUTEX2: do_connect(o - O_CONN); break;
    case O_DISC: do_disconnect(); break;
    case O_REBORN: do_destroy(); fresh(); break;
    case O_SUBA: do_sub(0, 1); break; case O_SUBA2: do_sub(0, 3); break; case O_SUBB: do_sub(1, 2); break; case O_UNSUBA: do_unsub(0); break; case O_UNSUBB: do_unsub(1); break;
    case O_PUB: do_pub(0); break; case O_BAD: do_bad(); break; case O_CB4: do_cb(4); break; case O_CB5: do_cb(5); break; case O_CB0: do_cb(0); break;
    case O_ALL: do_sub(0, 1); do_sub(1, 2); do_unsub(0); do_unsub(1); do_pub(1); do_bad(); break;
    default: net(o - N_EST == 0 ? P_EST : o == N_ERR ? P_ERR : o == N_CLOSED ? P_CLOSED : o == N_EVA ? P_EVA : o == N_EVB ? P_EVB : o == N_CLOSEDA ? P_CLOSEDA : o == N_NOTICE ? P_NOTICE : o == N_OK ? P_OK : P_NOISE);
    }
}
static int opts[NO];
static int choose_op(void) { int n = 0; for (int o = 0; o < NO; o++) if (applicable(o)) opts[n++] = o; return opts[mc_choose(n)]; }
static const char *const ON[] = { "connect", "connect (no context)", "connect (refused)", "connect (refused, callback)", "connect (no thread)", "connect (no mutex)", "connect (no second mutex)", "disconnect", "destroy, create", "subscribe a", "subscribe a again", "subscribe b", "unsubscribe a", "unsubscribe b", "publish", "bad calls", "callback 4", "callback 5", "no callback", "all calls", "established", "connection error", "closed", "event a", "event b", "closed a", "notice", "ok", "noise" };
static void walk(int depth, int devs, int prefix)
{
    mc_set_dev_bound(devs); fresh(); mk.write_may_fail = 1;
    if (prefix >= 1) { do_connect(0); settle(); } if (prefix >= 2) { net(P_EST); settle(); }
    uint64_t h = MC_H0;
    for (int i = 0; i < depth; i++) {
        int o = choose_op(); MC_NOTE("-- %s", ON[o]); op(o); mk.write_may_fail = 1;
        int late = (o >= N_EST || o == O_CONN) && M.live ? mc_choose_dev(2) : 0;
        /* calls made before the network's events were delivered are judged by the state then */
        if (!late) settle();
        check_state(ON[o]); h = mc_hash_u64(h, mc_hash_u64(o, M.st * 100 + gpos + spos)); mc_eval(1);
    }
    do_destroy(); mc_outcome(h); mc_conform();
}
static void histories(void) { walk(mc_thorough() ? 6 : 5, mc_thorough() ? 2 : 1, 0); }
static void connected(void) { walk(mc_thorough() ? 5 : 4, mc_thorough(), 2); }
static void faulty(void) { walk(mc_thorough() ? 4 : 3, mc_thorough() ? 3 : 2, 2); }

/* ---- subscription ids: what is accepted goes out as one well-formed message that names exactly this id ---- */
static int arr_of(const char *t, const char *verb, const char *id, int n) { rj_reset(); rj *v = rj_parse(t, strlen(t), 0); return v && v->t == RJ_ARR && v->count == n && rj_is(rj_at(v, 0), verb) && rj_is(rj_at(v, 1), id) && (n < 3 || rj_at(v, 2)->t == RJ_OBJ); }
static void ids(void)
{
    int k = mc_choose(256 + 260); char id[300]; fresh(); do_connect(0); settle(); net(P_EST); settle();
    for (int at = 0; at < (k < 256 ? 4 : 1); at++) {
        int must = 1; if (k < 256) { if (!k) break; strcpy(id, at == 0 ? "" : at == 3 ? "0123456789012345678901234567890123456789012345678901234567890" : "ab"); size_t l = strlen(id), p = at == 1 ? 0 : at == 2 ? 1 : l; memmove(id + p + 1, id + p, l - p + 1); id[p] = (char)k; if (k < 0x20 || k > 0x7e || k == '"' || k == '\\') must = 0; }
        else { int n = k - 256; memset(id, 'i', (size_t)n); id[n] = 0; must = n >= 1 && n <= 64; }
        int s0 = mock_sent_n(); fault_track(1); nostr_error_t r = nostr_subscribe(R, id, "{}", on_ev1, &ud[1]); fault_track(0); mc_step(); mc_eval(1); int n = mock_sent_n() - s0;
        if (r == NOSTR_OK) { if (n != 1 || !arr_of(mock_sent(s0), "REQ", id, 3)) mc_fail("sent-text", "subscribe %s sends %d messages: %s", mc_q(id), n, n ? mc_q(mock_sent(s0)) : ""); if (!*id) mc_fail("accepted-bad", "an empty id is accepted"); } else { if (must) mc_fail("refused", "subscribe %s: %d", mc_q(id), r); if (n) mc_fail("sent-anyway", "a refused subscribe sends %s", mc_q(mock_sent(s0))); }
        s0 = mock_sent_n(); fault_track(1); nostr_error_t q = nostr_relay_unsubscribe(R, id); fault_track(0); mc_step(); n = mock_sent_n() - s0;
        if (q == NOSTR_OK) { if (n != 1 || !arr_of(mock_sent(s0), "CLOSE", id, 2)) mc_fail("sent-text", "unsubscribe %s sends %d messages: %s", mc_q(id), n, n ? mc_q(mock_sent(s0)) : ""); } else { if (r == NOSTR_OK) mc_fail("refused", "unsubscribe %s: %d", mc_q(id), q); if (n) mc_fail("sent-anyway", "a refused unsubscribe sends %s", mc_q(mock_sent(s0))); }
        spos = mock_sent_n(); MC_NOTE("id %s: %d %d", mc_q(id), r, q);
    }
    do_destroy(); mc_outcome(k); mc_conform();
}
/* ---- URLs ---- */
static const struct { const char *url; const char *addr, *host, *path; int port, tls; } URL[] = {
    { "wss://relay.example", "relay.example", "relay.example", "/", 443, 1 }, { "ws://relay.example", "relay.example", "relay.example", "/", 80, 0 }, { "wss://relay.example/", "relay.example", "relay.example", "/", 443, 1 },
    { "wss://r.e/a/b?c=d", "r.e", "r.e", "/a/b?c=d", 443, 1 }, { "ws://127.0.0.1:8080", "127.0.0.1", "127.0.0.1:8080", "/", 8080, 0 }, { "wss://h:1/p", "h", "h:1", "/p", 1, 1 }, { "wss://h:65535/p:q", "h", "h:65535", "/p:q", 65535, 1 },
    { "ws://h/x:99", "h", "h", "/x:99", 80, 0 }, { "ws://[::1]:7777/z", "::1", "[::1]:7777", "/z", 7777, 0 }, { "wss://[2001:db8::1]", "2001:db8::1", "[2001:db8::1]", "/", 443, 1 }, { "ws://h:80", "h", "h:80", "/", 80, 0 }, { "wss://localhost:443/", "localhost", "localhost:443", "/", 443, 1 },
    { "http://relay.example", 0 }, { "", 0 }, { "ws:", 0 }, { "ws:/", 0 }, { "relay.example", 0 }, { "wss:/relay", 0 }, { "ws://h:0", 0 }, { "ws://h:65536", 0 }, { "ws://h:99999999999999999999", 0 }, { "ws://h:8x/", 0 }, { "ws://h:-1", 0 }, { "ws://h: 80", 0 }, { "ws://h:+80", 0 } };
static void urls(void)
{
    int k = mc_choose(MC_LEN(URL)); fault_reset(); mock_reset(); ngot = gpos = spos = closed_for_callbacks = 0; memset(&M, 0, sizeof M);
    char u[100]; strcpy(u, URL[k].url); fault_track(1); nostr_error_t r = nostr_relay_create(&R, u); memset(u, 'z', 99); if (r) { fault_track(0); if (URL[k].addr) mc_fail("create", "%s: %d", URL[k].url, r); mc_conform(); mc_outcome(k); return; }
    r = nostr_relay_connect(R, on_state, &ud[0]); mc_step(); MC_NOTE("%s: %d, %s %s %s %d", URL[k].url, r, mock_last.address, mock_last.host, mock_last.path, mock_last.port);
    if (!URL[k].addr) { if (!r) mc_fail("url-accepted", "%s is accepted", URL[k].url); if (mock_last.n) mc_fail("url-attempt", "%s: an attempt is made", URL[k].url); }
    else {
        if (r) mc_fail("url-refused", "%s is refused with %d", URL[k].url, r); const char *p = mock_last.path; if (*p == '/') p++;
        if (strcmp(mock_last.address, URL[k].addr) || mock_last.port != URL[k].port || !!(mock_last.ssl & 1 /* LCCSCF_USE_SSL */) != URL[k].tls || strcmp(p, URL[k].path + 1)) mc_fail("url-parts", "%s: connects to %s port %d path %s%s", URL[k].url, mock_last.address, mock_last.port, mock_last.path, mock_last.ssl ? " with TLS" : "");
        if (strcmp(mock_last.host, URL[k].host) && !(strcmp(mock_last.host, URL[k].addr) == 0 && (URL[k].port == 80 || URL[k].port == 443))) mc_fail("url-host", "%s: Host is %s", URL[k].url, mock_last.host);
        if (URL[k].tls && mock_last.ssl & ~1 /* LCCSCF_USE_SSL */) mc_fail("tls-weakened", "%s: certificate checks are relaxed (%x)", URL[k].url, mock_last.ssl);
        mock_established(); mock_pump(); if (R->state != NOSTR_RELAY_CONNECTED) mc_fail("state", "not connected");
    }
    nostr_relay_destroy(R); fault_track(0); mock_end(); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); mc_outcome(k); mc_eval(1);
}
/* ---- calls from inside callbacks ---- */
static const char *const IN[] = { "subscribe", "subscribe same", "unsubscribe own", "unsubscribe other", "publish", "set callback", "clear callback", "disconnect", "connect", "destroy", "disconnect and connect" };
static int fired;
static void inside(int where)
{
    if (mode != where || fired) return; fired = 1; nostr_error_t r = 0; MC_NOTE("  in callback %d: %s", where, IN[inner]); int conn = where == CONN || where >= 10;
    int f0 = mock_sent_n();
    switch (inner) {
    case 0: r = nostr_subscribe(R, "new", "{}", on_ev3, &ud[3]); break; case 1: r = nostr_subscribe(R, SID[0], FJ[0], on_ev3, &ud[3]); break; case 2: r = nostr_relay_unsubscribe(R, SID[0]); break; case 3: r = nostr_relay_unsubscribe(R, SID[1]); break;
    case 4: r = nostr_publish_event(R, PUB); break; case 5: r = nostr_relay_set_message_callback(R, on_m5, &ud[5]); break; case 6: r = nostr_relay_set_message_callback(R, NULL, NULL); break;
    case 7: r = nostr_relay_disconnect(R); break; case 8: r = nostr_relay_connect(R, on_state, &ud[0]); break; case 9: nostr_relay_destroy(R); break; case 10: nostr_relay_disconnect(R); r = nostr_relay_connect(R, on_state, &ud[0]); break;
    }
    if (inner <= 4) { if (conn && r) mock_fail("refused-in-callback", "%s in a callback: %d", IN[inner], r); if (!conn && !r) mock_fail("accepted", "%s is accepted while not connected", IN[inner]); if (mock_sent_n() != f0 + conn) mock_fail("not-sent", "%s in a callback: %d messages sent", IN[inner], mock_sent_n() - f0); }
    if (inner >= 7 && inner != 9 && !r) mock_fail("ended-in-callback", "%s from a callback is accepted", IN[inner]);
}
static void rx(const char *t) { mock_rx(t, strlen(t), 1, 1); mock_pump(); }
static int count(int what, int who) { int n = 0; for (int i = 0; i < ngot; i++) n += got[i].what == what && got[i].who == who; return n; }
static void reenter_now(int where) { inside(where); }
static void callbacks(void)
{
    static const int WH[] = { CONNING, CONN, DISC, 10, 11 }; mode = MC_PICK(WH); inner = mc_choose(MC_LEN(IN)); int end = mc_choose(3); fired = 0;
    fresh(); fault_track(1); nostr_relay_set_message_callback(R, on_m4, &ud[4]); nostr_relay_connect(R, on_state, &ud[0]); mock_pump(); mock_established(); mock_pump();
    if (R->state != NOSTR_RELAY_CONNECTED) mc_fail("state", "not connected");
    if (nostr_subscribe(R, SID[0], FJ[0], on_ev1, &ud[1]) || nostr_subscribe(R, SID[1], FJ[1], on_ev2, &ud[2])) mc_fail("refused", "subscribe");
    rx(rx_text(P_EVA)); rx(rx_text(P_EVA)); rx(rx_text(P_EVB)); rx(rx_text(P_NOTICE)); rx(rx_text(P_NOTICE));
    int a1 = count(G_EVENT, 1), a3 = count(G_EVENT, 3), b2 = count(G_EVENT, 2), m4 = count(G_MSG, 4), m5 = count(G_MSG, 5);
    int w1 = 2, w3 = 0, w2 = 1, w4 = 2, w5 = 0;
    if (mode == 10) { if (inner == 1) w1 = 1, w3 = 1; if (inner == 2) w1 = 1; if (inner == 3) w2 = 0; if (inner == 5) w4 = 0, w5 = 2; if (inner == 6) w4 = 0; }
    if (mode == 11) { if (inner == 5) w4 = 1, w5 = 1; if (inner == 6) w4 = 1; }
    if (mode == CONNING || mode == CONN) { if (inner == 5) w4 = 0, w5 = 2; if (inner == 6) w4 = 0; }
    if (a1 != w1 || a3 != w3 || b2 != w2 || m4 != w4 || m5 != w5) mc_fail("delivered", "%s in callback %d: delivered %d/%d/%d/%d/%d, expected %d/%d/%d/%d/%d", IN[inner], mode, a1, a3, b2, m4, m5, w1, w3, w2, w4, w5);
    if (end == 0) { mock_closed(); mock_pump(); if (R->state != NOSTR_RELAY_DISCONNECTED) mc_fail("state", "not disconnected"); }
    if (end == 1) nostr_relay_disconnect(R);
    if (end == 0) { nostr_error_t r = nostr_relay_connect(R, on_state, &ud[0]); if (r) mc_fail("reconnect", "%d", r); mock_pump(); mock_established(); mock_pump(); if (R->state != NOSTR_RELAY_CONNECTED) mc_fail("state", "not connected again"); }
    nostr_relay_destroy(R); closed_for_callbacks = 1; fault_track(0); mock_end(); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_step(); mc_eval(1); mc_conform(); mc_outcome(mc_hash_u64(mode, inner * 3 + end)); mode = -1;
}
/* ---- memory running out at any point of a life ---- */
static void memory(void)
{
    mc_set_dev_bound(mc_thorough() ? 2 : 1); fault_reset(); mock_reset(); ngot = gpos = spos = closed_for_callbacks = 0; R = (void *)0x1; nostr_error_t r; int s0; uint64_t hv = ev_hash_of(ev_text(1, "hello"));
    fault_track(1); fault_arm(); r = nostr_relay_create(&R, "ws://h:9/p"); fault_disarm(); if (r) { if (!fault_injected()) mc_fail("create", "%d", r); if (R) mc_fail("dangling", "a failed create leaves a pointer"); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); mc_outcome(1); return; }
    nostr_relay_set_message_callback(R, on_m4, &ud[4]);
    int tries = 0; do { int i0 = fault_injected(); fault_arm(); r = nostr_relay_connect(R, on_state, &ud[0]); fault_disarm(); if (r && fault_injected() == i0) mc_fail("connect", "%d", r); if (r && (R->state == NOSTR_RELAY_CONNECTED || R->state == NOSTR_RELAY_CONNECTING)) mc_fail("state", "a failed connect leaves %s", SN[R->state & 3]); } while (r && tries++ < 4);
    mock_pump(); mock_established(); fault_arm(); mock_pump(); fault_disarm(); if (R->state != NOSTR_RELAY_CONNECTED) mc_fail("state", "not connected");
#define CALL(x, js) do { int i0 = fault_injected(); s0 = mock_sent_n(); fault_arm(); r = (x); fault_disarm(); if (r) { if (fault_injected() == i0) mc_fail("refused", "%d", r); if (mock_sent_n() != s0) mc_fail("sent-anyway", "a failed call has sent %s", mc_q(mock_sent(s0))); i0 = fault_injected(); r = (x); if (r) mc_fail("refused", "the second time: %d", r); } if (mock_sent_n() != s0 + 1 || !js_same(mock_sent(s0), js)) mc_fail("sent-text", "sent %s, expected %s", mock_sent_n() > s0 ? mc_q(mock_sent(s0)) : "nothing", mc_q(js)); mc_step(); } while (0)
    char w[1200];
    CALL(nostr_subscribe(R, SID[0], FJ[0], on_ev1, &ud[1]), "[\"REQ\",\"a\",{\"kinds\":[1],\"#t\":[\"x\"]}]");
    snprintf(w, 1200, "[\"EVENT\",%s]", PUBJ); CALL(nostr_publish_event(R, PUB), w);
    /* an event in two pieces: it may be lost, the next may not */
    const char *t = rx_text(P_EVA); size_t n = strlen(t); char *copy = malloc(n + 1); strcpy(copy, t); int i0 = fault_injected(), e0 = count(G_EVENT, 1);
    mock_rx(copy, n / 2, 1, 0); mock_rx(copy + n / 2, n - n / 2, 0, 1); fault_arm(); mock_pump(); fault_disarm(); int d = count(G_EVENT, 1) - e0; if (d > 1 || (d == 0 && fault_injected() == i0)) mc_fail("delivered", "an event is delivered %d times", d);
    for (int i = 0; i < ngot; i++) if (got[i].what == G_EVENT && got[i].v != hv) mc_fail("altered", "an event is delivered in part");
    i0 = fault_injected(); int m0 = count(G_MSG, 4); mock_rx("[\"NOTICE\",\"x\"]", 14, 1, 1); fault_arm(); mock_pump(); fault_disarm(); d = count(G_MSG, 4) - m0; if (d > 1 || (d == 0 && fault_injected() == i0)) mc_fail("delivered", "a notice is delivered %d times", d);
    e0 = count(G_EVENT, 1); mock_rx(copy, n, 1, 1); mock_pump(); if (count(G_EVENT, 1) != e0 + 1) mc_fail("delivered", "after a failed allocation an event is delivered %d times", count(G_EVENT, 1) - e0); free(copy);
    CALL(nostr_subscribe(R, SID[0], FJ[0], on_ev3, &ud[3]), "[\"REQ\",\"a\",{\"kinds\":[1],\"#t\":[\"x\"]}]");
    CALL(nostr_relay_unsubscribe(R, SID[0]), "[\"CLOSE\",\"a\"]");
    e0 = ngot; rx(rx_text(P_EVA)); if (ngot != e0) mc_fail("after-unsubscribe", "an event is delivered after unsubscribe");
    nostr_relay_destroy(R); fault_track(0); mock_end(); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); mc_outcome(mc_hash_u64(fault_injected(), ngot * 100 + mock_sent_n()));
}
const mc_scenario mc_scenarios[] = {
    { "histories", histories, setup, 3, 60, "all histories of 5 (6) of 29 calls and network events from a new relay, with up to 1 (2) failed writes or late deliveries" },
    { "connected", connected, setup, 3, 60, "all histories of 4 (5) from an established connection" },
    { "faulty", faulty, setup, 3, 60, "all histories of 3 (4) from an established connection with up to 2 (3) failed writes or late deliveries" },
    { "ids", ids, setup, 3, 20, "ids with every byte value alone, first, inside and at position 61, and ids of 0..259 characters" },
    { "urls", urls, setup, 3, 20, "where the attempt goes" }, { "callbacks", callbacks, setup, 3, 20, "every call from inside every callback" }, { "memory", memory, setup, 3, 20, "1 (2) allocation failures in a life" }, MC_END };
