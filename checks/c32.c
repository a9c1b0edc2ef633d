/* C32: the relay client is race-free between application and service threads. */
#include "relayh.h"
#include "../lib/fault.h"
#include "../lib/mcsched.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

static nostr_relay *R; static int ud[8]; static nostr_event *PUB; static char *PUBJ, *EVA, *EVB; static uint64_t HA, HB;
static const char *const SID[2] = { "a", "b" };
static int nA, nB, nC, nM4, nM5, nState[4], closed_a, ended, in_cb, inner, fired, subs_new, sent_extra; static nostr_relay_state lastst;
static void alive(const char *w) { if (ended) mc_fail("late-callback", "the %s callback is called after the connection was ended by a call that had returned", w); if (sched_self() == 0) mc_fail("callback-thread", "the %s callback is called on the application's thread", w); }
static void reenter(void);
static void on_state(nostr_relay *r, nostr_relay_state s, void *u) { alive("state"); if (r != R || u != &ud[0]) mc_fail("user-data", "the state callback gets other data"); nState[s & 3]++; lastst = s; MC_NOTE("state callback %d", s); if (in_cb == 0) reenter(); sched_point("state callback"); }
static void evcb(int k, const nostr_event *e, void *u, uint64_t want, int *n)
{
    alive("event"); if (u != &ud[k]) mc_fail("user-data", "event callback %d gets other user data", k); if (k == 1 && closed_a) mc_fail("after-unsubscribe", "the callback of a subscription is called after unsubscribe has returned");
    if (refev_hash(e) != want) mc_fail("event", "another event is delivered"); (*n)++; MC_NOTE("event callback %d", k);
    sched_point("event callback"); if (k == 1 && closed_a) mc_fail("during-unsubscribe", "unsubscribe returns while the callback still runs");
    if (in_cb == 1) reenter(); sched_point("event callback's end"); if (refev_hash(e) != want) mc_fail("event", "the event changes under the callback");
}
static void on_a(const nostr_event *e, void *u) { evcb(1, e, u, HA, &nA); }
static void on_b(const nostr_event *e, void *u) { evcb(2, e, u, HB, &nB); }
static void on_c(const nostr_event *e, void *u) { evcb(3, e, u, HA, &nC); }
static void msg(int k, const char *t, const char *d, void *u) { alive("message"); if (u != &ud[k]) mc_fail("user-data", "message callback %d gets other user data", k); if (strcmp(t, "NOTICE") && strcmp(t, "CLOSED")) mc_fail("message", "a message of type %s", t); if (!strstr(d, t)) mc_fail("message", "message text %s", mc_q(d)); if (k == 4) nM4++; else nM5++; MC_NOTE("message callback %d", k); if (in_cb == 2) reenter(); sched_point("message callback"); }
static void on_m4(const char *t, const char *d, void *u) { msg(4, t, d, u); }
static void on_m5(const char *t, const char *d, void *u) { msg(5, t, d, u); }
/* ---- calls ---- */
enum { SUB_B, SUB_C, SUB_A, UNSUB_A, UNSUB_B, PUBL, SETM, CLRM, DISC, DESTROY, CONN, NOPS };
static const char *const ON[] = { "subscribe b", "subscribe c", "subscribe a again", "unsubscribe a", "unsubscribe b", "publish", "set message callback", "clear message callback", "disconnect", "destroy", "connect" };
static int dead;
static nostr_error_t call(int o)
{
    nostr_error_t r = 0; MC_NOTE("call: %s", ON[o]);
    switch (o) {
    case SUB_B: r = nostr_subscribe(R, "b", "{}", on_b, &ud[2]); break; case SUB_C: r = nostr_subscribe(R, "c", "{}", on_b, &ud[2]); break;
    case SUB_A: { int was = closed_a; closed_a = 0; r = nostr_subscribe(R, "a", "{}", on_c, &ud[3]); if (r) closed_a = was; else closed_a = 1; break; }   /* now callback c; callback a may not be called again */
    case UNSUB_A: r = nostr_relay_unsubscribe(R, "a"); if (!r) closed_a = 1; break; case UNSUB_B: r = nostr_relay_unsubscribe(R, "b"); break;
    case PUBL: r = nostr_publish_event(R, PUB); break; case SETM: r = nostr_relay_set_message_callback(R, on_m5, &ud[5]); break; case CLRM: r = nostr_relay_set_message_callback(R, NULL, NULL); break;
    case DISC: r = nostr_relay_disconnect(R); if (!r) ended = 1; break; case DESTROY: nostr_relay_destroy(R); ended = dead = 1; break;
    case CONN: ended = 0; r = nostr_relay_connect(R, on_state, &ud[0]); break;
    }
    MC_NOTE("returns %d: %s", r, ON[o]); mc_step(); return r;
}
static void reenter(void)
{
    static const int IN[] = { -1, SUB_B, UNSUB_A, UNSUB_B, PUBL, SETM, DISC }; if (fired || inner <= 0) return; fired = 1; int o = IN[inner]; MC_NOTE("in a callback:");
    if (o == UNSUB_A) { if (!nostr_relay_unsubscribe(R, "a")) fired = 2; } else if (o == DISC) { if (!nostr_relay_disconnect(R)) mc_fail("ended-in-callback", "a callback ends its connection"); } else call(o);
}
static void fresh(void)
{
    fault_reset(); mock_reset(); nA = nB = nC = nM4 = nM5 = closed_a = ended = fired = dead = 0; memset(nState, 0, sizeof nState); in_cb = -1; inner = 0;
    fault_track(1); if (nostr_relay_create(&R, "ws://h/")) mc_fail("harness", "create"); sched_begin();
}
static void connected(int quiet)
{
    fresh(); nostr_relay_set_message_callback(R, on_m4, &ud[4]); if (nostr_relay_connect(R, on_state, &ud[0])) mc_fail("harness", "connect"); mock_established(); mock_pump(); (void)quiet;
    if (nostr_subscribe(R, "a", "{}", on_a, &ud[1])) mc_fail("harness", "subscribe");
}
static void finish(void)
{
    if (!dead) { nostr_relay_destroy(R); ended = 1; }
    sched_end(); fault_track(0); mock_end(); if (fault_live()) mc_fail("leak", "%ld allocations are left: %s", fault_live(), fault_live_desc());
    mc_conform(); mc_outcome(mc_hash_u64(nA * 100 + nB * 10 + nC, mock_sent_n() * 100 + nM4 * 10 + nM5 + nState[0] * 1000)); mc_state(mc_hash_u64(nA * 100 + nB * 10 + nC, nM4 * 10 + nM5)); mc_eval(1);
}
enum { E_A, E_B, E_NOTICE, E_CLOSEDA, E_CLOSE, E_NOISE, NE };
static const char *const EN[] = { "event for a", "event for b", "notice", "CLOSED a", "connection closed", "noise" };
static void net(int k) { const char *t = NULL; switch (k) { case E_A: t = EVA; break; case E_B: t = EVB; break; case E_NOTICE: t = "[\"NOTICE\",\"x\"]"; break; case E_CLOSEDA: t = "[\"CLOSED\",\"a\",\"\"]"; break; case E_CLOSE: mock_closed(); return; case E_NOISE: mock_noise(); return; } mock_rx(t, strlen(t), 1, 1); }
static int devs(void) { return mc_thorough() ? 3 : 2; }
static int more;
/* one call (or two) against one network event (or two) */
static void judge(const int *o, int no, const int *e, int ne)
{
    int ends = 0, touch_a = 0, touch_m = 0, ea = 0, em = 0; for (int i = 0; i < no; i++) { ends |= o[i] >= DISC; touch_a |= o[i] == SUB_A || o[i] == UNSUB_A; touch_m |= o[i] == SETM || o[i] == CLRM; } for (int i = 0; i < ne; i++) { ends |= e[i] == E_CLOSE; ea += e[i] == E_A; touch_a |= e[i] == E_CLOSEDA; em += e[i] == E_NOTICE || e[i] == E_CLOSEDA; }
    if (nA + nC > ea || nM4 + nM5 > em) mc_fail("delivered-twice", "more is delivered than was sent");
    if (!ends && !touch_a && fired != 2 && nA != ea) mc_fail("lost", "%d of %d events are delivered", nA, ea);
    if (!ends && !touch_m && nM4 + nM5 != em) mc_fail("lost", "%d of %d messages are delivered", nM4 + nM5, em);
}
static void run(int o0, int o1, int e0, int e1, int cb, int in)
{
    mc_set_dev_bound(0); connected(0); in_cb = cb; inner = in; int o[2] = { o0, o1 }, e[2] = { e0, e1 }, no = 0, ne = 0, exp = 1, can = 1; mc_set_dev_bound(devs() + more);
    for (; ne < 2 && e[ne] >= 0; ne++) net(e[ne]);
    int closes = e0 == E_CLOSE || e1 == E_CLOSE;
    for (; no < 2 && o[no] >= 0 && !dead; no++) {
        if (o[no] == CONN && !ended) { call(CONN); continue; }
        nostr_error_t r = call(o[no]); if (o[no] <= PUBL) { if (!r) exp++; else if (!closes && can) mc_fail("refused", "%s is refused with %d", ON[o[no]], r); } if (o[no] == DISC || o[no] == CONN) can = 0;
    }
    if (!ended) { mock_pump(); judge(o, no, e, ne); }
    if (!in && mock_sent_n() != exp) mc_fail("sent", "%d messages are sent for %d calls", mock_sent_n(), exp);
    for (int i = 0; i < mock_sent_n(); i++) { rj_reset(); rj *j = rj_parse(mock_sent(i), strlen(mock_sent(i)), 0); if (!j || j->t != RJ_ARR) mc_fail("sent-text", "sent %s", mc_q(mock_sent(i))); }
    finish();
}
static void one_one(void) { more = 1; int o = mc_choose(NOPS), e = mc_choose(NE); run(o, -1, e, -1, -1, 0); }
static void two_one(void) { more = 0; int a = mc_choose(NOPS - 1), b = mc_choose(NOPS), e = mc_choose(NE); if (a == DESTROY) mc_discard(); run(a, b, e, -1, -1, 0); }
static void one_two(void) { more = 0; int o = mc_choose(NOPS), e = mc_choose(NE), f = mc_choose(NE); run(o, -1, e, f, -1, 0); }
static void two_two(void) { if (!mc_thorough()) { mc_set_dev_bound(0); mc_stop(); } more = -1; int a = mc_choose(NOPS - 1), b = mc_choose(NOPS), e = mc_choose(NE), f = mc_choose(NE); if (a == DESTROY) mc_discard(); run(a, b, e, f, -1, 0); }
/* calls made inside a callback against calls of the application */
static void nested(void) { more = 1; int cb = mc_choose(3), in = 1 + mc_choose(6), o = mc_choose(NOPS); static const int EV[] = { E_CLOSE, E_A, E_NOTICE }; run(o, -1, EV[cb], -1, cb, in); }
/* from the very start: the attempt, its outcome, and calls that come early */
static void early(void)
{
    static const int OUT[] = { 0, 1, 2, 3, 4 }; int out = MC_PICK(OUT), a = mc_choose(NOPS), b = mc_choose(NOPS); mc_set_dev_bound(devs()); sched_create_may_fail = out == 4; fresh();
    nostr_error_t r = call(CONN); sched_create_may_fail = 0; if (r) { ended = 1; finish(); return; }
    switch (out) { case 0: case 4: break; case 1: mock_established(); break; case 2: mock_error(); break; case 3: mock_established(); mock_rx(EVA, strlen(EVA), 1, 1); mock_closed(); break; }
    int o[2] = { a, b }, exp = 0; for (int i = 0; i < 2 && !dead; i++) { r = call(o[i]); if (!r && o[i] <= PUBL) exp++; if (!r && o[i] <= PUBL && out != 1 && out != 3) mc_fail("accepted", "%s is accepted without a connection", ON[o[i]]); }
    if (mock_sent_n() != exp) mc_fail("sent", "%d messages are sent for %d accepted calls", mock_sent_n(), exp);
    finish();
}
/* two relays, each with its own service thread */
static void ssetup(void) { sched_setup(); fault_install(); nostr_init(); const char *t = ev_text(9, "published"); nostr_event_from_json(t, &PUB); PUBJ = strdup(t); const char *e = ev_text(1, "ev a"); HA = ev_hash_of(e); asprintf(&EVA, "[\"EVENT\",\"a\",%s]", e); e = ev_text(2, "ev b"); HB = ev_hash_of(e); asprintf(&EVB, "[\"EVENT\",\"b\",%s]", e); }
const mc_scenario mc_scenarios[] = {
    { "one-one", one_one, ssetup, 3, 60, "every call against every network event" }, { "two-one", two_one, ssetup, 3, 60, "every two calls against every network event" }, { "one-two", one_two, ssetup, 3, 60, "every call against every two network events" },
    { "two-two", two_two, ssetup, 3, 60, "thorough: every two calls against every two network events" },
    { "nested", nested, ssetup, 3, 60, "calls inside callbacks against every call" }, { "early", early, ssetup, 3, 60, "the attempt and every two calls that follow" }, MC_END };
