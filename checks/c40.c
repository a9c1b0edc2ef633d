/* C40: remote signing messages (NIP-46): requests written and responses opened by a reference with its own
 * cryptography and JSON reader. */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rj.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include "../lib/party.h"
#include "../lib/noscrypt/noscrypt.h"
#include <time.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static int64_t NOW = 1700000000; time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
static int nc_armed;
static int nc_fault(const char *fn) { if (!nc_armed || !mc_in_execution()) return 0; if (mc_choose_dev(2)) { MC_NOTE("%s fails", fn); return 1; } return 0; }
static void begin(void) { rng_reset(); fault_reset(); rj_reset(); nc_armed = 0; NOW = 1700000000; }
static nostr_event *UNSET = (nostr_event *)0x5a5a;
static void setup(void)
{
    static int once; if (once) return; once = 1; fault_install(); party_setup(); rng_reset(); nostr_init(); ncshim_fault = nc_fault; nostr_nip46_response_t r = { "1", NULL, NULL }; nostr_event *e = NULL; if (nostr_nip46_create_response(&r, &SK[0], &PK[1], &e) == NOSTR_OK) nostr_event_destroy(e);
}
static int rj_same(const rj *a, const rj *b)
{
    if (!a || !b) return a == b; if (a->t != b->t) return 0; if (a->t == RJ_NUM) return a->is_int && b->is_int ? a->i == b->i || a->i > 1000000000000000ll || a->i < -1000000000000000ll : a->num == b->num || (a->num && a->num / b->num < 1 + 1e-14 && b->num / a->num < 1 + 1e-14); if (a->t == RJ_STR) return a->n == b->n && !memcmp(a->s, b->s, a->n);
    if (a->t != RJ_ARR && a->t != RJ_OBJ) return 1; const rj *x = a->child, *y = b->child; for (; x && y; x = x->next, y = y->next) { if (a->t == RJ_OBJ && (x->kn != y->kn || memcmp(x->key, y->key, x->kn))) return 0; if (!rj_same(x, y)) return 0; } return !x && !y;
}
static int str_is(const rj *v, const char *w) { return v && v->t == RJ_STR && v->n == strlen(w) && !memcmp(v->s, w, v->n); }
/* ---- responses ---- */
static void check_response(const nostr_event *e, int from, int to, const nostr_nip46_response_t *w)
{
    if (e->kind != 24133 || memcmp(e->pubkey.data, PK[from].data, 32) || !party_signed(e) || e->created_at != NOW) mc_fail("response", "kind %d of %lld by %s, %ssigned", e->kind, (long long)e->created_at, mc_hex(e->pubkey.data, 32), party_signed(e) ? "" : "not "); if (e->tags_count != 1 || e->tags[0].count < 2 || strcmp(e->tags[0].values[0], "p") || strcmp(e->tags[0].values[1], PKH[to])) mc_fail("response-tags", "the response does not name its receiver alone");
    for (int i = 0; i < NK; i++) { size_t n; uint8_t *t = party_open44(SK[i].data, i == from ? PK[to].data : PK[from].data, e->content, &n); if (i != to && i != from) { if (t) mc_fail("opened-by-other", "party %d reads the response of %d to %d", i, from, to); continue; } if (!t) mc_fail("not-opened", "party %d cannot read the response", i);
        rj *o = rj_parse((char *)t, n, 0); if (!o || o->t != RJ_OBJ) mc_fail("not-json", "%s", mc_qn((char *)t, n)); rj *er = rj_get(o, "error"), *re = rj_get(o, "result"); if (!str_is(rj_get(o, "id"), w->id) || (w->error ? !str_is(er, w->error) : !!(er && er->t != RJ_NULL)) || (!w->error && (w->result ? !str_is(re, w->result) : !!(re && re->t != RJ_NULL)))) mc_fail("other-response", "id %s, result %s, error %s became %s", mc_q(w->id), w->result ? mc_q(w->result) : "none", w->error ? mc_q(w->error) : "none", mc_qn((char *)t, n)); for (rj *x = o->child; x; x = x->next) if (strcmp(x->key, "id") && strcmp(x->key, "result") && strcmp(x->key, "error")) mc_fail("other-response", "a member %s", mc_q(x->key)); if (rj_nkey(o, "id") != 1 || rj_nkey(o, "result") > 1 || rj_nkey(o, "error") > 1) mc_fail("other-response", "twice"); free(t); }
    mc_outcome(refev_hash(e)); mc_conform();
}
static const char *const ID[] = { "1", "req-42", "", "q\"\\\n\t\x01\x7f", "\xc3\xa9\xf0\x9f\x98\x80", "0123456789012345678901234567890123456789012345678901234567890123" };
static const char *const RES[] = { NULL, "ack", "", "pong", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "0000000000000000000000000000000000000000000000000000000000000003", "1e9", "5", "-", "12345678901234567890", "null", "null and void", "true", "falsehood", "\"quoted\"", "\"open", "{\"id\":\"00\",\"kind\":1,\"content\":\"x\\n\"}", "[]", "[1,2", "{} ", " x", "{\"a\":9007199254740993}", "nl\ncr\r\x1f", "\xc3\xa9", "[\"a\",\"b\"]tail", "auth_url" };
static void responses(void)
{
    begin(); int from = mc_choose(NK), to = mc_choose(NK); const char *r = MC_PICK(RES), *er = mc_choose(3) ? NULL : MC_PICK(RES); nostr_nip46_response_t w; memset(&w, 0x55, sizeof w); strcpy(w.id, MC_PICK(ID)); w.result = (char *)r; w.error = (char *)er; nostr_event *e = UNSET; fault_track(1); nostr_error_t x = nostr_nip46_create_response(&w, &SK[from], &PK[to], &e); fault_track(0); mc_step(); if (x != NOSTR_OK) mc_fail("response-refused", "%d", x); check_response(e, from, to, &w); fault_track(1); nostr_event_destroy(e); fault_track(0); if (fault_live()) mc_fail("leak", "%s", fault_live_desc());
}
static void sizes(void) { begin(); int b = mc_choose(3), d = mc_choose(64), er = mc_choose(2); static const int B[] = { 4060, 40930, 65480 }; size_t n = (size_t)(B[b] + d); char *t = malloc(n + 1); memset(t, 'r', n); t[n] = 0; nostr_nip46_response_t w = { "x", er ? NULL : t, er ? t : NULL }; nostr_event *e = UNSET; nostr_error_t x = nostr_nip46_create_response(&w, &SK[0], &PK[1], &e); mc_step(); if (x == NOSTR_OK) { check_response(e, 0, 1, &w); nostr_event_destroy(e); } else { if (!b) mc_fail("response-refused", "%zu characters: %d", n, x); if (e != UNSET && e) mc_fail("output-on-error", "handed out"); } free(t); }
static void badkeys(void)
{
    begin(); static const char *const K[] = { "0000000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "0000000000000000000000000000000000000000000000000000000000000005" }; nostr_privkey s = SK[0]; nostr_key p = PK[1]; if (mc_choose(2)) { ref_unhex(K[mc_choose(3)], 64, s.data); } else ref_unhex(MC_PICK(K), 64, p.data);
    nostr_nip46_response_t w = { "1", "x", NULL }; nostr_event *e = UNSET; mc_step(); uint8_t sh[32]; if (secp256k1_ec_seckey_verify(PX, s.data) && party_shared(s.data, p.data, sh)) mc_discard(); if (nostr_nip46_create_response(&w, &s, &p, &e) == NOSTR_OK) mc_fail("bad-key", "a response is made with keys outside the group"); if (e != UNSET && e) mc_fail("output-on-error", "handed out"); mc_conform();
}
/* ---- requests ---- */
static nostr_event *asked(int kind, int from, int to, const char *text, size_t n) { nostr_event *e = refev_new(); e->kind = (uint16_t)kind; e->created_at = NOW; char *c = party_seal44(SK[from].data, PK[to].data, text, n); if (nostr_event_set_content(e, c) != NOSTR_OK) mc_fail("harness", "content"); free(c); const char *P[] = { "p", PKH[to] }; nostr_event_add_tag(e, P, 2); party_sign(e, SK[from].data); return e; }
static void read_request(const nostr_event *e, int reader, const char *t, size_t tn, int mine)
{
    nostr_nip46_request_t q; memset(&q, 0x5a, sizeof q); fault_track(1); nostr_error_t r = nostr_nip46_parse_request(e, &SK[reader], &q); fault_track(0); mc_eval(1); MC_NOTE("%s read by %d -> %d", mc_qn(t, tn), reader, r); rj *o = mine ? rj_parse(t, tn, 1) : NULL, *id = o && o->t == RJ_OBJ ? rj_get(o, "id") : NULL, *m = o && o->t == RJ_OBJ ? rj_get(o, "method") : NULL, *p = o && o->t == RJ_OBJ ? rj_get(o, "params") : NULL; int good = id && m && id->t == RJ_STR && m->t == RJ_STR && id->n < sizeof q.id && m->n < sizeof q.method, nul = (id && rj_has_nul(id)) || (m && rj_has_nul(m)) || (p && rj_has_nul(p)), empty = good && (!id->n || !m->n), dup = o && o->t == RJ_OBJ && (rj_nkey(o, "id") > 1 || rj_nkey(o, "method") > 1 || rj_nkey(o, "params") > 1);
    if (!good && r == NOSTR_OK) mc_fail("request-accepted", "%s is read as %s / %s", mc_qn(t, tn), mc_qn(q.id, strnlen(q.id, 65)), mc_qn(q.method, strnlen(q.method, 32))); if (good && !nul && !empty && !dup && p && p->t == RJ_ARR && r != NOSTR_OK) mc_fail("request-refused", "%d: %s", r, mc_qn(t, tn));
    if (r == NOSTR_OK && !nul) { if (!memchr(q.id, 0, sizeof q.id) || !memchr(q.method, 0, sizeof q.method) || strcmp(q.id, id->s) || strcmp(q.method, m->s)) mc_fail("other-request", "%s is read as %s / %s", mc_qn(t, tn), mc_qn(q.id, strnlen(q.id, 65)), mc_qn(q.method, strnlen(q.method, 32))); if (p ? (!q.params ? p->t != RJ_NULL : q.params_len != strlen(q.params) || !rj_same(p, rj_parse(q.params, q.params_len, 0))) : !!q.params) mc_fail("other-request", "the parameters of %s are read as %s", mc_qn(t, tn), q.params ? mc_q(q.params) : "none"); if (memcmp(q.sender_pubkey.data, e->pubkey.data, 32)) mc_fail("sender", "the sender is %s", mc_hex(q.sender_pubkey.data, 32)); }
    if (r != NOSTR_OK && q.params && q.params != (char *)0x5a5a5a5a5a5a5a5all) mc_fail("output-on-error", "parameters of a refused request"); fault_track(1); if (r == NOSTR_OK) { nostr_nip46_request_free(&q); if (q.params) mc_fail("not-freed", "params after free"); nostr_nip46_request_free(&q); } fault_track(0); if (fault_live()) mc_fail("leak", "%s: %s", mc_qn(t, tn), fault_live_desc());
}
static void requests(void)   /* ids, methods and parameters in every arrangement */
{
    begin(); static const char *const I[] = { "\"1\"", "\"q\\\"\\n\\u00e9\"", "\"\"", "5", "null", NULL, "[\"1\"]" }, *const M[] = { "\"connect\"", "\"sign_event\"", "\"nip44_encrypt\"", "\"\"", "7", NULL, "{}", "\"0123456789012345678901234567890\"", "\"01234567890123456789012345678901\"", "\"sign_event_and_a_very_long_tail_of_it\"" }, *const P[] = { "[]", "[\"a\",\"b\\\"\"]", "[\"{\\\"kind\\\":1,\\\"content\\\":\\\"\\\\n\\\"}\"]", "[1,1.5,null,true,{\"x\":[]}]", NULL, "{}", "\"x\"", "null" }; const char *i = MC_PICK(I), *m = MC_PICK(M), *p = MC_PICK(P); int ord = mc_choose(3), up = mc_choose(4); static const char *const NI[4] = { "id", "ID", "id", "id" }, *const NM[4] = { "method", "method", "Method", "method" }, *const NP[4] = { "params", "params", "params", "Params" }; char t[600] = "{"; for (int k = 0; k < 3; k++) { int w = (k + ord) % 3; const char *n = w == 0 ? NI[up] : w == 1 ? NM[up] : NP[up], *v = w == 0 ? i : w == 1 ? m : p; if (v) sprintf(t + strlen(t), "%s\"%s\":%s", t[1] ? "," : "", n, v); } strcat(t, "}");
    nostr_event *e = asked(24133, 1, 0, t, strlen(t)); read_request(e, 0, t, strlen(t), 1); mc_step(); nostr_event_destroy(e); mc_conform();
}
static void lengths(void)   /* every length of id and method */
{
    begin(); int which = mc_choose(2), n = mc_choose(140); char v[160], t[400]; memset(v, 'a', (size_t)n); v[n] = 0; if (which) sprintf(t, "{\"id\":\"1\",\"method\":\"%s\",\"params\":[]}", v); else sprintf(t, "{\"id\":\"%s\",\"method\":\"ping\",\"params\":[]}", v); nostr_event *e = asked(24133, 1, 0, t, strlen(t)); read_request(e, 0, t, strlen(t), 1); mc_step(); nostr_event_destroy(e); mc_conform();
}
static const char Q[] = "{\"id\":\"42\",\"method\":\"sign_event\",\"params\":[\"{\\\"kind\\\":1}\"]}";
static void malformed(void)   /* every truncation and every character replaced, rightly encrypted */
{
    begin(); size_t n = sizeof Q - 1, i = (size_t)mc_choose((int)n); char t[100]; strcpy(t, Q); if (i) { nostr_event *e = asked(24133, 1, 0, t, i); read_request(e, 0, t, i, 1); nostr_event_destroy(e); } static const char C[] = "\"\\{}[]:,x0 \x01\xff"; for (const char *c = C; ; c++) { rj_reset(); strcpy(t, Q); if (t[i] != *c) { t[i] = *c; if (*c) { nostr_event *e = asked(24133, 1, 0, t, n); read_request(e, 0, t, n, 1); nostr_event_destroy(e); } } if (!*c) break; } mc_step(); mc_conform();
}
static void strangers(void)   /* other kinds, readers, authors; altered contents */
{
    begin(); nostr_event *e = asked(24133, 1, 0, Q, sizeof Q - 1); size_t n = strlen(e->content), i = (size_t)mc_choose((int)n + 8); mc_step();
    if (i >= n) { int k = (int)(i - n); static const int KD[] = { 1, 4, 24132, 24134 }; if (k < 4) { e->kind = (uint16_t)KD[k]; read_request(e, 0, Q, sizeof Q - 1, 0); } else read_request(e, k - 4, Q, sizeof Q - 1, k - 4 == 0); for (int a = 0; k == 4 && a < NK; a++) if (a != 1) { e->pubkey = PK[a]; read_request(e, 0, Q, sizeof Q - 1, 0); } }
    else { char *s = strdup(e->content), c = s[i]; uint8_t r1[1000], r2[1000]; int can; long l1 = r44_dec64(s, n, r1, &can); for (int v = 0; v < 4; v++) { s[i] = v == 0 ? (c == 'A' ? 'B' : 'A') : v == 1 ? (char)(c ^ 1) : v == 2 ? '=' : 0; long l2 = r44_dec64(s, strlen(s), r2, &can); if (s[i] == c || (l1 == l2 && !memcmp(r1, r2, (size_t)l1))) continue; nostr_event_set_content(e, s); read_request(e, 0, Q, sizeof Q - 1, 0); } free(s); }
    nostr_event_destroy(e); mc_conform();
}
static void faults(void)
{
    begin(); mc_set_dev_bound(mc_thorough() ? 2 : 1); int op = mc_choose(3); nostr_event *in = asked(24133, 1, 0, Q, sizeof Q - 1), *e = UNSET; nostr_nip46_response_t w = { "7", op == 1 ? NULL : "ack", op == 1 ? "no\"" : NULL }; nostr_nip46_request_t q; memset(&q, 0, sizeof q); fault_track(1); fault_arm(); rng_arm(1); nc_armed = 1; nostr_error_t r = op == 2 ? nostr_nip46_parse_request(in, &SK[0], &q) : nostr_nip46_create_response(&w, &SK[0], &PK[1], &e); rng_arm(0); nc_armed = 0; fault_disarm(); int p = fault_pause(); mc_step();
    if (r == NOSTR_OK) { if (op < 2) { check_response(e, 0, 1, &w); if (rng_failed()) mc_fail("no-randomness", "a response without randomness"); } else if (strcmp(q.id, "42") || strcmp(q.method, "sign_event") || !q.params || strcmp(q.params, "[\"{\\\"kind\\\":1}\"]")) mc_fail("other-request", "%s %s %s", q.id, q.method, q.params ? q.params : "none"); } else { if (!mc_dev_used()) mc_fail("refused", "operation %d: %d", op, r); if ((e != UNSET && e) || q.params) mc_fail("output-on-error", "operation %d", op); }
    fault_resume(p); if (r == NOSTR_OK) { if (op < 2) nostr_event_destroy(e); else nostr_nip46_request_free(&q); } fault_track(0); if (fault_live()) mc_fail("leak", "operation %d returned %d: %s", op, r, fault_live_desc()); nostr_event_destroy(in); mc_conform();
}
static void missing(void)
{
    begin(); nostr_event *in = asked(24133, 1, 0, Q, sizeof Q - 1), *e = UNSET; nostr_nip46_request_t q; nostr_nip46_response_t w = { "7", "x", NULL }; nostr_error_t r = NOSTR_ERR_INVALID_PARAM; switch (mc_choose(11)) { case 0: r = nostr_nip46_parse_request(NULL, &SK[0], &q); break; case 1: r = nostr_nip46_parse_request(in, NULL, &q); break; case 2: r = nostr_nip46_parse_request(in, &SK[0], NULL); break; case 3: r = nostr_nip46_create_response(NULL, &SK[0], &PK[1], &e); break; case 4: r = nostr_nip46_create_response(&w, NULL, &PK[1], &e); break; case 5: r = nostr_nip46_create_response(&w, &SK[0], NULL, &e); break; case 6: r = nostr_nip46_create_response(&w, &SK[0], &PK[1], NULL); break; case 7: nostr_nip46_request_free(NULL); break; case 8: nostr_nip46_response_free(NULL); break; case 9: { nostr_event *b = refev_new(); b->kind = 24133; b->pubkey = PK[1]; r = nostr_nip46_parse_request(b, &SK[0], &q); nostr_event_destroy(b); break; }
    case 10: { fault_track(1); nostr_nip46_response_t f = { "1", strdup("a"), strdup("b") }; nostr_nip46_response_free(&f); if (f.result || f.error) mc_fail("not-freed", "after free"); nostr_nip46_response_free(&f); fault_track(0); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); break; } } mc_step(); if (r == NOSTR_OK) mc_fail("missing", "a missing argument is accepted"); if (e != UNSET && e) mc_fail("output-on-error", "handed out"); nostr_event_destroy(in); mc_conform();
}
const mc_scenario mc_scenarios[] = {
    { "responses", responses, setup, 3, 0, "keys x 6 ids x 26 results x errors; read by every party" },
    { "sizes", sizes, setup, 3, 60, "results and errors around 4096, 40960 and 65535 bytes" },
    { "badkeys", badkeys, setup, 3, 0, "keys outside the group" },
    { "requests", requests, setup, 3, 0, "7 ids x 10 methods x 8 parameters x order x spelling" },
    { "lengths", lengths, setup, 3, 0, "every length of id and method to 139" },
    { "malformed", malformed, setup, 3, 0, "every truncation, every character replaced by 14 others, rightly encrypted" },
    { "strangers", strangers, setup, 3, 0, "other kinds, readers and authors; every character of the content altered" },
    { "faults", faults, setup, 3, 0, "one (two) failures of memory, generator or backend" },
    { "missing", missing, setup, 3, 0, "missing arguments" },
    MC_END };
