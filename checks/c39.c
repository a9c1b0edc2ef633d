/* C39: wallet connect messages (NIP-47): connection, requests, responses, notifications, parameters and results,
 * each compared with what a reference with its own cryptography and JSON reader makes of it. */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rj.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include "../lib/party.h"
#include "../lib/noscrypt/noscrypt.h"
#include <time.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static int64_t NOW = 1700000000; time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
static int nc_armed;
static int nc_fault(const char *fn) { if (!nc_armed || !mc_in_execution()) return 0; if (mc_choose_dev(2)) { MC_NOTE("%s fails", fn); return 1; } return 0; }
#define UNS ((char *)0x5a5a)
#define UNL ((char **)0x5a5a)
static void begin(void) { rng_reset(); fault_reset(); rj_reset(); nc_armed = 0; NOW = 1700000000; }
static struct nwc_connection *conn(int client, int service)
{
    char u[400]; sprintf(u, "nostr+walletconnect://%s?relay=wss%%3A%%2F%%2Fr.example&secret=%s", PKH[service], SKH[client]); struct nwc_connection *c = NULL; if (nostr_nip47_parse_connection_uri(u, &c) != NOSTR_OK || !c) mc_fail("uri-refused", "%s", u); return c;
}
static void setup(void)
{
    static int once; if (once) return; once = 1; fault_install(); party_setup(); rng_reset(); nostr_init(); ncshim_fault = nc_fault;
    struct nwc_connection *c = conn(0, 1); nostr_event *e = NULL; if (nostr_nip47_create_request_event(&e, c, "x", "{}", 1) == NOSTR_OK) nostr_event_destroy(e); nostr_nip47_free_connection(c);
}
/* ---- JSON values ---- */
static int rj_same(const rj *a, const rj *b)   /* integers of more than 15 digits may be rounded on the way */
{
    if (!a || !b) return a == b; if (a->t != b->t) return 0; if (a->t == RJ_NUM) return a->is_int && b->is_int ? a->i == b->i || ((a->i > 1000000000000000ll || a->i < -1000000000000000ll) && a->num - b->num < 4e3 && b->num - a->num < 4e3) : a->i == 0 ? a->num == b->num : a->num / b->num < 1 + 1e-14 && b->num / a->num < 1 + 1e-14; if (a->t == RJ_STR) return a->n == b->n && !memcmp(a->s, b->s, a->n);
    if (a->t != RJ_ARR && a->t != RJ_OBJ) return 1; const rj *x = a->child, *y = b->child; for (; x && y; x = x->next, y = y->next) { if (a->t == RJ_OBJ && (x->kn != y->kn || memcmp(x->key, y->key, x->kn))) return 0; if (!rj_same(x, y)) return 0; } return !x && !y;
}
static int exact_u64(const rj *v, uint64_t want) { if (!v || v->t != RJ_NUM) return 0; char t[64]; if (v->rawn >= sizeof t) return 0; memcpy(t, v->raw, v->rawn); t[v->rawn] = 0; return strtold(t, NULL) == (long double)want; }
static int str_is(const rj *v, const char *w) { return v && v->t == RJ_STR && v->n == strlen(w) && !memcmp(v->s, w, v->n); }
static rj *obj(const char *t, const char *what) { rj *o = rj_parse(t, strlen(t), 0); if (!o || o->t != RJ_OBJ) mc_fail("not-json", "%s are not a JSON object: %s", what, mc_q(t)); return o; }
/* ---- connections ---- */
static int is_hex64(const char *s, size_t n) { if (n != 64) return 0; for (size_t i = 0; i < 64; i++) if (!strchr("0123456789abcdefABCDEF", s[i]) || !s[i]) return 0; return 1; }
/* 1 well-formed, 0 not, -1 not said: */
static int uri_ok(const char *u, char key[65], char sec[65])
{
    static const char P[] = "nostr+walletconnect://"; int relays = 0, secrets = 0, odd = 0; if (strncmp(u, P, sizeof P - 1)) return 0; u += sizeof P - 1; const char *q = strchr(u, '?'); if (!q || !is_hex64(u, (size_t)(q - u))) return 0; memcpy(key, u, 64); key[64] = 0; for (int i = 0; i < 64; i++) if (key[i] >= 'A' && key[i] <= 'F') odd = 1, key[i] += 32;
    for (const char *p = q + 1; ; ) { size_t n = strcspn(p, "&"); const char *e = memchr(p, '=', n); if (e) { size_t k = (size_t)(e - p), l = n - k - 1; if (k == 5 && !memcmp(p, "relay", 5)) { relays++; if (!l) odd = 1; } if (k == 6 && !memcmp(p, "secret", 6)) { if (!is_hex64(e + 1, l)) return 0; if (secrets++ && strncasecmp(sec, e + 1, 64)) odd = 1; memcpy(sec, e + 1, 64); sec[64] = 0; for (int i = 0; i < 64; i++) if (sec[i] >= 'A' && sec[i] <= 'F') odd = 1, sec[i] += 32; } } else if (n) odd = 1; if (!p[n]) break; p += n + 1; }
    if (!relays || !secrets) return 0; return odd ? -1 : 1;
}
static void try_uri(const char *u)
{
    char key[65], sec[65]; int want = uri_ok(u, key, sec); struct nwc_connection *c = (void *)UNS; nostr_error_t r = nostr_nip47_parse_connection_uri(u, &c); mc_eval(1); MC_NOTE("%s -> %d, expected %d", mc_q(u), r, want);
    if (want == 1 && r != NOSTR_OK) mc_fail("uri-refused", "%s: %d", mc_q(u), r); if (!want && r == NOSTR_OK) mc_fail("uri-accepted", "%s", mc_q(u)); if (r != NOSTR_OK) { if ((char *)c != UNS && c) mc_fail("output-on-error", "a connection is handed out for %s", mc_q(u)); return; }
    uint8_t sk[32], pk[32], k[32], sh[32]; ref_unhex(sec, 64, sk); ref_unhex(key, 64, k); nostr_event *e = NULL; int good = secp256k1_ec_seckey_verify(PX, sk) && party_shared(sk, k, sh); r = nostr_nip47_create_request_event(&e, c, "get_info", "{}", 1); if (!good) { if (r == NOSTR_OK) mc_fail("bad-key", "a request is made with keys outside the group: %s", mc_q(u)); if (e) mc_fail("output-on-error", "a request is handed out"); }
    else { if (r != NOSTR_OK) mc_fail("request-refused", "%d with the connection %s", r, mc_q(u)); party_pub(sk, pk); if (memcmp(e->pubkey.data, pk, 32)) mc_fail("connection", "requests are not by the secret's key: %s", mc_q(u)); if (e->tags_count < 1 || strcmp(e->tags[0].values[1], key)) mc_fail("connection", "requests do not go to the wallet of %s", mc_q(u)); nostr_event_destroy(e); }
    nostr_nip47_free_connection(c);
}
static void uris(void)   /* all arrangements of the parts */
{
    begin(); int n = 1 + mc_choose(4); char u[1200]; sprintf(u, "nostr+walletconnect://%s", PKH[1]); fault_track(1);
    for (int i = 0; i < n; i++) { strcat(u, i ? "&" : "?"); switch (mc_choose(9)) { case 0: strcat(u, "relay=wss%3A%2F%2Fr.example"); break; case 1: strcat(u, "relay=wss://x.example:7/%zz%4"); break; case 2: strcat(u, "secret="); strcat(u, SKH[0]); break; case 3: strcat(u, "lud16=a%40b.example"); break; case 4: strcat(u, "secret="); strcat(u, SKH[2]); break; case 5: strcat(u, "secret="); break; case 6: strcat(u, "x=relay=y"); break; case 7: strcat(u, "relays=wss://n.example"); break; case 8: strcat(u, "Secret="); strcat(u, SKH[3]); break; } }
    try_uri(u); fault_track(0); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform();
}
static void uri_chars(void)   /* every character replaced by every other; cut off; doubled */
{
    begin(); char u[400]; sprintf(u, "nostr+walletconnect://%s?relay=wss%%3A%%2F%%2Fr.example&secret=%s&lud16=me%%40x", PKH[2], SKH[1]); size_t n = strlen(u), i = (size_t)mc_choose((int)n); char c = u[i]; for (int v = 1; v < 256; v++) { u[i] = (char)v; try_uri(u); } u[i] = 0; try_uri(u); u[i] = c; memmove(u + i + 1, u + i, n - i + 1); try_uri(u); memmove(u + i, u + i + 2, n - i); try_uri(u); mc_conform();
}
static void uri_keys(void)
{
    begin(); static const char *const K[] = { "0000000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "0000000000000000000000000000000000000000000000000000000000000005", "0000000000000000000000000000000000000000000000000000000000000003" };
    const char *k = MC_PICK(K), *s = MC_PICK(K); char u[400]; sprintf(u, "nostr+walletconnect://%s?secret=%s&relay=x", k, s); try_uri(u); int m = mc_choose(40); strcpy(u + strlen(u) - 1, "r"); char *big = malloc(4000); strcpy(big, u); for (int i = 0; i < m; i++) sprintf(big + strlen(big), "&relay=wss%%3A%%2F%%2Fr%d", i); fault_track(1); try_uri(big); fault_track(0); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); free(big); mc_conform();
}
/* ---- requests ---- */
static void check_request(const nostr_event *e, int from, int to, const char *method, const char *params)
{
    if (e->kind != 23194 || e->created_at != NOW || memcmp(e->pubkey.data, PK[from].data, 32) || !party_signed(e)) mc_fail("request", "kind %d, created at %lld, by %s, %ssigned", e->kind, (long long)e->created_at, mc_hex(e->pubkey.data, 32), party_signed(e) ? "" : "not ");
    int p = 0, enc = 0; for (size_t i = 0; i < e->tags_count; i++) { const nostr_tag *t = &e->tags[i]; if (t->count >= 2 && !strcmp(t->values[0], "p")) { p++; if (strcmp(t->values[1], PKH[to])) mc_fail("request-tags", "p is %s", t->values[1]); } else if (t->count >= 2 && !strcmp(t->values[0], "encryption")) { enc++; if (strcmp(t->values[1], "nip44_v2")) mc_fail("request-tags", "encryption is %s", t->values[1]); } else mc_fail("request-tags", "an unknown tag"); } if (p != 1 || enc != 1) mc_fail("request-tags", "%d p and %d encryption tags", p, enc);
    for (int i = 0; i < NK; i++) for (int j = 0; j < NK; j++) { size_t n; uint8_t *t = party_open44(SK[i].data, PK[j].data, e->content, &n); int should = (i == to && j == from) || (i == from && j == to); if (!should) { if (t) mc_fail("opened-by-other", "%d with %d reads the request of %d to %d", i, j, from, to); continue; } if (!t) mc_fail("not-opened", "%d cannot read the request of %d to %d", i, from, to);
        rj *o = rj_parse((char *)t, n, 1); rj *q = rj_parse(params, strlen(params), 1); if (!o || o->t != RJ_OBJ || o->count != 2 || !str_is(rj_get(o, "method"), method) || !rj_get(o, "params") || !rj_same(rj_get(o, "params"), q)) mc_fail("other-request", "asked for %s %s, sent %s", mc_q(method), mc_q(params), mc_qn((char *)t, n)); if (rj_parse(params, strlen(params), 0) && !rj_parse((char *)t, n, 0)) mc_fail("not-json", "%s %s becomes %s", mc_q(method), mc_q(params), mc_qn((char *)t, n)); free(t); }
    mc_outcome(refev_hash(e)); mc_conform();
}
static nostr_error_t request(const struct nwc_connection *c, const char *m, const char *p, nostr_event **e) { *e = NULL; nostr_error_t r = nostr_nip47_create_request_event(e, c, m, p, 1); mc_step(); MC_NOTE("request %s %s -> %d", mc_q(m), mc_q(p), r); if (r != NOSTR_OK && *e) mc_fail("output-on-error", "a refused request is handed out"); return r; }
static const char *const METHOD[] = { "pay_invoice", "get_balance", "", "a\"b", "back\\slash", "nl\ncr\rtab\t", "\x01\x1f\x7f", "\xc3\xa9\xf0\x9f\x98\x80", "\",\"params\":{\"x\":1},\"y\":\"", "/" };
static const char *const PARAMS[] = { "{}", "{\"invoice\":\"lnbc50n1\"}", "{\"amount\":9007199254740993}", "{\"a\":{\"b\":[1,2.5,-3e2,true,null,\"\\u0001\\\"\"]}}", "{\"invoice\":\"x\",\"amount\":18446744073709551615}", "{\"m\":\"\xc3\xa9\"}", " { \"a\" : 1 } ", "{\"method\":\"get_info\",\"params\":{}}",
    /* not objects, or not JSON */ "[]", "1", "\"x\"", "null", "", "{", "}", "{}x", "{},\"method\":\"get_info\"", "{}}", "{} {}", "{\"a\":1,}", "{'a':1}", "x", "{\"a\" 1}", "{}\x01,", "[{}" };
static void requests(void)
{
    begin(); int from = mc_choose(NK), to = mc_choose(NK); const char *m = MC_PICK(METHOD), *p = MC_PICK(PARAMS); struct nwc_connection *c = conn(from, to); nostr_event *e; fault_track(1); nostr_error_t r = request(c, m, p, &e); fault_track(0);
    rj *q = rj_parse(p, strlen(p), 0); if (!rj_parse(p, strlen(p), 1)) { if (r == NOSTR_OK) mc_fail("malformed", "parameters %s are sent", mc_q(p)); } else if (q && q->t == RJ_OBJ && r != NOSTR_OK) mc_fail("request-refused", "%s %s: %d", mc_q(m), mc_q(p), r); if (r == NOSTR_OK) { check_request(e, from, to, m, p); fault_track(1); nostr_event_destroy(e); fault_track(0); } if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); nostr_nip47_free_connection(c);
}
static void sizes(void)   /* long requests: whole or refused */
{
    begin(); int w = mc_choose(2), b = mc_choose(4), d = mc_choose(mc_thorough() ? 120 : 60); static const int B[4] = { 230, 8130, 40900, 65450 }; int n = B[b] + d; char *t = malloc((size_t)n + 40); if (w) { memset(t, 'm', (size_t)n); t[n] = 0; t[0] = '"'; } else { strcpy(t, "{\"a\":\""); memset(t + 6, 'p', (size_t)n); strcpy(t + 6 + n, "\"}"); }
    struct nwc_connection *c = conn(0, 1); nostr_event *e; nostr_error_t r = w ? request(c, t, "{\"amount\":1}", &e) : request(c, "pay", t, &e); if (r == NOSTR_OK) { if (w) check_request(e, 0, 1, t, "{\"amount\":1}"); else check_request(e, 0, 1, "pay", t); nostr_event_destroy(e); } else if (b < 2) mc_fail("request-refused", "%d characters: %d", n, r); nostr_nip47_free_connection(c); free(t);
}
static void old_encryption(void) { begin(); struct nwc_connection *c = conn(0, 1); nostr_event *e = NULL; nostr_error_t r = nostr_nip47_create_request_event(&e, c, MC_PICK(METHOD), "{}", 0); mc_step(); if (r != NOSTR_OK) { if (e) mc_fail("output-on-error", "handed out"); } else { size_t n; uint8_t *t = party_open04(SK[1].data, PK[0].data, e->content, &n); if (!t) mc_fail("not-opened", "the request without NIP-44 is not NIP-04"); free(t); nostr_event_destroy(e); } nostr_nip47_free_connection(c); mc_conform(); }
/* ---- what comes back ---- */
static nostr_event *answer(int kind, int from, int to, const char *text, size_t n, int p, const char *enc)
{
    nostr_event *e = refev_new(); e->kind = (uint16_t)kind; e->created_at = NOW; char *c = party_seal44(SK[from].data, PK[to].data, text, n); if (nostr_event_set_content(e, c) != NOSTR_OK) mc_fail("harness", "content"); free(c); const char *P[] = { "p", PKH[to] }, *X[] = { "e", "00000000000000000000000000000000000000000000000000000000000000ff" }, *E[] = { "encryption", enc }; if (p) nostr_event_add_tag(e, P, 2); nostr_event_add_tag(e, X, 2); if (enc) nostr_event_add_tag(e, E, 2); party_sign(e, SK[from].data); return e;
}
static void want_str(const rj *o, const char *k, const char *got, const char *text) { const rj *v = o && o->t == RJ_OBJ ? rj_get(o, k) : NULL; int w = v && v->t == RJ_STR; if (got == UNS) mc_fail("unset-output", "%s is not set for %s", k, mc_q(text)); if (w && rj_has_nul(v)) return; if (w != !!got || (w && strcmp(got, v->s))) mc_fail("other-answer", "%s is %s in %s", k, got ? mc_q(got) : "missing", mc_q(text)); }
static void want_val(const rj *o, const char *k, const char *got, const char *text) { const rj *v = o && o->t == RJ_OBJ ? rj_get(o, k) : NULL; if (got == UNS) mc_fail("unset-output", "%s is not set for %s", k, mc_q(text)); if (v && v->t == RJ_NULL && !got) return; if (!!v != !!got || (v && !rj_has_nul(v) && !rj_same(v, rj_parse(got, strlen(got), 0)))) mc_fail("other-answer", "%s is %s in %s", k, got ? mc_q(got) : "missing", mc_q(text)); }
static const char *const RTEXT[] = { "{\"result_type\":\"pay_invoice\",\"result\":{\"preimage\":\"0123\",\"fees_paid\":9007199254740992}}", "{\"result_type\":\"get_balance\",\"error\":null,\"result\":{\"balance\":21000000}}", "{\"result_type\":\"x\",\"error\":{\"code\":\"QUOTA_EXCEEDED\",\"message\":\"too \\\"much\\\"\\n\xc3\xa9\"},\"result\":null}", "{\"error\":{\"code\":\"OTHER\",\"message\":\"\"}}", "{\"error\":{\"code\":5,\"message\":null}}", "{\"error\":\"x\"}", "{\"error\":[{\"code\":\"a\"}]}", "{\"Result_Type\":\"a\",\"RESULT\":{\"b\":1},\"Error\":{\"code\":\"c\"}}", "{\"RESULT_TYPE\":\"a\",\"result_type\":\"b\",\"result\":[1,2,[3,{}],\"\\u00e9\",-1.5,1e300,true,false]}", "{\"error\":{\"Code\":\"a\",\"code\":\"b\",\"MESSAGE\":\"c\"}}", "{}", "{\"result\":\"text\"}", "{\"result\":0}", "{\"result_type\":\"\",\"result\":{},\"extra\":{\"result\":1}}", "{\"result\":{\"result_type\":\"inner\",\"error\":{\"code\":\"inner\"}}}",
    /* no objects */ "[]", "null", "1", "\"x\"", "", "{", "{\"result\":", "{\"result_type\":\"a\"", "garbage", "[{\"result_type\":\"a\"}]", " ", "{\"result\":{]}", "{\"result\":{}}}", "{\"result_type\":\"pay\"},\"result\":{\"preimage\":\"00\"}}" };
static void responses(void)
{
    begin(); const char *t = MC_PICK(RTEXT); int who = mc_choose(3), p = mc_choose(2), en = mc_choose(3), mask = mc_choose(16), kind = mc_choose(mask == 15 ? 4 : 1); static const int KD[] = { 23195, 23194, 23197, 1 }; if (!*t) t = " "; nostr_event *e = answer(KD[kind], 1, 0, t, strlen(t), p, en == 0 ? "nip44_v2" : en == 1 ? NULL : "nip04"); char *o[4] = { UNS, UNS, UNS, UNS }; fault_track(1);
    nostr_error_t r = nostr_nip47_parse_response_event(e, &SK[who == 0 ? 0 : who + 1], mask & 1 ? &o[0] : NULL, mask & 2 ? &o[1] : NULL, mask & 4 ? &o[2] : NULL, mask & 8 ? &o[3] : NULL); fault_track(0); mc_step(); MC_NOTE("%s read by party %d -> %d", mc_q(t), who, r); rj *j = rj_parse(t, strlen(t), 1);
    int must = !kind && !who && !en && j && j->t == RJ_OBJ; if (must && r != NOSTR_OK) mc_fail("answer-refused", "%d: %s", r, mc_q(t)); if ((kind || who || !j) && r == NOSTR_OK) mc_fail("answer-accepted", "kind %d, read by party %d: %s", KD[kind], who, mc_q(t));
    static const char *const N[] = { "result_type", "result", "code", "message" }; for (int i = 0; i < 4; i++) { char *x = o[i]; if (!(mask >> i & 1)) continue; if (r != NOSTR_OK) { if (x != UNS && x) mc_fail("output-on-error", "%s is handed out", N[i]); continue; } rj *er = j && j->t == RJ_OBJ ? rj_get(j, "error") : NULL; if (i == 1) want_val(j, N[i], x, t); else want_str(i ? er : j, N[i], x, t); fault_track(1); free(x); fault_track(0); }
    if (fault_live()) mc_fail("leak", "%s: %s", mc_q(t), fault_live_desc()); nostr_event_destroy(e); mc_conform();
}
static const char *const NTEXT[] = { "{\"notification_type\":\"payment_received\",\"notification\":{\"type\":\"incoming\",\"amount\":123,\"metadata\":{}}}", "{\"notification_type\":\"payment_sent\"}", "{\"notification\":{\"a\":[]}}", "{\"Notification_Type\":\"a\",\"NOTIFICATION\":1}", "{\"notification_type\":7,\"notification\":null}", "{}", "[]", "null", "{", "x", "\"\"", "[1]", "{\"notification_type\":\"a\\\"\xc3\xa9\",\"notification\":\"b\"}", "{\"notification_type\":\"a\"},\"notification\":1}" };
static void notifications(void)
{
    begin(); const char *t = MC_PICK(NTEXT); int who = mc_choose(3), mask = mc_choose(4), kind = mc_choose(4), p = mc_choose(2); static const int KD[] = { 23197, 23196, 23195, 13194 }; nostr_event *e = answer(KD[kind], 1, 0, t, strlen(t), p, NULL); char *o[2] = { UNS, UNS }; fault_track(1);
    nostr_error_t r = nostr_nip47_parse_notification_event(e, &SK[who == 0 ? 0 : who + 1], mask & 1 ? &o[0] : NULL, mask & 2 ? &o[1] : NULL); fault_track(0); mc_step(); rj *j = rj_parse(t, strlen(t), 1); int must = !kind && !who && j && j->t == RJ_OBJ; if (must && r != NOSTR_OK) mc_fail("answer-refused", "%d: %s", r, mc_q(t)); if ((kind > 1 || who || !j) && r == NOSTR_OK) mc_fail("answer-accepted", "kind %d, read by party %d: %s", KD[kind], who, mc_q(t));
    for (int i = 0; i < 2; i++) { char *x = o[i]; if (!(mask >> i & 1)) continue; if (r != NOSTR_OK) { if (x != UNS && x) mc_fail("output-on-error", "handed out"); continue; } if (i) want_val(j, "notification", x, t); else want_str(j, "notification_type", x, t); fault_track(1); free(x); fault_track(0); } if (fault_live()) mc_fail("leak", "%s: %s", mc_q(t), fault_live_desc()); nostr_event_destroy(e); mc_conform();
}
static void tampered(void)   /* every character of the content changed, every truncation; another author */
{
    begin(); int no = mc_choose(2); const char *t = no ? NTEXT[0] : RTEXT[0]; nostr_event *e = answer(no ? 23197 : 23195, 1, 0, t, strlen(t), 1, "nip44_v2"); size_t n = strlen(e->content), i = (size_t)mc_choose((int)n + NK); char *s = strdup(e->content); for (int v = 0; v < 3; v++) { strcpy(s, e->content); if (i < n) { if (v == 0) s[i] = s[i] == 'A' ? 'B' : 'A'; else if (v == 1) s[i] = 0; else s[i] ^= 1; { uint8_t r1[2000], r2[2000]; int c1; long a1 = r44_dec64(e->content, n, r1, &c1), a2 = r44_dec64(s, strlen(s), r2, &c1); if (!strcmp(s, e->content) || (a1 == a2 && a1 > 0 && !memcmp(r1, r2, (size_t)a1))) continue; } } else { if (v || i - n == 1) continue; }
        nostr_event *f = refev_new(); f->kind = e->kind; f->pubkey = i < n ? e->pubkey : PK[i - n]; nostr_event_set_content(f, s); const char *P[] = { "p", PKH[0] }, *E[] = { "encryption", "nip44_v2" }; nostr_event_add_tag(f, P, 2); nostr_event_add_tag(f, E, 2); char *a = UNS, *b = UNS, *c = UNS, *d = UNS; nostr_error_t r = no ? nostr_nip47_parse_notification_event(f, &SK[0], &a, &b) : nostr_nip47_parse_response_event(f, &SK[0], &a, &b, &c, &d); mc_eval(1); if (r == NOSTR_OK) mc_fail("answer-accepted", "altered at %zu (%d), by %s", i, v, mc_hex(f->pubkey.data, 32)); if ((a != UNS && a) || (b != UNS && b) || (c != UNS && c) || (d != UNS && d)) mc_fail("output-on-error", "handed out"); nostr_event_destroy(f); }
    free(s); nostr_event_destroy(e); mc_conform();
}
/* ---- what the wallet can do ---- */
static void want_words(const char *what, const char *text, char **w, size_t n) { if (w == UNL || n == 77) mc_fail("unset-output", "%s is not set", what); size_t k = 0; for (const char *p = text ? text : ""; *p; ) { while (*p == ' ') p++; size_t l = strcspn(p, " "); if (!l) break; if (k >= n || strlen(w[k]) != l || memcmp(w[k], p, l)) mc_fail("other-words", "%s of %s: word %zu is %s", what, mc_q(text), k, k < n ? mc_q(w[k]) : "missing"); k++; p += l; } if (k != n) mc_fail("other-words", "%s of %s: %zu words", what, mc_q(text), n); }
static void free_words(char **w, size_t n) { for (size_t i = 0; i < n; i++) free(w[i]); free(w); }
static void infos(void)
{
    begin(); static const char *const W[] = { "pay_invoice get_balance notifications", "one", "", " ", "  a  b ", "a b ", " a", NULL }; int ci = mc_choose(MC_LEN(W)), nt = mc_choose(MC_LEN(W)), et = mc_choose(MC_LEN(W)), shape = mc_choose(4), kind = shape == 3 ? mc_choose(3) : 0; nostr_event *e = refev_new(); static const int KD[] = { 13194, 23194, 1 }; e->kind = (uint16_t)KD[kind]; if (W[ci]) nostr_event_set_content(e, W[ci]); const char *X[] = { "notifications" }, *N[] = { "notifications", W[nt] }, *E[] = { "encryption", W[et], "nip44_v2" }, *N2[] = { "notifications", "second one" }, *Y[] = { "notification", "not this" };
    if (shape == 1) nostr_event_add_tag(e, X, 1), nostr_event_add_tag(e, Y, 2); if (W[nt]) nostr_event_add_tag(e, N, 2); if (W[et]) nostr_event_add_tag(e, E, 3); if (W[nt] && shape == 2) nostr_event_add_tag(e, N2, 2); int mask = mc_choose(8); char **l[3] = { UNL, UNL, UNL }; size_t n[3] = { 77, 77, 77 }; fault_track(1);
    nostr_error_t r = nostr_nip47_parse_info_event(e, mask & 1 ? &l[0] : NULL, mask & 1 ? &n[0] : NULL, mask & 2 ? &l[1] : NULL, mask & 2 ? &n[1] : NULL, mask & 4 ? &l[2] : NULL, mask & 4 ? &n[2] : NULL); fault_track(0); mc_step(); if (kind) { if (r == NOSTR_OK) mc_fail("answer-accepted", "an event of kind %d", KD[kind]); nostr_event_destroy(e); return; } if (r != NOSTR_OK) mc_fail("answer-refused", "%d", r);
    if (mask & 1) want_words("capabilities", W[ci], l[0], n[0]); if (mask & 2) want_words("notifications", W[nt], l[1], n[1]); if (mask & 4) want_words("encryptions", W[et], l[2], n[2]); fault_track(1); for (int i = 0; i < 3; i++) if (mask >> i & 1) free_words(l[i], n[i]); fault_track(0); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); nostr_event_destroy(e); mc_conform();
}
/* ---- parameters ---- */
static const uint64_t AMT[] = { 1, 1000, 2147483647, 2147483648u, 4294967296u, 999999999999999, 10000000000000000u, 9007199254740991u, 9007199254740993u, 2100000000000000001u, INT64_MAX, UINT64_MAX, 0 };
static const char *const STR[] = { "lnbc10", "", "q\"\\/\n\t\x01\x7f", "\xc3\xa9\xf0\x9f\x98\x80", NULL };
static void want_member(const rj *o, const char *k, const char *s, int *n) { if (!s) { if (rj_get(o, k)) mc_fail("other-params", "%s was not given", k); return; } ++*n; if (!str_is(rj_get(o, k), s)) mc_fail("other-params", "%s is not %s", k, mc_q(s)); }
static void want_amount(const rj *o, const char *k, uint64_t v, int given, int *n) { if (!given) { if (rj_get(o, k)) mc_fail("other-params", "%s was not given", k); return; } ++*n; if (!exact_u64(rj_get(o, k), v)) mc_fail("amount", "%s is not %llu", k, (unsigned long long)v); }
static void done(char *j, const rj *o, int n, nostr_error_t r) { (void)r; if (o->count != n) mc_fail("other-params", "%d members instead of %d: %s", o->count, n, mc_q(j)); fault_track(1); free(j); fault_track(0); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); }
static void params(void)
{
    begin(); int f = mc_choose(8), n = 0; char *j = UNS; nostr_error_t r; fault_track(1); mc_step();
    switch (f) {
    case 0: { const char *s = STR[mc_choose(MC_LEN(STR))]; int g = mc_choose(2); uint64_t a = g ? MC_PICK(AMT) : 0; r = nostr_nip47_create_pay_invoice_params(&j, s, g ? &a : NULL); if (!s) goto refused; if (r != NOSTR_OK) goto bad; fault_track(0); rj *o = obj(j, "pay_invoice parameters"); want_member(o, "invoice", s, &n); want_amount(o, "amount", a, g, &n); done(j, o, n, r); return; }
    case 1: { const char *d = MC_PICK(STR), *h = MC_PICK(STR); uint64_t a = MC_PICK(AMT); int g = mc_choose(3); uint32_t x = g == 1 ? 3600 : UINT32_MAX; r = nostr_nip47_create_make_invoice_params(&j, a, d, h, g ? &x : NULL); if (!a) goto refused; if (r != NOSTR_OK) goto bad; fault_track(0); rj *o = obj(j, "make_invoice parameters"); want_amount(o, "amount", a, 1, &n); want_member(o, "description", d, &n); want_member(o, "description_hash", h, &n); want_amount(o, "expiry", x, !!g, &n); done(j, o, n, r); return; }
    case 2: { static const time_t T[] = { 0, 1700000000, 4294967296 }; int m = mc_choose(32), y = mc_choose(3), u = mc_choose(2) * 2; time_t from = T[y], until = T[2 - y]; uint32_t li = y == 2 ? UINT32_MAX : 10, of = y == 1 ? UINT32_MAX : 0; const char *ty = MC_PICK(STR); r = nostr_nip47_create_list_transactions_params(&j, m & 1 ? &from : NULL, m & 2 ? &until : NULL, m & 4 ? &li : NULL, m & 8 ? &of : NULL, m & 16 ? &u : NULL, ty); if (r != NOSTR_OK) goto bad; fault_track(0); rj *o = obj(j, "list_transactions parameters"); want_amount(o, "from", (uint64_t)from, m & 1, &n); want_amount(o, "until", (uint64_t)until, m & 2, &n); want_amount(o, "limit", li, m & 4, &n); want_amount(o, "offset", of, m & 8, &n); if (m & 16) { n++; rj *v = rj_get(o, "unpaid"); if (!v || v->t != (u ? RJ_TRUE : RJ_FALSE)) mc_fail("other-params", "unpaid is not %d", u); } else if (rj_get(o, "unpaid")) mc_fail("other-params", "unpaid was not given"); want_member(o, "type", ty, &n); done(j, o, n, r); return; }
    case 3: { const char *h = MC_PICK(STR), *i = MC_PICK(STR); r = nostr_nip47_create_lookup_invoice_params(&j, h, i); if (!h && !i) goto refused; if (r != NOSTR_OK) goto bad; fault_track(0); rj *o = obj(j, "lookup_invoice parameters"); want_member(o, "payment_hash", h, &n); want_member(o, "invoice", i, &n); done(j, o, n, r); return; }
    case 4: { uint64_t a = MC_PICK(AMT); const char *k = MC_PICK(STR), *p = MC_PICK(STR); static const char *const T[] = { "5482373484", "1", "0", "18446744073709551615", "9007199254740993", "abc", "", "-1", "1x", " 1", "18446744073709551616", "1.5", "007", NULL }; int c = mc_choose(4); const char *t[4] = { "7629169", "v\"1", T[c ? mc_choose(MC_LEN(T)) : 0], c == 3 ? NULL : "00ff" }; if (c == 1) t[0] = t[2]; size_t tn = c == 0 ? (size_t)mc_choose(3) * 0 : c == 1 ? 2 : 4; r = nostr_nip47_create_pay_keysend_params(&j, a, k, p, t, tn); int bad = !a || !k, fuzzy = 0; for (size_t i = 0; i < tn; i += 2) { if (!t[i] || !t[i + 1]) { bad = 1; continue; } size_t l = strlen(t[i]); if (!l || strspn(t[i], "0123456789") != l || !strcmp(t[i], "18446744073709551616")) bad = 1; else if (t[i][0] == '0' && l > 1) fuzzy = 1; }
        if (bad) goto refused; if (r != NOSTR_OK) { if (fuzzy) goto refused; goto bad; } fault_track(0); rj *o = obj(j, "pay_keysend parameters"); want_amount(o, "amount", a, 1, &n); want_member(o, "pubkey", k, &n); want_member(o, "preimage", p, &n); rj *v = rj_get(o, "tlv_records"); if (tn || v) { n++; if (!v || v->t != RJ_ARR || v->count != (int)tn / 2) mc_fail("other-params", "tlv_records of %zu", tn / 2); for (size_t i = 0; i < tn; i += 2) { rj *x = rj_at(v, (int)i / 2); int z = 0; if (x->t != RJ_OBJ) mc_fail("other-params", "a record"); want_amount(x, "type", strtoull(t[i], NULL, 10), 1, &z); want_member(x, "value", t[i + 1], &z); } } done(j, o, n, r); return; }
    case 5: { size_t c = (size_t)mc_choose(4); const char *ids[3], *inv[3]; uint64_t am[3]; int gi = mc_choose(3), ga = mc_choose(2), bad = !c; for (size_t i = 0; i < c; i++) { inv[i] = i == 1 ? MC_PICK(STR) : STR[i]; ids[i] = gi == 2 && i == 1 ? NULL : STR[(i + 1) % 4]; am[i] = i == 1 ? MC_PICK(AMT) : i * 5; if (!inv[i]) bad = 1; } r = nostr_nip47_create_multi_pay_invoice_params(&j, gi ? ids : NULL, c || mc_choose(2) ? inv : NULL, ga ? am : NULL, c); if (bad) goto refused; if (r != NOSTR_OK) goto bad; fault_track(0); rj *o = obj(j, "multi_pay_invoice parameters"), *v = rj_get(o, "invoices"); if (!v || v->t != RJ_ARR || v->count != (int)c) mc_fail("other-params", "invoices"); for (size_t i = 0; i < c; i++) { rj *x = rj_at(v, (int)i); int z = 0; if (x->t != RJ_OBJ) mc_fail("other-params", "an invoice"); want_member(x, "id", gi ? ids[i] : NULL, &z); want_member(x, "invoice", inv[i], &z); want_amount(x, "amount", am[i], ga && am[i], &z); if (x->count != z) mc_fail("other-params", "an invoice has %d members", x->count); } done(j, o, 1, r); return; }
    case 6: r = nostr_nip47_create_get_balance_params(&j); if (r != NOSTR_OK) goto bad; fault_track(0); done(j, obj(j, "get_balance parameters"), 0, r); return;
    default: r = nostr_nip47_create_get_info_params(&j); if (r != NOSTR_OK) goto bad; fault_track(0); done(j, obj(j, "get_info parameters"), 0, r); return; }
bad: mc_fail("params-refused", "function %d: %d", f, r);
refused: fault_track(0); if (r == NOSTR_OK) mc_fail("params-accepted", "function %d makes %s", f, j && j != UNS ? mc_q(j) : "nothing"); if (j && j != UNS) mc_fail("output-on-error", "function %d", f); if (fault_live()) mc_fail("leak", "%s", fault_live_desc());
}
/* ---- results ---- */
static const char *const NUMT[] = { "0", "1", "21000000", "2147483648", "4294967295", "4294967296", "9007199254740992", "1e3", "10000000000000000", "-1", "-0.5", "0.5", "1.5", "1e30", "1e400", "18446744073709551616", "-9223372036854775809", "\"5\"", "null", "true", "[1]", "{}", "-2147483649", "-1e300" };
static int natural(const rj *v, uint64_t max, uint64_t *x) { if (!v || v->t != RJ_NUM) return 0; char t[64]; if (v->rawn >= sizeof t) return 0; memcpy(t, v->raw, v->rawn); t[v->rawn] = 0; long double d = strtold(t, NULL); if (!(d >= 0) || d > (long double)max || d != (long double)(uint64_t)d) return 0; *x = (uint64_t)d; return 1; }
static void results(void)
{
    begin(); int f = mc_choose(2); static const char *const K[2][4] = { { "balance", "Balance", "BALANCE", "bal" }, { "fees_paid", "Fees_Paid", "fee", "FEES_PAID" } }; const char *k = K[f][mc_choose(4)], *num = MC_PICK(NUMT); static const char *const PRE[] = { "", ",\"preimage\":\"00ff\"", ",\"preimage\":5", ",\"PREIMAGE\":\"x\"", ",\"preimage\":\"\\u00e9\\\"\"", ",\"preimage\":null", ",\"balance\":7,\"fees_paid\":8" }; char t[300]; sprintf(t, "{\"%s\":%s%s}", k, num, MC_PICK(PRE)); int cut = mc_choose(4); if (cut == 3) strcat(t, "}"); if (cut == 1) t[strlen(t) - 1] = 0; if (cut == 2) { memmove(t + 1, t, strlen(t) + 1); t[0] = '['; strcat(t, "]"); }
    rj *j = rj_parse(t, strlen(t), 1), *v = j && j->t == RJ_OBJ ? rj_get(j, f ? "fees_paid" : "balance") : NULL; uint64_t x = 0xABCD, w = 0; int nat = natural(v, 1ull << 53, &w), huge = !nat && natural(v, UINT64_MAX, &w); char *pre = UNS; int np = f ? mc_choose(2) : 0, nf = f ? mc_choose(2) : 0; fault_track(1); nostr_error_t r = f ? nostr_nip47_parse_pay_invoice_response(t, np ? NULL : &pre, nf ? NULL : &x) : nostr_nip47_parse_balance_response(t, &x); fault_track(0); mc_step(); MC_NOTE("%s -> %d, %llu", mc_q(t), r, (unsigned long long)x);
    if (!j && r == NOSTR_OK) mc_fail("result-accepted", "%s", mc_q(t)); if (!f) { if (nat && r != NOSTR_OK) mc_fail("result-refused", "%s: %d", mc_q(t), r); if (!nat && !huge && r == NOSTR_OK) mc_fail("result-accepted", "a balance of %llu is read in %s", (unsigned long long)x, mc_q(t)); if (r == NOSTR_OK && x != w && (nat || (long double)x != (long double)(double)w)) mc_fail("amount", "a balance of %llu is read in %s", (unsigned long long)x, mc_q(t)); }
    else { int plain = j && j->t == RJ_OBJ && (!v || nat || v->t == RJ_NULL); if (plain && r != NOSTR_OK) mc_fail("result-refused", "%s: %d", mc_q(t), r); if (r == NOSTR_OK) { if (!nf && x != (nat ? w : huge ? x : 0)) mc_fail("amount", "fees of %llu are read in %s", (unsigned long long)x, mc_q(t)); if (!np) { want_str(j, "preimage", pre, t); fault_track(1); free(pre); fault_track(0); } } else if (!np && pre != UNS && pre) mc_fail("output-on-error", "%s", mc_q(t)); }
    if (fault_live()) mc_fail("leak", "%s: %s", mc_q(t), fault_live_desc()); mc_conform();
}
static void wallets(void)   /* get_info */
{
    begin(); static const char *const M[] = { "[\"pay_invoice\",\"get_balance\"]", "[]", "[1,\"a\",null,\"b\",{}]", "[\"\"]", "\"x\"", "null", "{\"a\":\"b\"}", "[\"\\u00e9\\\"\",[\"in\"]]", "" }; static const char *const S[] = { "\"Alice \\\"A\\\" \xc3\xa9\"", "5", "null", "" }; const char *m = MC_PICK(M), *al = MC_PICK(S), *col = MC_PICK(S), *h = MC_PICK(NUMT); int up = mc_choose(2); char t[600] = "{\"a\":0"; if (*al) sprintf(t + strlen(t), ",\"%s\":%s", up ? "Alias" : "alias", al); if (*col) sprintf(t + strlen(t), ",\"color\":%s,\"network\":%s", col, al[0] ? al : "7"); sprintf(t + strlen(t), ",\"pubkey\":\"02ff\",\"block_height\":%s", h); if (*m) sprintf(t + strlen(t), ",\"%s\":%s", up ? "METHODS" : "methods", m); strcat(t, "}");
    rj *j = rj_parse(t, strlen(t), 1); int part = mc_choose(3); char *o[4] = { UNS, UNS, UNS, UNS }; uint32_t bh = 77; char **ms = UNL; size_t mn = 77; fault_track(1); nostr_error_t r = part == 2 ? nostr_nip47_parse_info_response(t, &o[0], &o[1], &o[2], &o[3], NULL, NULL, NULL) : nostr_nip47_parse_info_response(t, part ? NULL : &o[0], part ? NULL : &o[1], part ? NULL : &o[2], part ? NULL : &o[3], &bh, &ms, &mn); fault_track(0); mc_step(); if (!j) mc_discard(); uint64_t w = 0; rj *hv = rj_get(j, "block_height"); int nat = natural(hv, UINT32_MAX, &w);
    if (r != NOSTR_OK) { if (nat) mc_fail("result-refused", "%s: %d", mc_q(t), r); return; } static const char *const N[] = { "alias", "color", "pubkey", "network" }; if (part != 1) for (int i = 0; i < 4; i++) { want_str(j, N[i], o[i], t); fault_track(1); free(o[i]); fault_track(0); } if (part == 2) { if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform(); return; } if (bh != (nat ? (uint32_t)w : 0)) mc_fail("amount", "a height of %u is read in %s", bh, mc_q(t));
    if (ms == UNL || mn == 77) mc_fail("unset-output", "methods are not set for %s", mc_q(t)); rj *a = rj_get(j, "methods"); size_t k = 0; if (a && a->t == RJ_ARR) for (rj *x = a->child; x; x = x->next) if (x->t == RJ_STR) { if (k >= mn || strcmp(ms[k], x->s)) mc_fail("other-words", "method %zu of %s", k, mc_q(t)); k++; } if (k != mn) mc_fail("other-words", "%zu methods in %s", mn, mc_q(t)); fault_track(1); free_words(ms, mn); fault_track(0); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform();
}
/* ---- failures ---- */
static void faults(void)
{
    begin(); mc_set_dev_bound(mc_thorough() ? 2 : 1); int op = mc_choose(14); char u[400]; sprintf(u, "nostr+walletconnect://%s?relay=a&relay=b&relay=c&relay=d&relay=e&secret=%s&lud16=x&lud16=y", PKH[1], SKH[0]); struct nwc_connection *c = op == 1 ? conn(0, 1) : NULL, *d = (void *)UNS; nostr_event *e = NULL, *in = NULL; static const char T2[] = "{\"result_type\":\"a\",\"result\":{\"b\":[1]},\"error\":{\"code\":\"c\",\"message\":\"d\"}}"; if (op == 2) in = answer(23195, 1, 0, T2, strlen(T2), 1, "nip44_v2"); if (op == 3) in = answer(23197, 1, 0, NTEXT[0], strlen(NTEXT[0]), 1, NULL);
    if (op == 4) { in = refev_new(); in->kind = 13194; nostr_event_set_content(in, "a b c"); const char *N[] = { "notifications", "d e" }, *E[] = { "encryption", "f g" }; nostr_event_add_tag(in, N, 2); nostr_event_add_tag(in, E, 2); }
    char *o[4] = { UNS, UNS, UNS, UNS }; char **l[3] = { UNL, UNL, UNL }; size_t n[3] = { 0, 0, 0 }; uint64_t x = 5; uint32_t y = 6; time_t tm = 7; int z = 1; static const char *const TLV[] = { "1", "v", "2", "w" }, *IDS[] = { "i", "k" }, *INV[] = { "m", "n" }; uint64_t am[] = { 1, 2 };
    fault_track(1); fault_arm(); rng_arm(1); nc_armed = 1; nostr_error_t r = NOSTR_OK;
    switch (op) { case 0: r = nostr_nip47_parse_connection_uri(u, &d); break; case 1: r = nostr_nip47_create_request_event(&e, c, "pay\"", "{\"a\":[1,\"x\"]}", 1); break; case 2: r = nostr_nip47_parse_response_event(in, &SK[0], &o[0], &o[1], &o[2], &o[3]); break; case 3: r = nostr_nip47_parse_notification_event(in, &SK[0], &o[0], &o[1]); break; case 4: r = nostr_nip47_parse_info_event(in, &l[0], &n[0], &l[1], &n[1], &l[2], &n[2]); break;
    case 5: r = nostr_nip47_create_pay_invoice_params(&o[0], "i", &x); break; case 6: r = nostr_nip47_create_make_invoice_params(&o[0], 5, "d", "h", &y); break; case 7: r = nostr_nip47_create_list_transactions_params(&o[0], &tm, &tm, &y, &y, &z, "t"); break; case 8: r = nostr_nip47_create_lookup_invoice_params(&o[0], "h", "i"); break; case 9: r = nostr_nip47_create_pay_keysend_params(&o[0], 5, "k", "p", (const char **)TLV, 4); break; case 10: r = nostr_nip47_create_multi_pay_invoice_params(&o[0], (const char **)IDS, (const char **)INV, am, 2); break;
    case 11: r = nostr_nip47_parse_balance_response("{\"balance\":5}", &x); break; case 12: r = nostr_nip47_parse_pay_invoice_response("{\"preimage\":\"p\",\"fees_paid\":5}", &o[0], &x); break; case 13: r = nostr_nip47_parse_info_response("{\"alias\":\"a\",\"color\":\"b\",\"pubkey\":\"c\",\"network\":\"d\",\"block_height\":6,\"methods\":[\"m\",\"n\"]}", &o[0], &o[1], &o[2], &o[3], &y, &l[0], &n[0]); break; }
    rng_arm(0); nc_armed = 0; fault_disarm(); int p = fault_pause(); mc_step(); MC_NOTE("operation %d -> %d", op, r);
    if (r != NOSTR_OK) { if (!mc_dev_used()) mc_fail("refused", "operation %d fails without a fault: %d", op, r); if ((d != (void *)UNS && d) || e) mc_fail("output-on-error", "operation %d", op); for (int i = 0; i < 4; i++) if (o[i] != UNS && o[i]) mc_fail("output-on-error", "operation %d, output %d", op, i); for (int i = 0; i < 3; i++) if (l[i] != UNL && (l[i] || n[i])) mc_fail("output-on-error", "operation %d, list %d", op, i); }
    else { static const char *const W[14] = { [5] = "{\"invoice\":\"i\",\"amount\":5}", [6] = "{\"amount\":5,\"description\":\"d\",\"description_hash\":\"h\",\"expiry\":6}", [7] = "{\"from\":7,\"until\":7,\"limit\":6,\"offset\":6,\"unpaid\":true,\"type\":\"t\"}", [8] = "{\"payment_hash\":\"h\",\"invoice\":\"i\"}", [9] = "{\"amount\":5,\"pubkey\":\"k\",\"preimage\":\"p\",\"tlv_records\":[{\"type\":1,\"value\":\"v\"},{\"type\":2,\"value\":\"w\"}]}", [10] = "{\"invoices\":[{\"id\":\"i\",\"invoice\":\"m\",\"amount\":1},{\"id\":\"k\",\"invoice\":\"n\",\"amount\":2}]}" };
        if (op == 1) { check_request(e, 0, 1, "pay\"", "{\"a\":[1,\"x\"]}"); if (rng_failed()) mc_fail("no-randomness", "a request is made without randomness"); } if (op == 2 && (!o[0] || strcmp(o[0], "a") || !o[1] || strcmp(o[1], "{\"b\":[1]}") || !o[2] || strcmp(o[2], "c") || !o[3] || strcmp(o[3], "d"))) mc_fail("other-answer", "a field of the response is missing"); if (op == 3 && (!o[0] || strcmp(o[0], "payment_received") || !o[1])) mc_fail("other-answer", "a field of the notification is missing"); if (op == 4) { want_words("capabilities", "a b c", l[0], n[0]); want_words("notifications", "d e", l[1], n[1]); want_words("encryptions", "f g", l[2], n[2]); }
        if (op >= 5 && op <= 10) { rj *a = rj_parse(o[0], strlen(o[0]), 0), *b = rj_parse(W[op], strlen(W[op]), 0); if (!a || a->count != b->count) mc_fail("other-params", "%s instead of %s", mc_q(o[0]), W[op]); for (rj *m = b->child; m; m = m->next) if (!rj_get(a, m->key) || (m->t != RJ_ARR && !rj_same(rj_get(a, m->key), m)) || (m->t == RJ_ARR && rj_get(a, m->key)->count != m->count)) mc_fail("other-params", "%s instead of %s", mc_q(o[0]), W[op]); if (strlen(o[0]) != strlen(W[op])) mc_fail("other-params", "%s instead of %s", mc_q(o[0]), W[op]); }
        if ((op == 11 || op == 12) && x != 5) mc_fail("amount", "wrong"); if (op == 12 && (!o[0] || strcmp(o[0], "p"))) mc_fail("other-answer", "no preimage"); if (op == 13) { for (int i = 0; i < 4; i++) if (!o[i] || o[i][0] != "abcd"[i]) mc_fail("other-answer", "output %d", i); if (y != 6) mc_fail("amount", "height"); want_words("methods", "m n", l[0], n[0]); } }
    fault_resume(p); if (r == NOSTR_OK) { for (int i = 0; i < 4; i++) if (o[i] != UNS) free(o[i]); for (int i = 0; i < 3; i++) if (l[i] != UNL) free_words(l[i], n[i]); if (d != (void *)UNS) nostr_nip47_free_connection(d); if (e) nostr_event_destroy(e); } fault_track(0); if (fault_live()) mc_fail("leak", "operation %d returned %d: %s", op, r, fault_live_desc()); if (c) nostr_nip47_free_connection(c); if (in) nostr_event_destroy(in); mc_conform();
}
static void missing(void)
{
    begin(); struct nwc_connection *c = conn(0, 1), *d; nostr_event *e = NULL, *in = answer(23195, 1, 0, RTEXT[0], strlen(RTEXT[0]), 1, "nip44_v2"), *no = answer(23197, 1, 0, NTEXT[0], strlen(NTEXT[0]), 1, NULL); char *o = NULL; uint64_t x; uint32_t y; size_t n; char **l; nostr_error_t r = NOSTR_OK; int ok = 0; static const char *const INV[] = { "m" }; time_t tm = 5; (void)l; (void)n; (void)tm; (void)y;
    switch (mc_choose(26)) { case 0: r = nostr_nip47_parse_connection_uri(NULL, &d); break; case 1: r = nostr_nip47_parse_connection_uri("nostr+walletconnect://", NULL); break; case 2: nostr_nip47_free_connection(NULL); ok = 1; break; case 3: r = nostr_nip47_create_request_event(NULL, c, "a", "{}", 1); break; case 4: r = nostr_nip47_create_request_event(&e, NULL, "a", "{}", 1); break; case 5: r = nostr_nip47_create_request_event(&e, c, NULL, "{}", 1); break; case 6: r = nostr_nip47_create_request_event(&e, c, "a", NULL, 1); break; case 7: r = nostr_nip47_parse_response_event(NULL, &SK[0], &o, NULL, NULL, NULL); break; case 8: r = nostr_nip47_parse_response_event(in, NULL, &o, NULL, NULL, NULL); break; case 9: r = nostr_nip47_parse_notification_event(NULL, &SK[0], &o, NULL); break; case 10: r = nostr_nip47_parse_notification_event(no, NULL, &o, NULL); break; case 11: r = nostr_nip47_parse_info_event(NULL, NULL, NULL, NULL, NULL, NULL, NULL); break;
    case 12: r = nostr_nip47_create_pay_invoice_params(NULL, "x", NULL); break; case 13: r = nostr_nip47_create_get_balance_params(NULL); break; case 14: r = nostr_nip47_create_make_invoice_params(NULL, 1, NULL, NULL, NULL); break; case 15: r = nostr_nip47_create_list_transactions_params(NULL, NULL, NULL, NULL, NULL, NULL, NULL); break; case 16: r = nostr_nip47_create_lookup_invoice_params(NULL, "x", NULL); break; case 17: r = nostr_nip47_create_pay_keysend_params(NULL, 1, "x", NULL, NULL, 0); break; case 18: r = nostr_nip47_create_multi_pay_invoice_params(NULL, NULL, (const char **)INV, NULL, 1); break; case 19: r = nostr_nip47_create_get_info_params(NULL); break; case 20: r = nostr_nip47_parse_balance_response(NULL, &x); break; case 21: r = nostr_nip47_parse_balance_response("{\"balance\":1}", NULL); break; case 22: r = nostr_nip47_parse_pay_invoice_response(NULL, &o, &x); break; case 23: r = nostr_nip47_parse_info_response(NULL, &o, NULL, NULL, NULL, NULL, NULL, NULL); break;
    case 24: { nostr_event *b = refev_new(); b->kind = 23195; const char *E[] = { "encryption", "nip44_v2" }; nostr_event_add_tag(b, E, 2); r = nostr_nip47_parse_response_event(b, &SK[0], &o, NULL, NULL, NULL); break; } case 25: { nostr_event *b = refev_new(); b->kind = 23197; r = nostr_nip47_parse_notification_event(b, &SK[0], &o, NULL); break; } }
    mc_step(); if (!ok && r == NOSTR_OK) mc_fail("missing", "a missing argument is accepted"); if (e || o) mc_fail("output-on-error", "something is handed out"); nostr_nip47_free_connection(c); nostr_event_destroy(in); nostr_event_destroy(no); mc_conform();
}
const mc_scenario mc_scenarios[] = {
    { "uris", uris, setup, 3, 0, "connection URIs: all arrangements of 1-4 of 9 parts" },
    { "uri-chars", uri_chars, setup, 3, 60, "every character of a connection URI replaced by every other, left out, doubled; every truncation" },
    { "uri-keys", uri_keys, setup, 3, 0, "keys inside and outside the group; up to 40 relays" },
    { "requests", requests, setup, 3, 0, "keys x 10 methods x 25 parameters; read by all pairs of parties" },
    { "sizes", sizes, setup, 3, 60, "methods and parameters around 256, 8192 and 65535 bytes" },
    { "old-encryption", old_encryption, setup, 3, 0, "requests without NIP-44" },
    { "responses", responses, setup, 3, 0, "27 answers x readers x kinds x tags x wanted outputs" },
    { "notifications", notifications, setup, 3, 0, "13 notifications x readers x kinds x outputs" },
    { "tampered", tampered, setup, 3, 0, "every character of an answer altered, every truncation, other authors" },
    { "infos", infos, setup, 3, 0, "info events: 8 x 8 x 8 word lists x shapes x outputs" },
    { "params", params, setup, 3, 0, "eight kinds of parameters x strings x amounts up to 2^64-1 x records" },
    { "results", results, setup, 3, 0, "balances and payments: 24 numbers x names x preimages" },
    { "wallets", wallets, setup, 3, 0, "wallet descriptions" },
    { "faults", faults, setup, 3, 0, "one (two) failures of memory, generator or backend in each of 14 operations" },
    { "missing", missing, setup, 3, 0, "missing arguments" },
    MC_END };
