/* C11: relay messages serialize to the exact JSON or report a too-small buffer.
 * Reference: the expected text written out independently, and an independent JSON reader on the result. */
#include "judge.h"
#include "fault.h"
#include "guard.h"

static void setup(void) { fault_install(); nostr_init(); }
static char X[600000]; static size_t xn;
static void put(const char *s) { size_t n = strlen(s); memcpy(X + xn, s, n + 1); xn += n; }
static void puts_(const char *s)
{
    put("\""); for (; *s; s++) { unsigned char c = *s; char b[8]; const char *q = NULL;
        switch (c) { case '"': q = "\\\""; break; case '\\': q = "\\\\"; break; case '\b': q = "\\b"; break; case '\f': q = "\\f"; break; case '\n': q = "\\n"; break; case '\r': q = "\\r"; break; case '\t': q = "\\t"; break; }
        if (q) put(q); else if (c < 32) { sprintf(b, "\\u%04x", c); put(b); } else { b[0] = c; b[1] = 0; put(b); } }
    put("\"");
}
static void cut(char *o, const char *s, size_t cap) { size_t n = strnlen(s, cap); memcpy(o, s, n); o[n] = 0; }
static const nostr_event *XE;
enum { EVENT, OK_, EOSE, CLOSED, NOTICE, AUTH, COUNT, NT };
static const char *const NM[] = { "EVENT", "OK", "EOSE", "CLOSED", "NOTICE", "AUTH", "COUNT" };
/* builds the message with the library and the expected text independently; text a (id), b (message), n count, f flag */
static void build(nostr_relay_msg_t *m, int t, const char *a, const char *b, int64_t n, int f, const nostr_event *e)
{
    char s[300]; memset(m, 0xEE, sizeof *m); xn = 0; put("["); char num[90]; XE = NULL;
    switch (t) {
    case EVENT: nostr_relay_msg_event(m, a, e); put("\"EVENT\","); cut(s, a, 64); puts_(s); put(","); XE = e; break;
    case OK_: nostr_relay_msg_ok(m, a, f, b); put("\"OK\","); cut(s, a, 64); puts_(s); put(f ? ",true," : ",false,"); cut(s, b, 255); puts_(s); break;
    case EOSE: nostr_relay_msg_eose(m, a); put("\"EOSE\","); cut(s, a, 64); puts_(s); break;
    case CLOSED: nostr_relay_msg_closed(m, a, b); put("\"CLOSED\","); cut(s, a, 64); puts_(s); put(","); cut(s, b, 255); puts_(s); break;
    case NOTICE: nostr_relay_msg_notice(m, b); put("\"NOTICE\","); cut(s, b, 255); puts_(s); break;
    case AUTH: nostr_relay_msg_auth(m, b); put("\"AUTH\","); cut(s, b, 127); puts_(s); break;
    default: nostr_relay_msg_count(m, a, n, f); put("\"COUNT\","); cut(s, a, 64); puts_(s); sprintf(num, ",{\"count\":%lld%s}", (long long)(n < 0 ? 0 : n), f ? ",\"approximate\":true" : ""); put(num);
    }
    if (t != EVENT) put("]");
}
/* exact text, or for EVENT: prefix + an object equal to the event, nothing else */
static void verify(const nostr_relay_msg_t *m, int t, const char *bf, size_t L, const char *what)
{
    (void)m;
    if (strlen(bf) != L) mc_fail("length", "%s %s: reported %zu, text has %zu", NM[t], what, L, strlen(bf));
    rj_reset(); const rj *o = rj_parse(bf, L, 0);
    if (!o || o->t != RJ_ARR) mc_fail("not-json", "%s %s: %s", NM[t], what, mc_q(bf));
    if (t == EVENT) {
        if (strncmp(bf, X, xn) || o->count != 3) mc_fail("text", "%s %s: %s", NM[t], what, mc_q(bf));
        const rj *ev = o->child->next->next; const char *why = "";
        if (ev->count != 7 || !fields_match(XE, ev, &why) || jev_judge(ev, 1) == MUST_FAIL) mc_fail("event", "%s: event %s differs in %s", what, why, mc_q(bf));
        if (rj_get(ev, "created_at")->i != XE->created_at || !rj_get(ev, "created_at")->is_int) mc_fail("event", "%s: created_at differs in %s", what, mc_q(bf));
    } else if (L != xn || strcmp(bf, X)) mc_fail("text", "%s %s: wrote %s, expected %s", NM[t], what, mc_q(bf), mc_q(X));
}
static uint64_t whole(const nostr_relay_msg_t *m, int t, const char *what, size_t *len)
{
    static char big[700000]; size_t L = 77; fault_reset(); fault_track(1);
    nostr_relay_error_t r = nostr_relay_msg_serialize(m, big, sizeof big, &L); mc_step();
    if (r != NOSTR_RELAY_OK) mc_fail("refused", "%s %s: %d", NM[t], what, r);
    verify(m, t, big, L, what); *len = L;
    char *g = guard_buf(1, L + 1); size_t l2 = 99; r = nostr_relay_msg_serialize(m, g, L + 1, &l2); mc_step();
    if (r != NOSTR_RELAY_OK || l2 != L || strcmp(g, big) || guard_under(g)) mc_fail("exact-size", "%s %s: into %zu+1 bytes: %d, length %zu", NM[t], what, L, r, l2);
    r = nostr_relay_msg_serialize(m, g, L + 1, NULL); if (r != NOSTR_RELAY_OK || strcmp(g, big)) mc_fail("no-length", "%s %s without a length pointer: %d", NM[t], what, r);
    if (L) { g = guard_buf(1, L); l2 = 99; r = nostr_relay_msg_serialize(m, g, L, &l2); if (r != NOSTR_RELAY_ERR_BUFFER_TOO_SMALL) mc_fail("too-small", "%s %s: %zu characters into %zu bytes: %d", NM[t], what, L, L, r); }
    if (fault_live()) mc_fail("leak", "%s %s: %s", NM[t], what, fault_live_desc());
    fault_track(0); uint64_t h = mc_hash_str(MC_H0, big); mc_state(h); mc_outcome(h); mc_eval(1); return h;
}
static nostr_event *ev0(void) { nostr_event *e = refev_new(); for (int i = 0; i < 32; i++) e->id[i] = i * 7, e->pubkey.data[i] = 200 - i; for (int i = 0; i < 64; i++) e->sig[i] = i; return e; }
/* every byte pair in every text */
static void texts(void)
{
    int t = mc_choose(NT), c = mc_choose(255) + 1, which = mc_choose(2); nostr_event *e = ev0(); nostr_event_set_content(e, "hi");
    if ((t == EVENT || t == EOSE || t == COUNT) ? which : (t == NOTICE || t == AUTH) ? !which : 0) mc_discard();
    size_t L; nostr_relay_msg_t m;
    for (int d = 0; d < 256; d++) { char s[4] = { c, d, d ? 'z' : 0, 0 }; build(&m, t, which ? "id" : s, which ? s : "msg", 5, 1, e); whole(&m, t, "byte pair", &L); }
    nostr_event_destroy(e); mc_conform();
}
/* every text length around the structure's limits */
static void lengths(void)
{
    int t = mc_choose(NT), n = mc_choose(330), k = mc_choose(4); static const char *const CH[] = { "a", "\"", "\x01", "\xc3\xa9" };
    static char s[1000]; size_t p = 0; for (int i = 0; i < n; i++) { memcpy(s + p, CH[k], strlen(CH[k])); p += strlen(CH[k]); } s[p] = 0;
    if (k == 3) { s[n] = 0; }
    nostr_event *e = ev0(); nostr_relay_msg_t m; size_t L;
    build(&m, t, s, "m", -1, 0, e); whole(&m, t, "long id", &L); build(&m, t, "i", s, 1, 0, e); whole(&m, t, "long message", &L);
    nostr_event_destroy(e); mc_conform();
}
/* every buffer size from 0 to needed+2 for representative messages */
static void sizes(void)
{
    int t = mc_choose(NT), v = mc_choose(5); nostr_event *e = ev0(); static const char *const A[] = { "", "sub", "a\"b", "0123456789012345678901234567890123456789012345678901234567890123", "\x1f\x1f\x1f" };
    static const char *const B[] = { "", "error: x", "\\\"\n", "restricted: \xe2\x82\xac\x01\x02", "x" }; nostr_relay_msg_t m; size_t L;
    nostr_event_set_content(e, B[v]); refev_tag(e, 2, "t", A[v], 0, 0);
    build(&m, t, A[v], B[v], v == 4 ? INT64_MAX : v, v & 1, e); uint64_t h = whole(&m, t, "size", &L); static char want[5000]; nostr_relay_msg_serialize(&m, want, sizeof want, NULL);
    for (size_t z = 0; z <= L + 2; z++) {
        char *g = guard_buf(1, z ? z : 1); memset(g, 'Z', z ? z : 1); size_t l = 99; fault_reset(); fault_track(1); nostr_relay_error_t r = nostr_relay_msg_serialize(&m, g, z, &l); mc_step();
        if (z <= L) { if (r == NOSTR_RELAY_OK || (z && r != NOSTR_RELAY_ERR_BUFFER_TOO_SMALL)) mc_fail("too-small", "%s: %zu characters into %zu bytes: %d", NM[t], L, z, r); if (!z && g[0] != 'Z') mc_fail("overrun", "%s: wrote into an empty buffer", NM[t]); if (z && l != L && l != 99) mc_fail("too-small-length", "%s: needs %zu, reported %zu", NM[t], L, l); }
        else if (r != NOSTR_RELAY_OK || l != L || strcmp(g, want)) mc_fail("size-dependent", "%s: buffer of %zu gives %d / %s", NM[t], z, r, mc_q(g));
        if (guard_under(g)) mc_fail("underrun", "%s: wrote before the buffer of %zu", NM[t], z);
        if (fault_live()) mc_fail("leak", "%s: size %zu: %s", NM[t], z, fault_live_desc());
        fault_track(0); mc_outcome(mc_hash_u64(h, z <= L));
    }
    MC_NOTE("%s: sizes 0..%zu", NM[t], L + 2); nostr_event_destroy(e); mc_conform();
}
static void counts(void)
{
    int k = mc_choose(128); int64_t n = k < 64 ? (int64_t)1 << (k % 63) : -((int64_t)1 << (k % 63)); nostr_relay_msg_t m; size_t L;
    for (int d = -2; d <= 2; d++) for (int f = 0; f < 2; f++) { build(&m, COUNT, "c", "", n + d, f, NULL); whole(&m, COUNT, "count", &L); }
    build(&m, COUNT, "c", "", k ? INT64_MAX : INT64_MIN, 0, NULL); whole(&m, COUNT, "count", &L);
    int64_t p = 1; for (int i = 0; i < k % 19; i++) p *= 10; for (int d = -1; d <= 1; d++) { build(&m, COUNT, "c", "", p + d, 1, NULL); whole(&m, COUNT, "count", &L); } mc_conform();
}
/* events of every shape inside EVENT */
static void events(void)
{
    static const char *const S[] = { "", "a", "\"\\", "\x01\n", " { } [ ] , : ", "/* c */ // x", "\xf0\x9f\x98\x80", "\\\" // \"" }; static const int64_t T[] = { 0, 1, -1, 1700000000, INT64_MAX, INT64_MIN, 9007199254740993LL };
    nostr_event *e = ev0(); const char *id = MC_PICK(S), *c = MC_PICK(S); int nt = mc_choose(3); e->created_at = MC_PICK(T); e->kind = mc_choose(2) * 65535; nostr_event_set_content(e, c);
    for (int i = 0; i < nt; i++) { const char *a = MC_PICK(S); refev_tag(e, 1 + i, a, c, a, 0); }
    nostr_relay_msg_t m; size_t L; build(&m, EVENT, id, "", 0, 0, e); 
    if (e->created_at > (int64_t)MAXI || e->created_at < -(int64_t)MAXI) { static char bf[4000]; char w[60]; MC_CHECK(nostr_relay_msg_serialize(&m, bf, sizeof bf, &L) == 0, "refused", "created_at %lld", (long long)e->created_at); sprintf(w, "%lld", (long long)e->created_at); MC_CHECK(strstr(bf, w), "created_at", "%s lacks %s", mc_q(bf), w); }
    else whole(&m, EVENT, "event shape", &L);
    nostr_event_destroy(e); mc_conform();
}
/* content sizes up to hundreds of kilobytes */
static void bigs(void)
{
    int k = mc_choose(40), t = mc_choose(2); static char c[150000]; int n = k < 20 ? 1 << (k % 18) : (1 << (k % 17)) - 1; memset(c, t ? '\x01' : 'x', n); c[n] = 0; if (t && n > 90000) mc_discard();
    nostr_event *e = ev0(); nostr_event_set_content(e, c); nostr_relay_msg_t m; size_t L; build(&m, EVENT, "s", "", 0, 0, e); whole(&m, EVENT, "content size", &L); nostr_event_destroy(e); mc_conform();
}
static void oom(void)
{
    mc_set_dev_bound(mc_thorough() ? 2 : 1); int t = mc_choose(NT); nostr_event *e = ev0(); refev_tag(e, 2, "t", "v", 0, 0); nostr_event_set_content(e, "c"); nostr_relay_msg_t m; build(&m, t, "id", "msg", 7, 1, e);
    fault_reset(); fault_track(1); fault_arm(); static char b[4000]; size_t L = 0; nostr_relay_error_t r = nostr_relay_msg_serialize(&m, b, sizeof b, &L); fault_disarm(); mc_step(); MC_NOTE("%s with %d failed allocations: %d", NM[t], fault_injected(), r);
    if (r == NOSTR_RELAY_OK) verify(&m, t, b, L, "out of memory"); else MC_CHECK(fault_injected(), "refused", "%d", r);
    MC_CHECK(!fault_live(), "leak", "%s", fault_live_desc()); nostr_event_destroy(e); mc_outcome(mc_hash_u64(t, r)); mc_conform();
}
static void odd(void)
{
    nostr_relay_msg_t m; char b[200]; size_t L = 0; int k = mc_choose(300); memset(&m, 0, sizeof m); m.type = (nostr_relay_msg_type_t)(k - 20);
    nostr_relay_error_t r = nostr_relay_msg_serialize(&m, b, sizeof b, &L);
    if (k - 20 < 0 || k - 20 >= NT || k - 20 == EVENT) MC_CHECK(r != NOSTR_RELAY_OK, "odd-type", "type %d serialized", k - 20); else MC_CHECK(r == NOSTR_RELAY_OK, "empty", "%d", r);
    MC_CHECK(nostr_relay_msg_serialize(NULL, b, 10, &L) != 0 && nostr_relay_msg_serialize(&m, NULL, 10, &L) != 0, "null", "accepted");
    nostr_relay_msg_event(&m, NULL, NULL); nostr_relay_msg_ok(&m, NULL, 1, NULL); MC_CHECK(nostr_relay_msg_serialize(&m, b, sizeof b, &L) == 0 && !strcmp(b, "[\"OK\",\"\",true,\"\"]"), "null-text", "%s", b);
    nostr_relay_msg_ok(NULL, NULL, 1, NULL); nostr_relay_msg_notice(&m, NULL); MC_CHECK(nostr_relay_msg_serialize(&m, b, sizeof b, &L) == 0 && !strcmp(b, "[\"NOTICE\",\"\"]"), "null-text", "%s", b); mc_outcome(k); mc_conform();
}
const mc_scenario mc_scenarios[] = {
    {"texts", texts, setup, 3, 0, "every byte pair in every text of every message type"},
    {"lengths", lengths, setup, 3, 0, "text lengths 0..329"},
    {"sizes", sizes, setup, 3, 0, "every buffer size 0..needed+2 for 35 messages"},
    {"counts", counts, setup, 3, 0, "counts around every power of two and ten"},
    {"events", events, setup, 3, 0, "event shapes inside EVENT"},
    {"bigs", bigs, setup, 3, 0, "contents up to 128 KiB"},
    {"oom", oom, setup, 3, 0, "every single (pair of) failing allocation(s)"},
    {"odd", odd, setup, 3, 0, "unknown types and absent arguments"},
    MC_END
};
