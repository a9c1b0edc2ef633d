/* C37: gift wraps (NIP-59) and private direct messages (NIP-17): what is wrapped is what the recipient, and
 * nobody else, reads, from the author who sealed it. Every layer is opened and written by the reference. */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rj.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include "../lib/party.h"
#include "../lib/noscrypt/noscrypt.h"
#include <time.h>
static int64_t NOW = 1700000000; time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
static int ossl, nc_armed;
static int nc_fault(const char *fn) { if (!nc_armed || !mc_in_execution()) return 0; if (mc_choose_dev(2)) { MC_NOTE("%s fails", fn); return 1; } return 0; }
static nostr_event *const UNSET = (nostr_event *)0x5a5a;
static void begin(void) { rng_reset(); fault_reset(); rj_reset(); nc_armed = 0; NOW = 1700000000; }
static void setup(void)
{
    static int once; if (once) return; once = 1; fault_install(); party_setup(); rng_reset(); nostr_init(); ncshim_fault = nc_fault;
    nostr_event *w = NULL, *r = NULL; if (nostr_nip17_send_dm(&w, "x", &SK[0], &PK[1], NULL, NULL, 0) == NOSTR_OK) { if (nostr_nip17_unwrap_dm(w, &SK[1], &r, NULL) == NOSTR_OK) nostr_event_destroy(r); nostr_event_destroy(w); }   /* lazy initialization is not under test */
}
static void setup_ossl(void) { ossl = fault_openssl(); setup(); }

/* ---- reading events ---- */
static int hexm(const rj *o, const char *k, size_t n, uint8_t *out) { rj *v = rj_get(o, k); return v && v->t == RJ_STR && v->n == 2 * n && !ref_unhex(v->s, 2 * n, out); }
static nostr_event *readev(const uint8_t *text, size_t n, int rumor, const char *what)
{
    rj *o = rj_parse((const char *)text, n, 0); nostr_event *e = refev_new(); if (!o || o->t != RJ_OBJ) mc_fail("not-json", "%s is not JSON: %s", what, mc_qn((const char *)text, n)); memset(e->sig, 0, 64);
    rj *k = rj_get(o, "kind"), *c = rj_get(o, "created_at"), *s = rj_get(o, "content"), *t = rj_get(o, "tags"), *g = rj_get(o, "sig");
    if (!hexm(o, "pubkey", 32, e->pubkey.data) || !hexm(o, "id", 32, e->id) || !k || !k->is_int || !c || !c->is_int || !s || s->t != RJ_STR || !t || t->t != RJ_ARR) mc_fail("not-event", "%s is not an event: %s", what, mc_qn((const char *)text, n));
    if (g && g->n && !hexm(o, "sig", 64, e->sig)) mc_fail("not-event", "%s has a malformed signature", what); if (!rumor && (!g || !g->n)) mc_fail("unsigned", "%s is not signed", what);
    e->kind = (uint16_t)k->i; e->created_at = c->i; if (nostr_event_set_content(e, s->s) != NOSTR_OK) mc_fail("harness", "content");
    for (rj *x = t->child; x; x = x->next) { const char *v[64]; int m = 0; for (rj *y = x->child; y && m < 64; y = y->next) v[m++] = y->s; if (nostr_event_add_tag(e, v, (size_t)m) != NOSTR_OK) mc_fail("harness", "tag"); }
    uint8_t id[32]; refev_id(e, id); if (memcmp(id, e->id, 32)) mc_fail("id", "the id of %s is not its hash", what);
    return e;
}
static void same(const nostr_event *a, const nostr_event *b, int sig, const char *what)
{
    if (a->kind != b->kind || a->created_at != b->created_at || memcmp(a->pubkey.data, b->pubkey.data, 32) || strcmp(a->content ? a->content : "", b->content ? b->content : "") || a->tags_count != b->tags_count || (sig && memcmp(a->sig, b->sig, 64)) || memcmp(a->id, b->id, 32)) { ref_buf x = { 0 }, y = { 0 }; refev_json(&x, a); refev_json(&y, b); mc_fail("other-message", "%s is %s instead of %s", what, mc_q(x.s), mc_q(y.s)); }
    for (size_t i = 0; i < a->tags_count; i++) { int bad = a->tags[i].count != b->tags[i].count; for (size_t j = 0; !bad && j < a->tags[i].count; j++) bad = !!strcmp(a->tags[i].values[j], b->tags[i].values[j]); if (bad) mc_fail("other-tags", "%s: tag %zu differs", what, i); }
}
static void in_window(int64_t t, const char *what) { if (t > NOW || t <= NOW - 2 * 86400) mc_fail("timestamp", "the time of %s is %lld, now being %lld", what, (long long)t, (long long)NOW); }
static nostr_event *seal_ok(nostr_event *s, int from) { if (s->kind != 13 || s->tags_count || memcmp(s->pubkey.data, PK[from].data, 32) || !party_signed(s)) mc_fail("seal", "the seal is of kind %d by %s with %zu tags, %ssigned", s->kind, mc_hex(s->pubkey.data, 32), s->tags_count, party_signed(s) ? "" : "not "); in_window(s->created_at, "the seal"); return s; }
static void no_word(const char *hay, const char *needle, const char *what) { if (strlen(needle) > 3 && strstr(hay, needle)) mc_fail("revealed", "the wrap shows %s", what); }
/* the wrap: everything a relay sees, then both layers */
static void check_wrap(const nostr_event *w, int from, int to, const nostr_event *want, int sig, int extra)
{
    char pt[65]; if (w->kind != 1059 || !party_signed(w)) mc_fail("wrap", "the gift wrap is of kind %d, %ssigned", w->kind, party_signed(w) ? "" : "not "); for (int i = 0; i < NK; i++) if (!memcmp(w->pubkey.data, PK[i].data, 32)) mc_fail("not-ephemeral", "the gift wrap is by a party's key");
    strcpy(pt, PKH[to]); if (w->tags_count != 1 + (size_t)extra || w->tags[0].count < 2 || strcmp(w->tags[0].values[0], "p") || strcmp(w->tags[0].values[1], pt)) mc_fail("wrap-tags", "the wrap does not name exactly its recipient (%zu tags)", w->tags_count);
    in_window(w->created_at, "the gift wrap"); if (from != to) { ref_buf j = { 0 }; refev_json(&j, w); no_word(j.s, PKH[from], "its author"); rb_free(&j); }
    size_t n; uint8_t *t = party_open44(SK[to].data, w->pubkey.data, w->content, &n); if (!t) mc_fail("wrap-content", "the recipient cannot open the wrap"); nostr_event *s = seal_ok(readev(t, n, 0, "the seal"), from); free(t);
    t = party_open44(SK[to].data, s->pubkey.data, s->content, &n); if (!t) mc_fail("seal-content", "the recipient cannot open the seal"); nostr_event *r = readev(t, n, 1, "the rumor"); free(t);
    same(r, want, sig, "the wrapped message"); if (!sig) { static const uint8_t Z[64]; if (memcmp(r->sig, Z, 64)) mc_fail("signed-rumor", "the rumor is signed"); }
    nostr_event_destroy(r); nostr_event_destroy(s);
}
enum { DM, EV };
static nostr_error_t unwrap(int api, const nostr_event *w, int to, nostr_event **r, nostr_key *a) { return api == DM ? nostr_nip17_unwrap_dm(w, &SK[to], r, a) : nostr_nip59_unwrap_event(w, &SK[to], r, a); }
static void opens(const nostr_event *w, int from, int to, const nostr_event *want, int sig)
{
    for (int api = 0; api < 2; api++) for (int who = 0; who < NK; who++) for (int noauth = 0; noauth < (who == to ? 2 : 1); noauth++)
    {
        nostr_event *r = UNSET; nostr_key a; memset(&a, 0xEE, sizeof a); nostr_error_t e = unwrap(api, w, who, &r, noauth ? NULL : &a); mc_eval(1);
        if (who != to) { if (e == NOSTR_OK) mc_fail("opened-by-other", "party %d opens a message for party %d", who, to); if (r != UNSET && r) mc_fail("output-on-error", "a failed unwrap hands out an event"); continue; }
        if (e != NOSTR_OK) mc_fail("not-opened", "the recipient does not open the message: %d", e); same(r, want, sig, "the unwrapped message"); if (!noauth && memcmp(a.data, PK[from].data, 32)) mc_fail("author", "the author is %s", mc_hex(a.data, 32)); nostr_event_destroy(r);
    }
    mc_outcome(refev_hash(want)); mc_conform();
}
static char *LONG; static const char *text(int i)
{
    if (!LONG) { LONG = malloc(40001); memset(LONG, 'q', 40000); LONG[40000] = 0; }
    static const char *const T[] = { "", "x", "Hello, nobody", "quote \" back \\ slash / tab \t nl \n cr \r bell \a", "\xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80", "{\"kind\":1,\"pubkey\":\"00\"}", NULL }; return i < 6 ? T[i] : LONG + 40000 - 1000 * (i - 5);
}
/* ---- NIP-17 send ---- */
static nostr_event *dm(int from, int to, const char *content, const char *subject, const uint8_t *reply, int64_t at) { nostr_event *e = refev_new(); e->kind = 14; e->created_at = at; e->pubkey = PK[from]; nostr_event_set_content(e, content); refev_tag(e, 2, "p", PKH[to], 0, 0); if (subject) refev_tag(e, 2, "subject", subject, 0, 0); if (reply) { char h[65]; ref_hex(reply, 32, h); refev_tag(e, 2, "e", h, 0, 0); } memset(e->sig, 0, 64); refev_id(e, e->id); return e; }
static void send(void)
{
    begin(); int from = mc_choose(NK), to = mc_choose(NK), c = mc_choose(6), s = mc_choose(4), r = mc_choose(3); static const int64_t AT[] = { 0, 1, 1699999999, 4102444800 }; int64_t at = MC_PICK(AT);
    static const char *const S[] = { NULL, "", "subject", "\"\\\n\xc3\xa9" }; uint8_t id[32]; memset(id, r == 1 ? 0 : 0xA9, 32); nostr_event *w = UNSET; nostr_error_t e = nostr_nip17_send_dm(&w, text(c), &SK[from], &PK[to], S[s], r ? id : NULL, at); mc_step();
    if (e != NOSTR_OK) mc_fail("send", "sending fails: %d", e); nostr_event *want = dm(from, to, text(c), S[s], r ? id : NULL, at ? at : NOW); check_wrap(w, from, to, want, 0, 0); opens(w, from, to, want, 0); nostr_event_destroy(want); nostr_event_destroy(w);
}
/* ---- every kind of event through each way of wrapping ---- */
static void ways(void)
{
    begin(); int way = mc_choose(5), from = mc_choose(NK), to = mc_choose(NK), shape = mc_choose(7), c = mc_choose(6); static const int KI[] = { 0, 1, 13, 14, 1059, 30023, 65535 }; int kind = MC_PICK(KI), extra = 0; mc_step();
    nostr_event *ev, *s = NULL, *w = UNSET; nostr_error_t e = NOSTR_OK;
    if (way == 0) { ev = refev_new(); ev->pubkey = PK[from]; ev->kind = (uint16_t)kind; nostr_event_set_content(ev, text(c)); if (shape > 0) refev_tag(ev, 1, "t", 0, 0, 0); if (shape > 1) refev_tag(ev, 4, "e", "x", "", "\"r\\"); if (shape > 2) for (int i = 0; i < 20; i++) refev_tag(ev, 2, "p", PKH[i % NK], 0, 0); if (shape > 3) party_sign(ev, SK[from].data); else refev_id(ev, ev->id); if (shape < 4) memset(ev->sig, 0, 64);
        if (shape > 4) mc_discard(); e = nostr_nip59_wrap_event(&w, ev, &SK[from], &PK[to]); }
    else {
        ev = UNSET; int64_t at = shape & 1 ? 77 : 0; if (way < 3) e = nostr_nip59_create_rumor(&ev, (uint16_t)kind, &PK[from], c == 0 && shape == 6 ? NULL : text(c)); else e = nostr_nip17_create_rumor(&ev, (uint16_t)kind, &PK[from], text(c), at); if (e != NOSTR_OK) mc_fail("rumor", "creating a rumor fails: %d", e);
        nostr_event *x = refev_new(); x->kind = (uint16_t)kind; x->pubkey = PK[from]; x->created_at = way < 3 || !at ? NOW : at; nostr_event_set_content(x, text(c)); memset(x->sig, 0, 64); refev_id(x, x->id); same(ev, x, 1, "the created rumor"); nostr_event_destroy(x);
        e = way & 1 ? nostr_nip59_create_seal(&s, ev, &SK[from], &PK[to]) : nostr_nip17_create_seal(&s, ev, &SK[from], &PK[to]); if (e != NOSTR_OK) mc_fail("seal", "sealing fails: %d", e); seal_ok(s, from);
        static const char *const X[] = { "expiration", "1700000001", "k", "", "t", "\"x" }; if (way < 3) { extra = shape > 3 ? 0 : shape; e = nostr_nip59_create_gift_wrap(&w, s, &PK[to], shape == 4 ? NULL : X, shape == 4 ? 0 : 2 * (size_t)extra); if (e == NOSTR_OK && (shape == 5)) mc_stop(); } else e = nostr_nip17_create_gift_wrap(&w, s, &PK[to]);
        if (e == NOSTR_OK) for (int i = 0; i < extra; i++) if (w->tags_count != 1 + (size_t)extra || w->tags[1 + i].count != 2 || strcmp(w->tags[1 + i].values[0], X[2 * i]) || strcmp(w->tags[1 + i].values[1], X[2 * i + 1])) mc_fail("extra-tags", "the extra tags are not those given"); nostr_event_destroy(s);
    }
    if (e != NOSTR_OK) mc_fail("wrap", "wrapping fails: %d", e); int sig = way == 0 && shape > 3; check_wrap(w, from, to, ev, sig, extra); opens(w, from, to, ev, sig); nostr_event_destroy(ev); nostr_event_destroy(w);
}
static void sizes(void)   /* messages up to what two layers can carry, and beyond */
{
    begin(); int k = mc_choose(40); char *t = malloc(70001); for (int j = 0; j < 1; j++) { size_t n = (size_t)(20000 + 1000 * k + j); memset(t, 'm', n); t[n] = 0; nostr_event *w = UNSET; fault_track(1); nostr_error_t e = nostr_nip17_send_dm(&w, t, &SK[0], &PK[1], NULL, NULL, 5); fault_track(0); mc_eval(1); mc_step(); if (e == NOSTR_OK) { nostr_event *want = dm(0, 1, t, NULL, NULL, 5); check_wrap(w, 0, 1, want, 0, 0); opens(w, 0, 1, want, 0); nostr_event_destroy(want); nostr_event_destroy(w); } else { if (n < 34000) mc_fail("send", "%zu characters cannot be sent: %d", n, e); if (w != UNSET && w) mc_fail("output-on-error", "a failed send hands out an event"); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); } }
    free(t); mc_conform();
}
/* ---- timestamps and keys ---- */
static void offsets(void)
{
    begin(); static const uint32_t V[] = { 1, 172799, 172800, 172801, 345599, 345600, 0x7fffffff, 0x80000000u, 0xfffffffe, 0xffffffff, 86400, 0x01000000 }; static const int64_t N[] = { 1700000000, 4102444800, 1LL << 40, 200000 }; uint32_t v = MC_PICK(V); NOW = MC_PICK(N); int way = mc_choose(2); uint8_t st[400]; for (int i = 0; i < 100; i++) memcpy(st + 4 * i, &v, 4);
    int skip = mc_choose(40); rng_script(st, sizeof st); { uint8_t b[4]; for (int i = 0; i < skip; i++) { extern int RAND_bytes(unsigned char *, int); RAND_bytes(b, 4); } } nostr_event *w = UNSET; nostr_event *ev = dm(2, 1, "t", NULL, NULL, NOW); nostr_error_t e = way ? nostr_nip59_wrap_event(&w, ev, &SK[2], &PK[1]) : nostr_nip17_send_dm(&w, "t", &SK[2], &PK[1], NULL, NULL, 0); mc_step();
    if (e != NOSTR_OK) { if (v < 0xfffffff0u) mc_fail("send", "fails: %d", e); } else { check_wrap(w, 2, 1, ev, 0, 0); nostr_event_destroy(w); } nostr_event_destroy(ev); mc_conform();
}
static void spread(void)  /* the hidden times are spread over the two days and independent of each other; the wrap keys are fresh */
{
    begin(); int way = mc_choose(2); static int64_t ts[64], tw[64]; static uint8_t key[64][32]; int lo = 0, hi = 0, eq = 0; nostr_event *ev = dm(0, 1, "t", NULL, NULL, NOW);
    for (int i = 0; i < 64; i++) { nostr_event *w = UNSET; nostr_error_t e = way ? nostr_nip59_wrap_event(&w, ev, &SK[0], &PK[1]) : nostr_nip17_send_dm(&w, "t", &SK[0], &PK[1], NULL, NULL, 0); mc_eval(1); if (e != NOSTR_OK) mc_fail("send", "fails: %d", e); size_t n; uint8_t *t = party_open44(SK[1].data, w->pubkey.data, w->content, &n); if (!t) mc_fail("wrap-content", "cannot open"); nostr_event *s = readev(t, n, 0, "the seal"); free(t); ts[i] = s->created_at; tw[i] = w->created_at; memcpy(key[i], w->pubkey.data, 32); for (int j = 0; j < i; j++) if (!memcmp(key[i], key[j], 32)) mc_fail("key-reused", "two gift wraps are by the same key"); lo += tw[i] < NOW - 86400; hi += ts[i] < NOW - 86400; eq += ts[i] == tw[i]; nostr_event_destroy(s); nostr_event_destroy(w); }
    if (lo < 4 || lo > 60 || hi < 4 || hi > 60 || eq > 32) mc_fail("not-hidden", "of 64 messages %d wraps and %d seals are older than a day, %d have equal times", lo, hi, eq); nostr_event_destroy(ev); mc_conform();
}
static void norandom(void)   /* the generator fails at each request */
{
    begin(); int way = mc_choose(4), at = mc_choose(24); nostr_event *ev = dm(0, 1, "t", NULL, NULL, NOW), *s = NULL, *w = UNSET; nostr_error_t e; if (way == 3) { if (nostr_nip59_create_seal(&s, ev, &SK[0], &PK[1]) != NOSTR_OK) mc_fail("seal", "fails"); } long q0 = rng_requests(); rng_fail_at(at); fault_track(1);
    if (way == 0) e = nostr_nip17_send_dm(&w, "t", &SK[0], &PK[1], NULL, NULL, 0); else if (way == 1) e = nostr_nip59_wrap_event(&w, ev, &SK[0], &PK[1]); else if (way == 2) e = nostr_nip59_create_seal(&w, ev, &SK[0], &PK[1]); else e = nostr_nip59_create_gift_wrap(&w, s, &PK[1], NULL, 0); fault_track(0);
    long q = rng_requests() - q0; int failed = rng_failed(); mc_step(); if (failed && e == NOSTR_OK) { MC_NOTE("request %d of %ld fails", at, q); mc_fail("no-randomness", "way %d succeeds although the generator failed at request %d", way, at); } if (!failed && e != NOSTR_OK) mc_fail("send", "fails: %d", e);
    if (e != NOSTR_OK) { if (w != UNSET && w) mc_fail("output-on-error", "hands out an event"); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); } else nostr_event_destroy(w); nostr_event_destroy(ev); if (s) nostr_event_destroy(s); mc_conform();
}
/* ---- messages somebody else made ---- */
static nostr_event *wrapped(const char *sealjson, size_t n, int to, int kind) { uint8_t ek[32]; memset(ek, 0x33, 32); uint8_t pk[32]; party_pub(ek, pk); nostr_event *w = refev_new(); w->kind = (uint16_t)kind; (void)pk; char *c = party_seal44(ek, PK[to].data, sealjson, n); nostr_event_set_content(w, c); free(c); refev_tag(w, 2, "p", PKH[to], 0, 0); party_sign(w, ek); return w; }
static void hostile(void)
{
    begin(); static const int WK[] = { 1059, 1058, 13, 1, 1060, 0, 65535 }, SKI[] = { 13, 14, 1, 1059, 12, 0, 269 }; int f = mc_choose(10), bit = -1, v = 0, api = mc_choose(2), form = mc_choose(3), to = 1, from = 0, enc = 0, sealto = 1, good = 1, wk = 1059, sk = 13, signer = 0, rp = 0, flip = -1, stale = 0, tags = 0, signedrumor = 0;
    switch (f) {
        case 0: v = mc_choose(MC_LEN(WK)); wk = WK[v]; good = wk == 1059; break;
        case 1: v = mc_choose(MC_LEN(SKI)); sk = SKI[v]; good = sk == 13; break;
        case 2: rp = mc_choose(NK); from = mc_choose(NK); enc = signer = from; good = rp == from; break;      /* whose message it claims to be */
        case 3: signer = mc_choose(NK); good = signer == 0; break;      /* who signed the seal */
        case 4: flip = mc_choose(512); good = 0; break;
        case 5: stale = 1 + mc_choose(4); good = 0; break;              /* a seal changed after it was signed */
        case 6: enc = mc_choose(NK); good = enc == 0; break;             /* who encrypted the seal */
        case 7: sealto = mc_choose(NK); good = sealto == 1 ; break;      /* sealed for somebody else */
        case 8: tags = mc_choose(3); signedrumor = mc_choose(2); break;
        case 9: bit = mc_choose(256); good = 0; break;                  /* a claimed author one bit away from the sealer */
    }
    mc_step(); nostr_event *r = dm(rp, to, "believe me", NULL, NULL, 1600000000); if (bit >= 0) r->pubkey.data[bit / 8] ^= 1 << bit % 8; for (int i = 0; i < tags; i++) refev_tag(r, 3, "t", "a", "b", 0); refev_id(r, r->id); if (signedrumor) party_sign(r, SK[rp].data);
    ref_buf b = { 0 }; refev_json(&b, r); if (form) { char *p = strstr(b.s, ",\"sig\":"); if (form == 1) strcpy(p, "}"); else strcpy(p, "} "); }
    char *c = party_seal44(SK[enc].data, PK[sealto].data, b.s, strlen(b.s)); nostr_event *s = refev_new(); s->kind = (uint16_t)sk; nostr_event_set_content(s, c); free(c); party_sign(s, SK[from].data); if (signer != from) { uint8_t pk[32]; memcpy(pk, s->pubkey.data, 32); party_sign(s, SK[signer].data); memcpy(s->pubkey.data, pk, 32); refev_id(s, s->id); } if (flip >= 0) s->sig[flip / 8] ^= (uint8_t)(1 << flip % 8);
    if (stale == 1) s->created_at++; if (stale == 2) refev_tag(s, 2, "t", "x", 0, 0); if (stale == 3) s->id[31] ^= 1; if (stale == 4) { s->created_at++; refev_id(s, s->id); }
    ref_buf sj = { 0 }; refev_json(&sj, s); nostr_event *w = wrapped(sj.s, sj.n, to, wk), *o = UNSET; nostr_key a; memset(&a, 0xEE, sizeof a); fault_track(1); nostr_error_t e = unwrap(api, w, to, &o, &a); fault_track(0);
    if (good && e != NOSTR_OK) mc_fail("not-opened", "a good message is refused: %d", e); if (!good && e == NOSTR_OK) mc_fail("believed", "case %d: a message of party %d sealed by party %d (kinds %d/%d, signer %d, bit %d, change %d, encrypted by %d for %d) is accepted", f, rp, from, wk, sk, signer, flip, stale, enc, sealto);
    if (good) { same(o, r, signedrumor && !form, "the message"); if (memcmp(a.data, PK[from].data, 32)) mc_fail("author", "the author is %s", mc_hex(a.data, 32)); nostr_event_destroy(o); } else if (o != UNSET && o) mc_fail("output-on-error", "a refused message is handed out"); if (fault_live()) mc_fail("leak", "case %d: %s", f, fault_live_desc());
    nostr_event_destroy(r); nostr_event_destroy(s); nostr_event_destroy(w); rb_free(&b); rb_free(&sj); mc_conform();
}
static void refused(const nostr_event *w, const char *what) { for (int api = 0; api < 2; api++) { nostr_event *o = UNSET; fault_track(1); nostr_error_t e = unwrap(api, w, 1, &o, NULL); mc_eval(1); if (e == NOSTR_OK) mc_fail("accepted", "%s opens", what); fault_track(0); if (o != UNSET && o) mc_fail("output-on-error", "%s: an event is handed out", what); if (fault_live()) mc_fail("leak", "%s: %s", what, fault_live_desc()); fault_reset(); } }
static void malformed(void)   /* every truncation of the inner texts, correctly encrypted; and other texts in their place */
{
    begin(); int inner = mc_choose(2), part = mc_choose(16); static const char *const T[] = { "", " ", "null", "[]", "{}", "\"x\"", "1", "{", "}", "{\"kind\":14}", "{\"kind\":13}", "[{}]", "{\"kind\":13,\"pubkey\":5}", "\xff\xfe", "{\"kind\":1e400}", "true" };
    nostr_event *r = dm(0, 1, "t", NULL, NULL, 7); ref_buf rb = { 0 }; refev_json(&rb, r); nostr_event *s = refev_new(); s->kind = 13; char *c = party_seal44(SK[0].data, PK[1].data, rb.s, rb.n); nostr_event_set_content(s, c); free(c); party_sign(s, SK[0].data); ref_buf sb = { 0 }; refev_json(&sb, s); size_t N = inner ? rb.n : sb.n;
    for (size_t k = 0; k < N + MC_LEN(T); k++) { if ((int)(k % 16) != part) continue; const char *t = k < N ? (inner ? rb.s : sb.s) : T[k - N]; size_t n = k < N ? k : strlen(t); if (!n) continue; nostr_event *w; char what[80]; snprintf(what, sizeof what, "a %s of %zu bytes", inner ? "rumor" : "seal", n);
        if (!inner) w = wrapped(t, n, 1, 1059); else { nostr_event *x = refev_new(); x->kind = 13; char *y = party_seal44(SK[0].data, PK[1].data, t, n); nostr_event_set_content(x, y); free(y); party_sign(x, SK[0].data); ref_buf xb = { 0 }; refev_json(&xb, x); w = wrapped(xb.s, xb.n, 1, 1059); rb_free(&xb); nostr_event_destroy(x); }
        refused(w, what); nostr_event_destroy(w); }
    rb_free(&rb); rb_free(&sb); nostr_event_destroy(r); nostr_event_destroy(s); mc_step(); mc_conform();
}
static void tampered(void)   /* each character of the wrap's content, and its key */
{
    begin(); int part = mc_choose(16); nostr_event *r = dm(0, 1, "t", NULL, NULL, 7); ref_buf rb = { 0 }; refev_json(&rb, r); nostr_event *s = refev_new(); s->kind = 13; char *c = party_seal44(SK[0].data, PK[1].data, rb.s, rb.n); nostr_event_set_content(s, c); free(c); party_sign(s, SK[0].data); ref_buf sb = { 0 }; refev_json(&sb, s); nostr_event *w = wrapped(sb.s, sb.n, 1, 1059); size_t n = strlen(w->content);
    for (size_t i = (size_t)part; i < n + 256; i += 16) if (i < n) { char sv = w->content[i]; if (sv == '=' || i + 2 >= n) continue; w->content[i] = sv == 'A' ? 'B' : 'A'; refused(w, "a tampered wrap"); w->content[i] = 0; refused(w, "a truncated wrap"); w->content[i] = sv; } else { size_t k = i - n; w->pubkey.data[k / 8] ^= (uint8_t)(1 << k % 8); refused(w, "a wrap by another key"); w->pubkey.data[k / 8] ^= (uint8_t)(1 << k % 8); }
    rb_free(&rb); rb_free(&sb); nostr_event_destroy(r); nostr_event_destroy(s); nostr_event_destroy(w); mc_step(); mc_conform();
}
static void missing(void)
{
    begin(); int f = mc_choose(10), k = mc_choose(4); nostr_event *ev = dm(0, 1, "t", NULL, NULL, 7), *o = UNSET, *w = NULL; if (nostr_nip17_send_dm(&w, "t", &SK[0], &PK[1], NULL, NULL, 7) != NOSTR_OK) mc_fail("send", "fails"); nostr_error_t e = NOSTR_ERR_INVALID_PARAM; nostr_event **po = k == 0 ? NULL : &o; const nostr_event *pe = k == 1 ? NULL : f == 4 || f == 5 ? w : ev; const nostr_privkey *ps = k == 2 ? NULL : f == 4 || f == 5 ? &SK[1] : &SK[0]; const nostr_key *pk = k == 3 ? NULL : &PK[1]; const char *pc = k == 1 ? NULL : "t"; int opt = 0;
    switch (f) { case 0: e = nostr_nip17_send_dm(po, pc, ps, pk, NULL, NULL, 0); break; case 1: e = nostr_nip59_wrap_event(po, pe, ps, pk); break; case 2: e = nostr_nip17_create_seal(po, pe, ps, pk); break; case 3: e = nostr_nip59_create_seal(po, pe, ps, pk); break; case 4: opt = k == 3; e = nostr_nip17_unwrap_dm(pe, ps, po, NULL); break; case 5: opt = k == 3; e = nostr_nip59_unwrap_event(pe, ps, po, NULL); break; case 6: opt = k == 2; e = nostr_nip17_create_gift_wrap(po, pe, pk); break; case 7: opt = k == 2; e = nostr_nip59_create_gift_wrap(po, pe, pk, NULL, 0); break; case 8: opt = k == 2; e = nostr_nip17_create_rumor(po, 14, pk, pc, 0); break; case 9: opt = k == 2 || k == 1; e = nostr_nip59_create_rumor(po, 14, pk, pc); break; }
    if (opt ? e != NOSTR_OK : e == NOSTR_OK) mc_fail("missing", "function %d without argument %d returns %d", f, k, e); if (!opt && o != UNSET && o) mc_fail("output-on-error", "hands out an event"); if (opt) nostr_event_destroy(o); nostr_event_destroy(ev); nostr_event_destroy(w); mc_step(); mc_conform();
}
static void badkeys(void)
{
    begin(); static const char *const K[] = { "0000000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "eefdea4cdb677750a420fee807eacf21eb9898ae79b9768766e4faa04a2d4a34" }; int k = mc_choose(4), f = mc_choose(5); nostr_privkey s; nostr_key p; ref_unhex(K[k], 64, s.data); ref_unhex(K[k], 64, p.data); nostr_event *ev = dm(0, 1, "t", NULL, NULL, 7), *w = NULL, *o = UNSET; nostr_nip17_send_dm(&w, "t", &SK[0], &PK[1], NULL, NULL, 7); nostr_error_t e = NOSTR_OK; fault_track(1);
    int bads = k < 3, badp = 1; /* each of them is no x coordinate (0, n, 2^256-1: checked below) */ { uint8_t sh[32]; badp = !party_shared(SK[0].data, p.data, sh); } int bad = f < 3 ? bads : badp;
    switch (f) { case 0: e = nostr_nip17_send_dm(&o, "t", &s, &PK[1], NULL, NULL, 0); break; case 1: e = nostr_nip59_wrap_event(&o, ev, &s, &PK[1]); break; case 2: bad = 1; e = nostr_nip17_unwrap_dm(w, &s, &o, NULL); break; case 3: e = nostr_nip17_send_dm(&o, "t", &SK[0], &p, NULL, NULL, 0); break; case 4: e = nostr_nip59_wrap_event(&o, ev, &SK[0], &p); break; }
    fault_track(0); if (bad && e == NOSTR_OK) mc_fail("bad-key", "function %d accepts key %s", f, K[k]); if (e != NOSTR_OK && ((o != UNSET && o) || fault_live())) mc_fail("output-on-error", "function %d: output or leak (%s)", f, fault_live_desc()); if (!bad && f > 0 && f != 1 && e != NOSTR_OK) mc_fail("refused", "function %d refuses key %s: %d", f, K[k], e); if (e == NOSTR_OK) nostr_event_destroy(o); nostr_event_destroy(ev); nostr_event_destroy(w); mc_step(); mc_conform();
}
static void faults(void)
{
    begin(); mc_set_dev_bound(mc_thorough() ? 2 : 1); int op = mc_choose(8); nostr_event *ev = dm(0, 1, "quote \"", "s", NULL, 7), *s = NULL, *w = NULL, *o = UNSET; nostr_key a; static const char *const X[] = { "expiration", "5" }; uint8_t id[32] = { 1 };
    if (nostr_nip17_create_seal(&s, ev, &SK[0], &PK[1]) != NOSTR_OK || nostr_nip59_wrap_event(&w, ev, &SK[0], &PK[1]) != NOSTR_OK) mc_fail("send", "fails"); fault_track(1); fault_arm(); rng_arm(1); nc_armed = 1; if (ossl) fault_openssl_arm(1); nostr_error_t e = NOSTR_OK;
    switch (op) { case 0: e = nostr_nip17_send_dm(&o, "quote \"", &SK[0], &PK[1], "s", NULL, 7); break; case 1: e = nostr_nip59_wrap_event(&o, ev, &SK[0], &PK[1]); break; case 2: e = nostr_nip59_create_gift_wrap(&o, s, &PK[1], X, 2); break; case 3: e = nostr_nip17_create_gift_wrap(&o, s, &PK[1]); break; case 4: e = nostr_nip17_unwrap_dm(w, &SK[1], &o, &a); break; case 5: e = nostr_nip59_unwrap_event(w, &SK[1], &o, &a); break; case 6: e = nostr_nip59_create_seal(&o, ev, &SK[0], &PK[1]); break; case 7: e = nostr_nip17_send_dm(&o, "", &SK[0], &PK[1], NULL, id, 0); break; }
    rng_arm(0); nc_armed = 0; fault_disarm(); if (ossl) fault_openssl_arm(0); int p = fault_pause(); mc_step();
    if (e == NOSTR_OK) { if (op < 4) check_wrap(o, 0, 1, ev, 0, op == 2); else if (op < 6) { same(o, ev, 0, "the message"); if (memcmp(a.data, PK[0].data, 32)) mc_fail("author", "wrong"); } else if (op == 6) seal_ok(o, 0); else { nostr_event *d = dm(0, 1, "", NULL, id, NOW); check_wrap(o, 0, 1, d, 0, 0); nostr_event_destroy(d); } if (rng_failed()) mc_fail("no-randomness", "operation %d succeeds without randomness", op); }
    else { if (!mc_dev_used()) mc_fail("refused", "operation %d fails without a fault: %d", op, e); if (o != UNSET && o) mc_fail("output-on-error", "operation %d hands out an event", op); }
    fault_resume(p); if (e == NOSTR_OK) nostr_event_destroy(o); fault_track(0); if (fault_live()) mc_fail("leak", "operation %d returned %d: %s", op, e, fault_live_desc()); nostr_event_destroy(ev); nostr_event_destroy(s); nostr_event_destroy(w); mc_conform();
}
const mc_scenario mc_scenarios[] = {
    { "send", send, setup, 3, 0, "direct messages: keys x contents x subject x reply x time; every layer read by the reference; unwrapped by all four parties" },
    { "ways", ways, setup, 3, 0, "five ways of wrapping x kinds x tags x contents x keys x extra tags" },
    { "sizes", sizes, setup, 3, 60, "messages of 20000 to 59000 characters: delivered or refused" },
    { "offsets", offsets, setup, 3, 0, "generator values around the two-day bound at every place of the draw, four clocks" },
    { "spread", spread, setup, 3, 0, "64 messages: times spread over two days, fresh keys" },
    { "norandom", norandom, setup, 3, 0, "the generator fails at each request of each way" },
    { "hostile", hostile, setup, 3, 0, "messages made by others: kinds, claimed authors, signers, every signature bit, stale seals, wrong keys x rumors with and without signature" },
    { "malformed", malformed, setup, 3, 60, "every truncation of seal and rumor, rightly encrypted, and 16 other texts" },
    { "tampered", tampered, setup, 3, 60, "every character of the content replaced, every truncation, every bit of the key" },
    { "missing", missing, setup, 3, 0, "missing arguments" },
    { "badkeys", badkeys, setup, 3, 0, "keys outside the group" },
    { "faults", faults, setup_ossl, 3, 0, "one (two) failures of memory, generator, backend or OpenSSL in each operation" },
    MC_END };
