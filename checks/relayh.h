/* shared by c30, c31, c32: JSON equality, event texts */
#ifndef RELAYH_H
#define RELAYH_H
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/rj.h"
#include "../lib/mocklws.h"
#include <nostr.h>
static inline int js_eq(const rj *a, const rj *b)
{
    if (a->t != b->t) return 0;
    if (a->t == RJ_NUM) return a->is_int && b->is_int ? a->i == b->i : a->num == b->num;
    if (a->t == RJ_STR) return a->n == b->n && !memcmp(a->s, b->s, a->n);
    if (a->t != RJ_ARR && a->t != RJ_OBJ) return 1;
    if (a->count != b->count) return 0;
    if (a->t == RJ_ARR) { for (const rj *x = a->child, *y = b->child; x; x = x->next, y = y->next) if (!js_eq(x, y)) return 0; return 1; }
    for (const rj *x = a->child; x; x = x->next) { const rj *y = rj_get(b, x->key); if (!y || !js_eq(x, y)) return 0; }
    return 1;
}
/* the same JSON value? (both must be well-formed) */
static inline int js_same(const char *a, const char *b) { rj_reset(); rj *x = rj_parse(a, strlen(a), 0), *y = rj_parse(b, strlen(b), 0); int r = x && y && js_eq(x, y); rj_reset(); return r; }
static inline uint64_t js_hash(uint64_t h, const rj *j)
{
    h = mc_hash_u64(h, j->t * 8 + 1); if (j->t == RJ_NUM) return j->is_int ? mc_hash_u64(h, (uint64_t)j->i) : mc_hash(h, &j->num, sizeof j->num);
    if (j->t == RJ_STR) return mc_hash(mc_hash_u64(h, j->n), j->s, j->n);
    if (j->t == RJ_ARR || j->t == RJ_OBJ) { h = mc_hash_u64(h, j->count); for (const rj *x = j->child; x; x = x->next) { if (j->t == RJ_OBJ) h = mc_hash(h, x->key, x->kn + 1); h = js_hash(h, x); } }
    return h;
}
/* an event's text; k makes it distinct */
static inline const char *ev_text(int k, const char *content)
{
    static char b[4][900]; static int i; char *o = b[i = (i + 1) & 3]; char id[65], pk[65], sig[129];
    for (int j = 0; j < 32; j++) { sprintf(id + 2 * j, "%02x", (k * 37 + j) & 255); sprintf(pk + 2 * j, "%02x", (k * 11 + 2 * j + 5) & 255); }
    for (int j = 0; j < 64; j++) sprintf(sig + 2 * j, "%02x", (k * 3 + j * 7) & 255);
    ref_buf c = { 0 }; rb_json(&c, content);
    snprintf(o, 900, "{\"id\":\"%s\",\"pubkey\":\"%s\",\"created_at\":%d,\"kind\":%d,\"tags\":[[\"t\",\"v%d\"],[\"x\"]],\"content\":%s,\"sig\":\"%s\"}", id, pk, 1700000000 + k, 1 + k % 5, k, c.s, sig);
    rb_free(&c); return o;
}
static inline uint64_t ev_hash_of(const char *text) { nostr_event *e = NULL; if (nostr_event_from_json(text, &e) != NOSTR_OK) mc_fail("harness", "the harness's own event is refused: %s", mc_q(text)); uint64_t h = refev_hash(e); nostr_event_destroy(e); return h; }
#endif
