/* Reference event: a plain copy of fields, canonical text and id computed independently. */
#ifndef REFEV_H
#define REFEV_H
#include "ref.h"
#include "mc.h"
#include <nostr.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <inttypes.h>
/* canonical NIP-01 text of an event, straight from its fields */
static inline void refev_canonical(ref_buf *b, const nostr_event *e)
{
    char pk[65]; ref_hex(e->pubkey.data, 32, pk);
    rb_fmt(b, "[0,\"%s\",%" PRId64 ",%u,[", pk, (int64_t)e->created_at, (unsigned)e->kind);
    for (size_t i = 0; i < e->tags_count; i++) {
        if (i) rb_put(b, ",");
        rb_put(b, "[");
        for (size_t j = 0; j < e->tags[i].count; j++) { if (j) rb_put(b, ","); rb_json(b, e->tags[i].values[j] ? e->tags[i].values[j] : ""); }
        rb_put(b, "]");
    }
    rb_put(b, "],"); rb_json(b, e->content ? e->content : ""); rb_put(b, "]");
}
static inline void refev_id(const nostr_event *e, uint8_t id[32])
{
    ref_buf b = {0}; refev_canonical(&b, e); ref_sha256(b.s, b.n, id); rb_free(&b);
}
static inline void refev_json(ref_buf *b, const nostr_event *e)
{
    char h[129]; ref_hex(e->id, 32, h); rb_fmt(b, "{\"id\":\"%s\",", h);
    ref_hex(e->pubkey.data, 32, h); rb_fmt(b, "\"pubkey\":\"%s\",\"created_at\":%" PRId64 ",\"kind\":%u,\"tags\":[", h, (int64_t)e->created_at, (unsigned)e->kind);
    for (size_t i = 0; i < e->tags_count; i++) {
        if (i) rb_put(b, ",");
        rb_put(b, "[");
        for (size_t j = 0; j < e->tags[i].count; j++) { if (j) rb_put(b, ","); rb_json(b, e->tags[i].values[j] ? e->tags[i].values[j] : ""); }
        rb_put(b, "]");
    }
    rb_put(b, "],\"content\":"); rb_json(b, e->content ? e->content : "");
    ref_hex(e->sig, 64, h); rb_fmt(b, ",\"sig\":\"%s\"}", h);
}
static inline uint64_t refev_hash(const nostr_event *e)
{
    ref_buf b = {0}; refev_json(&b, e); uint64_t h = mc_hash(MC_H0, b.s, b.n); rb_free(&b); return h;
}
static inline int refev_equal(const nostr_event *a, const nostr_event *b)
{
    if (memcmp(a->id, b->id, 32) || memcmp(a->pubkey.data, b->pubkey.data, 32) || memcmp(a->sig, b->sig, 64)) return 0;
    if (a->created_at != b->created_at || a->kind != b->kind || a->tags_count != b->tags_count) return 0;
    if (strcmp(a->content ? a->content : "", b->content ? b->content : "")) return 0;
    for (size_t i = 0; i < a->tags_count; i++) {
        if (a->tags[i].count != b->tags[i].count) return 0;
        for (size_t j = 0; j < a->tags[i].count; j++) if (strcmp(a->tags[i].values[j], b->tags[i].values[j])) return 0;
    }
    return 1;
}
static inline nostr_event *refev_new(void)
{
    nostr_event *e = NULL;
    if (nostr_event_create(&e) != NOSTR_OK || !e) mc_fail("event_create", "nostr_event_create failed");
    e->created_at = 1700000000; e->kind = 1;
    return e;
}
static inline void refev_tag(nostr_event *e, int n, const char *a, const char *b, const char *c, const char *d)
{
    const char *v[4] = { a, b, c, d };
    if (nostr_event_add_tag(e, v, n) != NOSTR_OK) mc_fail("event_add_tag", "adding a %d-element tag failed", n);
}
#endif
