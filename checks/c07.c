/* C07: nprofile / nevent / naddr / nrelay and nostr: URIs. */
#include "refev.h"
#include "guard.h"
#include "fault.h"

enum { NPROFILE, NEVENT, NADDR, NRELAY };
static const char *const HN[] = { "nprofile", "nevent", "naddr", "nrelay" };
static const nostr_uri_type UT[] = { NOSTR_URI_NPROFILE, NOSTR_URI_NEVENT, NOSTR_URI_NADDR, NOSTR_URI_NRELAY };
static const nostr_uri_type UK[] = { NOSTR_URI_NPUB, NOSTR_URI_NSEC, NOSTR_URI_NOTE };
static const char *const HK[] = { "npub", "nsec", "note" };

/* one model for the four entities */
typedef struct { uint8_t special[300]; size_t slen; int nrel; char rel[24][300]; int has_author, has_kind; uint8_t author[32]; uint32_t kind; } ent;

static int url_ok(const uint8_t *u, size_t n)
{
    if (n < 6 || n > 255 || (memcmp(u, "wss://", 6) && memcmp(u, "ws://", 5))) return 0;
    for (size_t i = 0; i < n; i++) if (u[i] < 0x21 || u[i] > 0x7e) return 0;
    return 1;
}
static size_t wire(int t, const ent *e, uint8_t *o)
{
    size_t p = 0; o[p++] = 0; o[p++] = (uint8_t)e->slen; memcpy(o + p, e->special, e->slen); p += e->slen;
    if (t == NRELAY) return p;
    for (int i = 0; i < e->nrel; i++) { size_t l = strlen(e->rel[i]); o[p++] = 1; o[p++] = (uint8_t)l; memcpy(o + p, e->rel[i], l); p += l; }
    if (t != NPROFILE && e->has_author) { o[p++] = 2; o[p++] = 32; memcpy(o + p, e->author, 32); p += 32; }
    if (t != NPROFILE && e->has_kind) { o[p++] = 3; o[p++] = 4; for (int s = 24; s >= 0; s -= 8) o[p++] = (uint8_t)(e->kind >> s); }
    return p;
}
/* reference reader: 0 reject, 1 accept, 2 either; *dup: a field occurs twice, its value is not judged */
static int read_wire(int t, const uint8_t *d, size_t n, ent *e, int *dup)
{
    memset(e, 0, sizeof *e); int v = 1, ns = 0, na = 0, nk = 0; *dup = 0; size_t p = 0;
    if (!n) return 0;
    while (p < n) {
        if (n - p < 2) return 0;
        uint8_t ty = d[p], l = d[p + 1]; p += 2; if (p + l > n) return 0;
        const uint8_t *x = d + p; p += l;
        if (ty == 0) {
            if (++ns > 1) *dup = 1;
            if (t <= NEVENT && l != 32) { if (ns > 1) v = 2; else v = 2, e->slen = l; if (l > 32) v = v == 0 ? 0 : 2; }
            memcpy(e->special, x, l); e->slen = l;
        } else if (ty == 1 && t != NRELAY) {
            if (!url_ok(x, l) || e->nrel >= 16) v = v ? 2 : 0;
            else { memcpy(e->rel[e->nrel], x, l); e->rel[e->nrel++][l] = 0; }
        } else if (ty == 2 && (t == NEVENT || t == NADDR)) {
            if (l != 32) return 0;
            if (++na > 1) *dup = 1;
            e->has_author = 1; memcpy(e->author, x, 32);
        } else if (ty == 3 && (t == NEVENT || t == NADDR)) {
            if (l != 4) return 0;
            if (++nk > 1) *dup = 1;
            e->has_kind = 1; e->kind = (uint32_t)x[0] << 24 | x[1] << 16 | x[2] << 8 | x[3];
        }
    }
    if (t <= NEVENT) { if (!ns || (ns == 1 && e->slen != 32)) return 0; }
    if (t == NADDR) { if (!e->has_author || !e->has_kind) return 0; if (!ns) v = 2; if (ns == 1 && memchr(e->special, 0, e->slen)) return 0; }
    if (t == NRELAY) { if (!ns || (ns == 1 && (!e->slen || memchr(e->special, 0, e->slen)))) return 0; if (!url_ok(e->special, e->slen)) v = 2; }
    if (*dup) v = 2;
    return v;
}
static void rel_copy(ent *e, char *const *r, size_t n) { if (n > 16) mc_fail("relay-count", "relay_count %zu", n); e->nrel = (int)n; for (size_t i = 0; i < n; i++) { MC_CHECK(r[i] && strlen(r[i]) < 256, "relay-ptr", "relay %zu missing or over-long", i); strcpy(e->rel[i], r[i]); } }
static void take(int t, const void *s, ent *e)
{
    memset(e, 0, sizeof *e);
    if (t == NPROFILE) { const nostr_nprofile *p = s; memcpy(e->special, p->pubkey.data, 32); e->slen = 32; rel_copy(e, p->relays, p->relay_count); }
    else if (t == NEVENT) { const nostr_nevent *p = s; memcpy(e->special, p->id, 32); e->slen = 32; rel_copy(e, p->relays, p->relay_count); e->has_author = !!p->has_author; if (e->has_author) memcpy(e->author, p->author.data, 32); e->has_kind = !!p->has_kind; if (e->has_kind) e->kind = p->kind; }
    else if (t == NADDR) { const nostr_naddr *p = s; e->slen = strnlen(p->identifier, 256); MC_CHECK(e->slen < 256, "ident-term", "identifier not terminated"); memcpy(e->special, p->identifier, e->slen); rel_copy(e, p->relays, p->relay_count); e->has_author = e->has_kind = 1; memcpy(e->author, p->pubkey.data, 32); e->kind = p->kind; }
    else { const nostr_nrelay *p = s; e->slen = strnlen(p->url, 256); MC_CHECK(e->slen < 256, "url-term", "url not terminated"); memcpy(e->special, p->url, e->slen); }
}
static int same(const ent *a, const ent *b)
{
    if (a->slen != b->slen || memcmp(a->special, b->special, a->slen) || a->nrel != b->nrel || a->has_author != b->has_author || a->has_kind != b->has_kind) return 0;
    if (a->has_author && memcmp(a->author, b->author, 32)) return 0;
    if (a->has_kind && a->kind != b->kind) return 0;
    for (int i = 0; i < a->nrel; i++) if (strcmp(a->rel[i], b->rel[i])) return 0;
    return 1;
}
static const char *show(const ent *e) { static char bb[4][700]; static int bi; char *b = bb[bi++ & 3]; snprintf(b, 700, "special[%zu]=%s relays=%d first=%.60s author=%d kind=%d:%u", e->slen, mc_hex(e->special, e->slen < 40 ? e->slen : 40), e->nrel, e->nrel ? e->rel[0] : "", e->has_author, e->has_kind, e->kind); return b; }

static nostr_error_t dec1(int t, const char *s, void *o)
{
    switch (t) { case NPROFILE: return nostr_nprofile_decode(s, o); case NEVENT: return nostr_nevent_decode(s, o); case NADDR: return nostr_naddr_decode(s, o); default: return nostr_nrelay_decode(s, o); }
}
static void free1(int t, void *o) { if (t == NPROFILE) nostr_nprofile_free(o); else if (t == NEVENT) nostr_nevent_free(o); else if (t == NADDR) nostr_naddr_free(o); }
typedef union { nostr_nprofile p; nostr_nevent e; nostr_naddr a; nostr_nrelay r; } any;
static void decode_judge(int t, const char *s, int v, const ent *want, int dup)
{
    static any o; static ent got; memset(&o, 0xEE, sizeof o);
    nostr_error_t r = dec1(t, s, &o); mc_step();
    if (r == NOSTR_OK) {
        if (v == 0) mc_fail("accepts", "%s_decode accepts %s", HN[t], mc_q(s));
        take(t, &o, &got);
        if (!dup) MC_CHECK(same(&got, want), "fields", "%s_decode(%s): %s, written: %s", HN[t], mc_q(s), show(&got), show(want));
        free1(t, &o); free1(t, &o);
    } else { if (v == 1) mc_fail("rejects", "%s_decode rejects (%d) %s", HN[t], r, mc_q(s)); free1(t, &o); }
    /* through the URI form: the same verdict and fields; other decoders refuse it */
    static char u[16000]; snprintf(u, sizeof u, "nostr:%s", s);
    static nostr_uri uri; memset(&uri, 0xEE, sizeof uri); nostr_error_t r2 = nostr_uri_parse(u, &uri); mc_step();
    MC_CHECK((r2 == NOSTR_OK) == (r == NOSTR_OK), "uri-agree", "nostr_uri_parse %d, %s_decode %d for %s", r2, HN[t], r, mc_q(s));
    if (r2 == NOSTR_OK) { MC_CHECK(uri.type == UT[t], "uri-type", "type %d", uri.type); take(t, &uri.data, &got); if (!dup) MC_CHECK(same(&got, want), "uri-fields", "uri parse gives %s", show(&got)); }
    nostr_uri_free(&uri);
    for (int k = 0; k < 4; k++) if (k != t) { memset(&o, 0xEE, sizeof o); r = dec1(k, s, &o); mc_step(); MC_CHECK(r != NOSTR_OK, "foreign", "%s_decode reads %s", HN[k], mc_q(s)); free1(k, &o); }
    mc_outcome(mc_hash_str(MC_H0 + (r2 == NOSTR_OK), s));
}
static void decode_wire(int t, const uint8_t *d, size_t n)
{
    static ent want; int dup, v = read_wire(t, d, n, &want, &dup);
    static char s[16000]; ref_bech32_encode(HN[t], d, n, s);
    if (n > 4000 && v == 1 && n > 2 + 255 + 16 * 257 + 40) v = 2;
    decode_judge(t, s, v, &want, dup);
}
static void put(int t, const ent *e, any *o)
{
    memset(o, 0, sizeof *o);
#define RELS(p) do { p.relay_count = e->nrel; for (int i = 0; i < e->nrel && i < 16; i++) p.relays[i] = (char *)e->rel[i]; } while (0)
    if (t == NPROFILE) { memcpy(o->p.pubkey.data, e->special, 32); RELS(o->p); }
    else if (t == NEVENT) { memcpy(o->e.id, e->special, 32); RELS(o->e); o->e.has_author = e->has_author; memcpy(o->e.author.data, e->author, 32); o->e.has_kind = e->has_kind; o->e.kind = e->kind; }
    else if (t == NADDR) { memcpy(o->a.identifier, e->special, e->slen); RELS(o->a); memcpy(o->a.pubkey.data, e->author, 32); o->a.kind = e->kind; }
    else memcpy(o->r.url, e->special, e->slen);
}
static nostr_error_t enc1(int t, const any *o, char *s, size_t n)
{
    switch (t) { case NPROFILE: return nostr_nprofile_encode(&o->p, s, n); case NEVENT: return nostr_nevent_encode(&o->e, s, n); case NADDR: return nostr_naddr_encode(&o->a, s, n); default: return nostr_nrelay_encode(&o->r, s, n); }
}
static void mkurl(char *u, int len, int i) { snprintf(u, 300, "%s", i % 3 == 2 ? "ws://" : "wss://"); size_t n = strlen(u); while ((int)n < len) { u[n] = (char)(0x21 + (i * 31 + n * 7) % 94); n++; } u[n] = 0; }
static void mkent(int t, ent *e, int seed, int idlen, int nrel, int rlen)
{
    memset(e, 0, sizeof *e); for (int i = 0; i < 32; i++) e->special[i] = (uint8_t)(seed * 17 + i * 5 + 1), e->author[i] = (uint8_t)(seed * 29 + i * 3);
    e->slen = 32; if (seed % 7 == 3) memset(e->special, 0, 32); if (seed % 7 == 4) memset(e->special, 255, 32);
    e->has_author = t == NADDR || (t == NEVENT && (seed & 1)); e->has_kind = t == NADDR || (t == NEVENT && (seed & 2));
    static const uint32_t K[] = { 0, 1, 3, 255, 256, 30023, 40000, 65535, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff };
    e->kind = e->has_kind ? K[seed % 13] : 0; if (!e->has_author) memset(e->author, 0, 32);
    if (t == NADDR) { e->slen = idlen; for (int i = 0; i < idlen; i++) e->special[i] = (uint8_t)(1 + (seed * 13 + i * 3) % 255); }
    if (t == NRELAY) { char u[300]; mkurl(u, idlen, seed); e->slen = strlen(u); memcpy(e->special, u, e->slen); e->nrel = 0; return; }
    e->nrel = nrel; for (int i = 0; i < nrel; i++) mkurl(e->rel[i], rlen + (rlen < 255 - 16 ? i : 0), i + seed);
}
static void roundtrip(int t, const ent *e, int sizes)
{
    static any o; put(t, e, &o); static uint8_t w[8192]; static char want[16000], u[16000];
    size_t n = wire(t, e, w); ref_bech32_encode(HN[t], w, n, want); size_t need = strlen(want) + 1;
    char *s = guard_buf(1, need); nostr_error_t r = enc1(t, &o, s, need); mc_step();
    MC_CHECK(r == NOSTR_OK, "encode-fails", "%s_encode of %s: %d", HN[t], show(e), r);
    MC_CHECK(!strcmp(s, want), "wire", "%s_encode of %s gives %s, NIP-19 %s", HN[t], show(e), mc_q(s), mc_q(want));
    decode_judge(t, want, 1, e, 0);
    if (t == NRELAY || t == NADDR || t <= NEVENT) {
        static nostr_uri uri; memset(&uri, 0, sizeof uri); uri.type = UT[t]; memcpy(&uri.data, &o, t == NPROFILE ? sizeof o.p : t == NEVENT ? sizeof o.e : t == NADDR ? sizeof o.a : sizeof o.r);
        snprintf(u, sizeof u, "nostr:%s", want);
        char *b = guard_buf(2, need + 6); r = nostr_uri_encode(&uri, b, need + 6); mc_step();
        MC_CHECK(r == NOSTR_OK && !strcmp(b, u), "uri-encode", "uri_encode %d gives %s", r, mc_q(b));
        b = guard_buf(2, need + 5); r = nostr_uri_encode(&uri, b, need + 5); mc_step(); MC_CHECK(r != NOSTR_OK, "uri-short", "uri_encode into %zu bytes succeeds", need + 5);
    }
    if (sizes) for (size_t k = 0; k < need; k++) { s = guard_buf(1, k); r = enc1(t, &o, s, k); mc_step(); MC_CHECK(r != NOSTR_OK, "short", "%s_encode into %zu of %zu bytes succeeds", HN[t], k, need); MC_CHECK(!guard_under(s), "under", "underrun"); }
}
static void leak_ck(void) { MC_CHECK(fault_live() == 0, "leak", "%s", fault_live_desc()); }
static void rt_shapes(void)
{
    static ent e; int nrel = mc_choose(17), t = mc_choose(3), seed = mc_choose(28); static const int RL[] = { 6, 7, 20, 127, 128, 254, 255 }; int rl = MC_PICK(RL);
    fault_reset(); fault_track(1);
    mkent(t, &e, seed, (seed * 37 + nrel) % 256, nrel, rl); roundtrip(t, &e, 0); leak_ck();
    mc_state(mc_hash_str(MC_H0, show(&e))); mc_conform();
}
static void rt_ident(void)
{
    static ent e; int len = mc_choose(256), t = mc_choose(2) ? NRELAY : NADDR, seed = mc_choose(14); if (t == NRELAY && len < 6) mc_discard();
    fault_reset(); fault_track(1); mkent(t, &e, seed, len, seed % 3, 30); roundtrip(t, &e, seed == 5 && len % 16 == 0); leak_ck(); mc_conform();
}
static void sizes(void)
{
    static ent e; int nrel = mc_choose(17), t = mc_choose(3); mkent(t, &e, 3, 9, nrel, 40); roundtrip(t, &e, 1); mc_conform();
}
/* identifiers and relay texts of every byte; unencodable members never come back different */
static void bytes1(void)
{
    static ent e; int c = mc_choose(256), t = mc_choose(4), where = mc_choose(3), pos = mc_choose(8); static any o; static char s[9000];
    fault_reset(); fault_track(1);
    mkent(t, &e, 5, 12, 2, 14);
    if (where == 0) { if (t <= NEVENT) mc_discard(); e.special[pos] = (uint8_t)c; }
    else { if (t == NRELAY) mc_discard(); e.rel[where - 1][pos] = (char)c; }
    static uint8_t w[8192];
    if (where == 0) { size_t n = wire(t, &e, w); decode_wire(t, w, n); }
    else { w[0] = 0; w[1] = (uint8_t)e.slen; size_t p = 2; memcpy(w + p, e.special, e.slen); p += e.slen; for (int i = 0; i < 2; i++) { w[p++] = 1; w[p++] = 14 + i; memcpy(w + p, e.rel[i], 14 + i); p += 14 + i; }
        if (t == NADDR) { w[p++] = 2; w[p++] = 32; memcpy(w + p, e.author, 32); p += 32; w[p++] = 3; w[p++] = 4; memset(w + p, 0, 4); p += 4; } decode_wire(t, w, p); }
    if (where == 0) { e.slen = strlen((char *)e.special); }
    put(t, &e, &o); nostr_error_t r = enc1(t, &o, s, sizeof s); mc_step();
    if (r == NOSTR_OK) {
        static any q; static ent g; memset(&q, 0, sizeof q); r = dec1(t, s, &q); mc_step();
        MC_CHECK(r == NOSTR_OK, "enc-dec", "%s_encode of %s succeeded but its result does not decode (%d)", HN[t], show(&e), r);
        take(t, &q, &g); MC_CHECK(same(&g, &e), "enc-dec-fields", "%s: encoded %s, decoded %s", HN[t], show(&e), show(&g)); free1(t, &q);
    } else MC_CHECK(!(where == 0 && t == NADDR), "enc-ident", "naddr identifier %s refused", mc_q((char *)e.special));
    leak_ck();
}
/* every sequence of TLV items up to a depth */
static size_t item(uint8_t *o, int k, int i)
{
    static const struct { int type, len, real; } T[] = { {0,32,32},{1,20,20},{2,32,32},{3,4,4},{0,0,0},{0,31,31},{0,33,33},{0,255,255},{1,255,255},{1,5,5},{1,0,0},{2,31,31},{2,33,33},{2,0,0},{3,3,3},{3,5,5},{3,0,0},{4,0,0},{4,10,10},{255,255,255},{200,7,7},{0,32,31},{1,20,3},{5,9,0},{7,-1,0} };
    int n = (int)(sizeof T / sizeof T[0]); if (!o) return n;
    size_t p = 0; o[p++] = (uint8_t)T[k].type; if (T[k].len < 0) return p; o[p++] = (uint8_t)T[k].len;
    if (T[k].type == 1) { char u[300]; mkurl(u, T[k].real < 6 ? 6 : T[k].real, i); memcpy(o + p, u, T[k].real); }
    else for (int j = 0; j < T[k].real; j++) o[p + j] = (uint8_t)(i * 50 + j + 1);
    return p + T[k].real;
}
static void tlvs(void)
{
    static uint8_t w[8192]; int n = 0, ni = (int)item(NULL, 0, 0), first = mc_choose(ni), t = mc_choose(4), depth = mc_thorough() ? 4 : 3; size_t p = item(w, first, 0);
    fault_reset(); fault_track(1);
    for (n = 1; n < depth; n++) { int k = mc_choose(ni + 1); if (k == ni) break; p += item(w + p, k, n); }
    decode_wire(t, w, p); leak_ck(); mc_conform();
}
/* depth beyond via a valid base with items around it */
static void around(void)
{
    static uint8_t w[8192]; int ni = (int)item(NULL, 0, 0), a = mc_choose(ni + 1), t = mc_choose(4), b = mc_choose(ni + 1), c = mc_choose(ni + 1); static ent e; size_t p = 0;
    fault_reset(); fault_track(1);
    if (a < ni) p += item(w, a, 0);
    mkent(t, &e, 3, 8, 1, 20); p += wire(t, &e, w + p); 
    if (b < ni) p += item(w + p, b, 1);
    if (c < ni) p += item(w + p, c, 2);
    decode_wire(t, w, p); leak_ck(); mc_conform();
}
static void nrelays(void)
{   /* 0..20 relay items, some invalid */
    static uint8_t w[16384]; int n = mc_choose(21), t = mc_choose(4), bad = mc_choose(n + 1), len = mc_choose(4) * 83 + 6; static ent e; fault_reset(); fault_track(1);
    mkent(t, &e, 3, 8, 0, 20); size_t p = wire(t, &e, w);
    for (int i = 0; i < n; i++) { char u[300]; mkurl(u, len, i); if (i + 1 == bad) u[0] = 'h'; w[p++] = 1; w[p++] = (uint8_t)strlen(u); memcpy(w + p, u, strlen(u)); p += strlen(u); }
    decode_wire(t, w, p); leak_ck();
}
/* every byte of a valid wire form replaced by every value, with a correct checksum; every truncation */
static void mutate(void)
{
    static uint8_t w[8192]; int v = mc_choose(257), t = mc_choose(4); static ent e; fault_reset(); fault_track(1);
    mkent(t, &e, 3, t == NRELAY ? 18 : 5, 2, 12); size_t n = wire(t, &e, w);
    for (size_t i = 0; i < n; i++) {
        if (v == 256) { decode_wire(t, w, i); continue; }
        uint8_t o = w[i]; if (o == v) continue; w[i] = (uint8_t)v; decode_wire(t, w, n); w[i] = o; mc_eval(1);
    }
    leak_ck();
}
/* character-level damage without a new checksum, wrong case, prefix and scheme */
static void chars(void)
{
    int c = mc_choose(256), t = mc_choose(4); static ent e; static uint8_t w[8192]; static char s[9000]; fault_reset(); fault_track(1);
    mkent(t, &e, 3, 10, 1, 12); ref_bech32_encode(HN[t], w, wire(t, &e, w), s);
    size_t n = strlen(s);
    for (size_t i = 0; i < n; i++) { char o = s[i]; if ((uint8_t)o == c || i == strlen(HN[t])) continue; s[i] = (char)c; if (c == 0 && i == 0) { s[i] = o; continue; } decode_judge(t, s, 0, &e, 0); s[i] = o; mc_eval(1); }
    if (c == 1) for (size_t i = 0; i < n; i++) { char q[9000]; strcpy(q, s); q[i] = 0; decode_judge(t, q, 0, &e, 0); strcpy(q, s); memmove(q + i, q + i + 1, n - i); decode_judge(t, q, 0, &e, 0); if (i + 1 < n && s[i] != s[i + 1]) { strcpy(q, s); q[i] = s[i + 1]; q[i + 1] = s[i]; decode_judge(t, q, 0, &e, 0); } }
    leak_ck();
}
static void padbits(void)
{
    int n = mc_choose(200), t = mc_choose(4), pad = mc_choose(16); static ent e; static uint8_t w[8192], d5[8192]; static char s[9000];
    mkent(t, &e, n, 10 + n, 0, 12); size_t wn = wire(t, &e, w), m = 0; uint32_t acc = 0; int bits = 0;
    for (size_t i = 0; i < wn; i++) { acc = acc << 8 | w[i]; bits += 8; while (bits >= 5) { bits -= 5; d5[m++] = acc >> bits & 31; } }
    if (bits) d5[m++] = (acc << (5 - bits)) & 31;
    int free_bits = (int)(m * 5 - wn * 8); if (pad >= (1 << free_bits) && pad != 15) mc_discard();
    int extra = pad == 15; if (extra) d5[m++] = 0; else if (free_bits) d5[m - 1] |= pad;
    ref_bech32_encode5(HN[t], d5, m, s);
    int v = (extra ? free_bits + 5 < 5 : pad == 0); if (extra) v = 0;
    if (extra && free_bits + 5 >= 8) v = 0;
    decode_judge(t, s, v, &e, 0);
}
/* nostr: URIs of keys and notes, schemes, unknown entities */
static void uris(void)
{
    static const char *const SCH[] = { "nostr:", "", "NOSTR:", "nostr", "nostr::", " nostr:", "nostr:/", "nostr://", "web+nostr:", "nost:", "nostr: ", "n" };
    static const char *const ENT[] = { "npub", "nsec", "note", "nprofile", "nevent", "naddr", "nrelay", "npu", "nsecs", "lnurl", "ncryptsec", "NPUB", "", "npub1" };
    int k = mc_choose(64), sc = mc_choose(MC_LEN(SCH)), en = mc_choose(MC_LEN(ENT)), len = mc_choose(3); uint8_t d[64]; for (int i = 0; i < 64; i++) d[i] = (uint8_t)(k * 3 + i + 1);
    char s[512], u[600]; ref_bech32_encode(ENT[en], d, len == 0 ? 32 : len == 1 ? 31 : 33, s); snprintf(u, sizeof u, "%s%s", SCH[sc], s);
    nostr_uri r; memset(&r, 0xEE, sizeof r); nostr_error_t x = nostr_uri_parse(guard_copy(0, u, strlen(u) + 1), &r); mc_step();
    int ok = sc == 0 && en < 3 && len == 0;
    if (!(sc == 2 && en < 3 && len == 0)) MC_CHECK((x == NOSTR_OK) == ok, "uri-verdict", "nostr_uri_parse(%s) = %d", mc_q(u), x);
    if (x == NOSTR_OK) {
        MC_CHECK(r.type == UK[en] && !memcmp(en == 0 ? r.data.npub.data : en == 1 ? r.data.nsec.data : r.data.note, d, 32), "uri-key", "%s: type %d, bytes differ or wrong type", mc_q(u), r.type);
        for (int n = 0; n < 80; n++) { char *b = guard_buf(1, n); nostr_error_t y = nostr_uri_encode(&r, b, n); mc_step(); MC_CHECK((y == NOSTR_OK) == (n >= (int)strlen(u) + 1), "uri-size", "uri_encode(%s) into %d bytes: %d", u, n, y); if (y == NOSTR_OK) MC_CHECK(!strcmp(b, u), "uri-text", "%s became %s", u, b); }
        nostr_uri_free(&r); uint8_t z[32] = {0}; MC_CHECK(memcmp(r.data.nsec.data, d, 32) || !memcmp(d, z, 32), "uri-wipe", "key still in the structure after nostr_uri_free");
    } else nostr_uri_free(&r);
    mc_outcome(mc_hash_str(MC_H0 + x, u));
}
static void oom(void)
{
    int t = mc_choose(4), nrel = mc_choose(5), uri = mc_choose(2); static ent e, g; static any o; static uint8_t w[8192]; static char want[9000], s[9000], u[9000];
    mkent(t, &e, 3, 20, nrel * 4, 30); put(t, &e, &o); ref_bech32_encode(HN[t], w, wire(t, &e, w), want); snprintf(u, sizeof u, "nostr:%s", want);
    fault_reset(); fault_track(1); mc_set_dev_bound(mc_thorough() ? 2 : 1); fault_arm();
    nostr_uri x; memset(&x, 0, sizeof x); x.type = UT[t]; memcpy(&x.data, &o, t == NPROFILE ? sizeof o.p : t == NEVENT ? sizeof o.e : t == NADDR ? sizeof o.a : sizeof o.r);
    nostr_error_t r = uri ? nostr_uri_encode(&x, s, sizeof s) : enc1(t, &o, s, sizeof s); mc_step();
    if (r == NOSTR_OK) MC_CHECK(!strcmp(s, uri ? u : want), "oom-encode", "%s encoding under allocation failure: %s instead of %s", HN[t], mc_q(s), want);
    else MC_CHECK(fault_injected(), "oom-enc", "encode %d", r);
    static any q; memset(&q, 0, sizeof q); int inj = fault_injected();
    if (uri) { memset(&x, 0, sizeof x); r = nostr_uri_parse(u, &x); } else r = dec1(t, want, &q);
    mc_step();
    if (r == NOSTR_OK) { take(t, uri ? (void *)&x.data : &q, &g); MC_CHECK(same(&g, &e), "oom-decode", "%s decoded under allocation failure: %s instead of %s", HN[t], show(&g), show(&e)); } else MC_CHECK(fault_injected() > inj, "oom-dec", "decode %d", r);
    if (uri) nostr_uri_free(&x); else free1(t, &q);
    fault_disarm(); leak_ck(); mc_outcome(mc_hash_u64(MC_H0, r * 1000 + fault_injected()));
}
static void setup_fault(void) { fault_install(); }
const mc_scenario mc_scenarios[] = {
    { "shapes", rt_shapes, setup_fault, 3, 0, "relay counts 0..16 x lengths x 28 field sets x three entities: wire form and round trip" },
    { "ident", rt_ident, setup_fault, 3, 0, "identifier and url lengths 0..255" },
    { "sizes", sizes, NULL, 3, 0, "every output size below the needed one" },
    { "bytes", bytes1, setup_fault, 3, 0, "every byte value in identifiers, urls and relays" },
    { "tlvs", tlvs, setup_fault, 3, 0, "every sequence of up to 3 (4) of 25 TLV items" },
    { "around", around, setup_fault, 3, 0, "a valid entity with one item before and up to two behind it" },
    { "nrelays", nrelays, setup_fault, 3, 0, "0..20 relay items with an invalid one at each position" },
    { "mutate", mutate, setup_fault, 3, 0, "every byte of the wire form replaced by every value (checksum recomputed); truncations" },
    { "chars", chars, setup_fault, 3, 0, "every character replaced by every byte, deletions, swaps, truncations" },
    { "padbits", padbits, NULL, 3, 0, "all padding bit patterns and one symbol too many" },
    { "uris", uris, NULL, 3, 0, "schemes x entities x payload lengths" },
    { "oom", oom, setup_fault, 3, 0, "allocation failures" },
    MC_END };
