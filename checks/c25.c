/* C25: NIP-51 lists.  Reference: a plain array of items.
 *
 * The private part is encrypted with NIP-44, which this environment cannot build (no noscrypt); the
 * "seam44" build compiles the list code with that feature on and the harness supplies
 * nostr_nip44_encrypt/decrypt: an invertible, keyed encoding that also checks whose keys it is given.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <stdio.h>

#define A "aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111aaaa1111"
#define B "BBBB2222bbbb2222bbbb2222bbbb2222bbbb2222bbbb2222bbbb2222bbbb2222"
static nostr_keypair OWN, OTHER;
#ifdef NOSTR_FEATURE_NIP44
#define PRIV 1
static const char *plain_override; static int seam_armed, seam_failed;
static const nostr_keypair *who(const nostr_privkey *k, const nostr_key *p) { for (int i = 0; i < 2; i++) { const nostr_keypair *q = i ? &OTHER : &OWN; if (!memcmp(nostr_keypair_private_key(q), k, 32)) { if (memcmp(nostr_keypair_public_key(q), p, 32)) mc_fail("keys", "private items are exchanged with another key than the owner's"); return q; } } mc_fail("keys", "unknown private key"); }
nostr_error_t nostr_nip44_encrypt(const nostr_privkey *k, const nostr_key *p, const char *t, size_t n, char **out)
{
    who(k, p); if (seam_armed && mc_choose_dev(2)) { seam_failed++; *out = NULL; return NOSTR_ERR_INVALID_KEY; } if (!n || n > 65535) return NOSTR_ERR_INVALID_PARAM; if (strlen(t) != n) mc_fail("private-content", "length %zu of %zu", n, strlen(t));
    char *o = malloc(2 * n + 20); if (!o) return NOSTR_ERR_MEMORY; memcpy(o, "enc:", 4); ref_hex(p->data, 4, o + 4); ref_hex(t, n, o + 12); *out = o; return NOSTR_OK;
}
nostr_error_t nostr_nip44_decrypt(const nostr_privkey *k, const nostr_key *p, const char *c, char **out, size_t *n)
{
    char own[9]; who(k, p); *out = NULL; if (seam_armed && mc_choose_dev(2)) { seam_failed++; return NOSTR_ERR_INVALID_SIGNATURE; } const char *src = NULL; size_t l;
    if (plain_override && !strcmp(c, "override")) { src = plain_override; l = strlen(src); char *o = malloc(l + 1); if (!o) return NOSTR_ERR_MEMORY; memcpy(o, src, l + 1); *out = o; *n = l; return NOSTR_OK; }
    ref_hex(p->data, 4, own); if (strncmp(c, "enc:", 4) || strncmp(c + 4, own, 8)) return NOSTR_ERR_INVALID_SIGNATURE; l = strlen(c + 12) / 2; char *o = malloc(l + 1); if (!o) return NOSTR_ERR_MEMORY; ref_unhex(c + 12, 2 * l, (uint8_t *)o); o[l] = 0; *out = o; *n = l; return NOSTR_OK;
}
#else
#define PRIV 0
static int seam_armed, seam_failed;
#endif
static void setup(void) { fault_install(); nostr_init(); nostr_privkey a = { { 1, 2, 3 } }, b = { { 4, 5, 6 } }; if (nostr_keypair_from_private_key(&OWN, &a) != NOSTR_OK || nostr_keypair_from_private_key(&OTHER, &b) != NOSTR_OK) mc_fail("setup", "keys"); seam_armed = 0; }

typedef struct { char *t, *v, *h, *p; int priv; } item;
typedef struct { item i[4200]; int n; } model;
static const char *nn(const char *s) { return s ? s : ""; }
static void put(model *m, const char *t, const char *v, const char *h, const char *p, int priv) { m->i[m->n++] = (item){ (char *)t, (char *)v, (char *)h, (char *)p, priv }; }
static int eqi(const nostr_list_item *x, const item *y) { return !strcmp(x->tag_type, y->t) && !strcmp(x->value, y->v) && !strcmp(nn(x->relay_hint), nn(y->h)) && !strcmp(nn(x->petname), nn(y->p)) && x->is_private == (y->priv != 0); }
static void same(const nostr_list *l, const model *m, const char *when)
{
    if (nostr_list_count(l) != (size_t)m->n) mc_fail("list", "%s: %zu items instead of %d", when, nostr_list_count(l), m->n);
    for (int i = 0; i < m->n; i++) { const nostr_list_item *x = nostr_list_get(l, i); if (!x || !eqi(x, &m->i[i])) mc_fail("list", "%s: item %d is (%s, %s, %s, %s)", when, i, x ? mc_q(x->tag_type) : "-", x ? mc_q(x->value) : "-", x ? mc_q(nn(x->relay_hint)) : "-", x ? mc_q(nn(x->petname)) : "-"); }
    if (nostr_list_get(l, m->n) || nostr_list_get(l, (size_t)m->n + 1) || nostr_list_get(l, (size_t)-1)) mc_fail("get", "%s: an item beyond the end", when);
}
/* after a round trip: the same items, in the same order within public and within private ones */
static void split(const nostr_list *l, const model *m, int priv, const char *when)
{
    size_t k = 0; int cnt = 0; for (int i = 0; i < m->n; i++) if (!!m->i[i].priv == priv) { cnt++; while (k < nostr_list_count(l) && nostr_list_get(l, k)->is_private != priv) k++; const nostr_list_item *x = nostr_list_get(l, k++); if (!x || !eqi(x, &m->i[i])) mc_fail(priv ? "roundtrip-private" : "roundtrip-public", "%s: %s item (%s, %s, %s, %s) came back as (%s, %s, %s, %s)", when, priv ? "private" : "public", mc_q(m->i[i].t), mc_q(m->i[i].v), mc_q(nn(m->i[i].h)), mc_q(nn(m->i[i].p)), x ? mc_q(x->tag_type) : "-", x ? mc_q(x->value) : "-", x ? mc_q(nn(x->relay_hint)) : "-", x ? mc_q(nn(x->petname)) : "-"); }
    for (k = 0; k < nostr_list_count(l); k++) if (nostr_list_get(l, k)->is_private == priv) cnt--; if (cnt) mc_fail(priv ? "roundtrip-private" : "roundtrip-public", "%s: %d items too many", when, -cnt);
}
typedef struct { const char *d, *title, *desc, *img; } meta;
static void metas(const nostr_list *l, const meta *w, const char *when) { if (strcmp(nn(l->d_tag), nn(w->d)) || strcmp(nn(l->title), nn(w->title)) || strcmp(nn(l->description), nn(w->desc)) || strcmp(nn(l->image), nn(w->img))) mc_fail("meta", "%s: identifier %s title %s description %s image %s", when, mc_q(nn(l->d_tag)), mc_q(nn(l->title)), mc_q(nn(l->description)), mc_q(nn(l->image))); }
static void roundtrip(const nostr_list *l, const model *m, const meta *w, int may_fail)
{
    int np = 0; for (int i = 0; i < m->n; i++) np += !!m->i[i].priv; nostr_event *e = NULL; nostr_error_t r = nostr_list_to_event(l, &OWN, &e); mc_eval(1);
    if (r != NOSTR_OK) { if (e) mc_fail("dangling", "failed to_event left an event"); if (!may_fail && (PRIV || !np)) mc_fail("to_event", "refused: %d", r); return; } if (np && !PRIV) mc_fail("to_event", "private items without encryption");
    if (e->kind != l->kind) mc_fail("to_event", "kind %d", e->kind); if (!np && *nn(e->content)) mc_fail("to_event", "content %s without private items", mc_q(e->content));
    /* private items never appear in the clear */
    for (int i = 0; i < m->n; i++) if (m->i[i].priv && strlen(m->i[i].v) > 3) { int also = 0; for (int j = 0; j < m->n; j++) if (!m->i[j].priv && !strcmp(m->i[j].v, m->i[i].v)) also = 1; if (also) continue; for (size_t t = 0; t < e->tags_count; t++) for (size_t j = 1; j < e->tags[t].count; j++) if (!strcmp(e->tags[t].values[j], m->i[i].v)) mc_fail("exposed", "private %s stands in the tags", mc_q(m->i[i].v)); if (strstr(nn(e->content), m->i[i].v)) mc_fail("exposed", "private %s stands in the content", mc_q(m->i[i].v)); }
    int pub = 0; for (size_t t = 0; t < e->tags_count; t++) { const char *n0 = e->tags[t].values[0]; if (strcmp(n0, "d") && strcmp(n0, "title") && strcmp(n0, "description") && strcmp(n0, "image")) pub++; } if (pub != m->n - np) mc_fail("exposed", "%d item tags for %d public items", pub, m->n - np);
    nostr_list *b = NULL; r = nostr_list_from_event(e, &OWN, &b); if (r != NOSTR_OK) mc_fail("from_event", "the owner cannot read it back: %d", r); split(b, m, 0, "read by the owner"); split(b, m, 1, "read by the owner"); if (b->kind != l->kind) mc_fail("from_event", "kind %d", b->kind); if (l->kind >= 30000 && l->kind < 40000) metas(b, w, "round trip"); nostr_list_free(b);
    b = NULL; r = nostr_list_from_event(e, NULL, &b); if (r != NOSTR_OK) mc_fail("from_event", "unreadable without keys: %d", r); split(b, m, 0, "read without keys"); for (size_t k = 0; k < nostr_list_count(b); k++) if (nostr_list_get(b, k)->is_private) mc_fail("exposed", "a private item without keys"); if (nostr_list_count(b) != (size_t)(m->n - np)) mc_fail("exposed", "%zu items without keys", nostr_list_count(b)); nostr_list_free(b);
    b = NULL; r = nostr_list_from_event(e, &OTHER, &b); if (r == NOSTR_OK) { split(b, m, 0, "read with other keys"); if (nostr_list_count(b) != (size_t)(m->n - np)) mc_fail("exposed", "private items with other keys"); nostr_list_free(b); } else if (b) mc_fail("dangling", "failed from_event left a list"); else if (!np) mc_fail("from_event", "%d with other keys", r); nostr_event_destroy(e);
}
/* the eight ways to add an item; returns what the reference says: 1 accepted */
static int add(nostr_list *l, model *m, int ty, const char *v, const char *h, const char *p, int priv, nostr_error_t *r)
{
    static const char *const T[] = { "p", "e", "t", "word", "relay", "a", "group", "emoji" }; int ok = v && *v; if (ty < 2) ok = v && strlen(v) == 64 && ref_is_hex(v, 64); if (ty >= 6) ok = ok && h && *h;
    switch (ty) { case 0: *r = nostr_list_add_pubkey(l, v, h, p, priv); break; case 1: *r = nostr_list_add_event(l, v, h, priv); p = NULL; break; case 2: *r = nostr_list_add_hashtag(l, v, priv); h = p = NULL; break; case 3: *r = nostr_list_add_word(l, v, priv); h = p = NULL; break; case 4: *r = nostr_list_add_relay(l, v, priv); h = p = NULL; break; case 5: *r = nostr_list_add_reference(l, v, h, priv); p = NULL; break; case 6: *r = nostr_list_add_group(l, v, h, p, priv); break; default: *r = nostr_list_add_emoji(l, v, h, priv); p = NULL; }
    mc_step(); if (ok && *r == NOSTR_OK && m) put(m, T[ty], v, h, p, priv); return ok;
}
static model M;
static const int KINDS[] = { 10000, 10001, 30000, 30003, 39999, 3, 40000, 29999 };
static void edits(void)
{
    int depth = mc_thorough() ? 5 : 4; nostr_list *l; M.n = 0; int n = 1 + mc_choose(depth), kind = MC_PICK(KINDS); if (n > 3 && kind != 10000 && kind != 30000) mc_discard(); if (nostr_list_create(&l, (uint16_t)kind) != NOSTR_OK) mc_fail("create", "refused"); uint64_t hs = kind;
    for (int s = 0; s < n; s++) { int o = mc_choose(14); nostr_error_t r; hs = mc_hash_u64(hs, o);
        if (o < 9) { static const struct { int ty; const char *v, *h, *p; int priv; } O[] = { { 0, A, "wss://r", "bob", 0 }, { 0, B, NULL, "al", 1 }, { 1, A, NULL, NULL, 0 }, { 2, "nostr", 0, 0, 1 }, { 3, "spam word", 0, 0, 0 }, { 5, "30023:" A ":x", "wss://a", 0, 1 }, { 6, "grp", "wss://g", "Name", 0 }, { 7, "soap", "https://x/y.png", 0, 1 }, { 4, "wss://relay", 0, 0, 0 } }; if (!add(l, &M, O[o].ty, O[o].v, O[o].h, O[o].p, O[o].priv, &r) || r != NOSTR_OK) mc_fail("add-refused", "operation %d: %d", o, r); }
        else { size_t ix = o == 9 ? 0 : o == 10 ? (size_t)(M.n ? M.n - 1 : 0) : o == 11 ? (size_t)M.n : o == 12 ? (size_t)-1 : 1; r = nostr_list_remove(l, ix); mc_step(); int ok = ix < (size_t)M.n; if ((r == NOSTR_OK) != ok) mc_fail(ok ? "remove-refused" : "remove-accepted", "index %zu of %d: %d", ix, M.n, r); if (ok) { memmove(&M.i[ix], &M.i[ix + 1], (M.n - ix - 1) * sizeof(item)); M.n--; } }
        same(l, &M, "after an edit"); mc_state(hs); }
    meta w = { 0 }; roundtrip(l, &M, &w, 0); nostr_list_free(l); mc_conform(); mc_outcome(hs); MC_NOTE("%d edits, %d items", n, M.n);
}
static char L[30][3000]; static const char *TX[64]; static int NTX;
static void setupt(void)
{
    setup(); static const char *const X[] = { "plain", "", "\"", "\\", "a\"b", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x9d\xa4", "\xf0\x9f\x94\xa5", "]", "[", "\"]", "\",\"", "],[\"p\",\"x\"", ",", " ", " lead", "trail ", "\\u0041", "\\n", "\\\\", "{}", "/", "\xff", "d", "title", "\\" "ud83d\\ude00" };
    NTX = 0; for (int i = 0; i < MC_LEN(X); i++) TX[NTX++] = X[i]; static const int N[] = { 63, 64, 65, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2500 }; for (int i = 0; i < MC_LEN(N); i++) { memset(L[i], 'a' + i, N[i]); L[i][N[i]] = 0; TX[NTX++] = L[i]; } static const char *const tail[] = { "\"", "\\", "\xc3\xa9", "\n" }; for (int i = 0; i < 4; i++) { memset(L[20 + i], 'z', 254); strcpy(L[20 + i] + 254, tail[i]); TX[NTX++] = L[20 + i]; }
}
static void texts(void)
{
    int ty = mc_choose(8), priv = mc_choose(PRIV + 1), vi = mc_choose(52), hi = mc_choose(53), pi = 0; if (vi >= NTX || hi > NTX) mc_discard(); int hash = ty < 2; if (hash && vi > 2) mc_discard(); if ((ty == 2 || ty == 3 || ty == 4) && hi) mc_discard(); if (ty == 0 || ty == 6) pi = mc_choose(NTX + 1); if (pi > 12 && hi > 12 && vi > 2 && !mc_thorough()) mc_discard();
    const char *v = hash ? vi == 0 ? A : vi == 1 ? B : TX[1] : TX[vi], *h = hi ? TX[hi - 1] : NULL, *p = pi ? TX[pi - 1] : NULL; M.n = 0; nostr_list *l; nostr_list_create(&l, 10003); nostr_error_t r; int ok = add(l, &M, ty, v, h, p, priv, &r); if ((r == NOSTR_OK) != ok) mc_fail(ok ? "add-refused" : "add-accepted", "type %d (%s, %s, %s): %d", ty, mc_q(v), mc_q(nn(h)), mc_q(nn(p)), r);
    if (ok) { add(l, &M, 3, "second", NULL, NULL, priv, &r); meta w = { 0 }; same(l, &M, "added"); roundtrip(l, &M, &w, 0); } else if (nostr_list_count(l)) mc_fail("list", "a refused item was added"); nostr_list_free(l); mc_conform(); mc_outcome(mc_hash_u64(ty * 2 + priv, (vi * 60 + hi) * 60 + pi)); MC_NOTE("type %d texts %d %d %d", ty, vi, hi, pi);
}
static void bytes(void)
{
    int a = 1 + mc_choose(255), priv = mc_choose(PRIV + 1); for (int b = 0; b < 256; b++) { char s[8] = { (char)a, (char)b, b ? 'x' : 0 }; M.n = 0; nostr_list *l; nostr_list_create(&l, 10003); nostr_error_t r; add(l, &M, 3, s, NULL, NULL, priv, &r); if (r != NOSTR_OK) mc_fail("add-refused", "%s", mc_q(s)); add(l, &M, 6, s, s, s, priv, &r); meta w = { 0 }; roundtrip(l, &M, &w, 0); nostr_list_free(l); } mc_conform(); mc_outcome(a * 2 + priv); MC_NOTE("byte %d", a);
}
static void metadata(void)
{
    int kind = mc_choose(MC_LEN(KINDS) + 1), f = mc_choose(4), x = mc_choose(20), y = mc_choose(21), z = mc_choose(4); meta w = { 0 }; nostr_list *l; M.n = 0; nostr_list_create(&l, kind < MC_LEN(KINDS) ? KINDS[kind] : 39089);
    nostr_error_t (*const SET[])(nostr_list *, const char *) = { nostr_list_set_d_tag, nostr_list_set_title, nostr_list_set_description, nostr_list_set_image }; const char **F[] = { &w.d, &w.title, &w.desc, &w.img };
    for (int i = 0; i < 4; i++) if (i != f && (z & 1)) { SET[i](l, i == 0 ? "ident" : i == 1 ? "T" : i == 2 ? "D d" : "https://i"); *F[i] = i == 0 ? "ident" : i == 1 ? "T" : i == 2 ? "D d" : "https://i"; }
    if (SET[f](l, TX[x]) != NOSTR_OK) mc_fail("set", "refused"); *F[f] = TX[x]; metas(l, &w, "set"); if (y < 20) { if (SET[f](l, TX[y]) != NOSTR_OK) mc_fail("set", "refused"); *F[f] = TX[y]; } else { if (SET[f](l, NULL) != NOSTR_OK) mc_fail("set", "clearing refused"); *F[f] = NULL; } mc_steps(2); metas(l, &w, "replaced"); nostr_error_t r; if (z & 2) { add(l, &M, 0, A, NULL, NULL, 0, &r); if (PRIV) add(l, &M, 3, "title", NULL, NULL, 1, &r); } roundtrip(l, &M, &w, 0); nostr_list_free(l); mc_conform(); mc_outcome(((kind * 4 + f) * 20 + x) * 84 + y * 4 + z); MC_NOTE("field %d of kind %d", f, kind);
}
static void growth(void)
{
    int n = 1 + mc_choose(mc_thorough() ? 700 : 200), p = mc_choose(3); static char v[5000][24]; M.n = 0; nostr_list *l; nostr_list_create(&l, 30000); nostr_error_t r; for (int i = 0; i < n; i++) { sprintf(v[i], "word number %d", i * 7); add(l, &M, 3, v[i], NULL, NULL, PRIV && (p == 1 || (p == 2 && i % 3)), &r); if (r != NOSTR_OK) mc_fail("add-refused", "item %d: %d", i, r); }
    meta w = { 0 }; same(l, &M, "grown"); roundtrip(l, &M, &w, n > 90); for (int i = 0; i < n; i += 2) { size_t ix = (size_t)(i * 5 % M.n); if (nostr_list_remove(l, ix) != NOSTR_OK) mc_fail("remove-refused", "index %zu of %d", ix, M.n); memmove(&M.i[ix], &M.i[ix + 1], (M.n - ix - 1) * sizeof(item)); M.n--; } same(l, &M, "thinned"); nostr_list_free(l); mc_conform(); mc_outcome(n * 3 + p); MC_NOTE("%d items", n);
}
static void limit(void)
{
    int n = 4090 + mc_choose(12); static char v[5000][24]; M.n = 0; nostr_list *l; nostr_list_create(&l, 30000); nostr_error_t r; int full = 0; for (int i = 0; i < n; i++) { sprintf(v[i], "w%d", i); add(l, &M, 3, v[i], NULL, NULL, 0, &r); if (r != NOSTR_OK) { full = 1; } else if (full) mc_fail("limit", "item %d accepted after a refusal", i); } same(l, &M, "full"); nostr_list_free(l); mc_conform(); mc_outcome(n); MC_NOTE("%d items", n);
}
/* events by others: every list of up to 3 tags over item, metadata and odd shapes */
typedef struct { int n; const char *v[6]; } tg;
static const tg TG[] = { { 2, { "p", A } }, { 3, { "p", B, "wss://x" } }, { 4, { "p", A, "", "pet" } }, { 2, { "d", "id1" } }, { 2, { "d", "" } }, { 2, { "title", "Ti" } }, { 2, { "description", "De" } }, { 2, { "image", "Im" } }, { 1, { "p" } }, { 1, { "d" } }, { 2, { "t", "tag" } }, { 6, { "e", A, "r", "x", "y", "z" } }, { 2, { "", "" } }, { 3, { "emoji", "a", "b" } }, { 2, { "unknown", "v" } }, { 2, { "d", "id2" } } };
static void foreign(void)
{
    int n = mc_choose(4), x[4], c = mc_choose(3); for (int i = 0; i < n; i++) x[i] = mc_choose(MC_LEN(TG)); nostr_event *e = refev_new(); e->kind = 30000; M.n = 0; meta w = { 0 }; int sd = 0, dd = 0;
    for (int i = 0; i < n; i++) { const tg *t = &TG[x[i]]; const char *v[6]; memcpy(v, t->v, sizeof v); nostr_event_add_tag(e, v, t->n); if (t->n < 2) continue; if (!strcmp(v[0], "d")) { if (sd++ && strcmp(w.d, v[1])) dd = 1; w.d = v[1]; } else if (!strcmp(v[0], "title")) w.title = v[1]; else if (!strcmp(v[0], "description")) w.desc = v[1]; else if (!strcmp(v[0], "image")) w.img = v[1]; else put(&M, v[0], v[1], t->n > 2 ? v[2] : NULL, t->n > 3 ? v[3] : NULL, 0); }
    if (c) nostr_event_set_content(e, c == 1 ? "" : "[[\"p\",\"hidden\"]]"); nostr_list *l = NULL; nostr_error_t r = nostr_list_from_event(e, NULL, &l); mc_step(); if (r != NOSTR_OK) mc_fail("from_event", "%d", r); same(l, &M, "foreign"); if (!dd) metas(l, &w, "foreign"); nostr_list_free(l);
    l = NULL; r = nostr_list_from_event(e, &OWN, &l); if (r == NOSTR_OK) { same(l, &M, "foreign, owner"); nostr_list_free(l); } else if (l) mc_fail("dangling", "list"); else if (c < 2) mc_fail("from_event", "owner: %d", r); nostr_event_destroy(e); mc_conform(); mc_outcome(mc_hash(n * 3 + c, x, n * sizeof *x)); MC_NOTE("%d tags", n);
}
#if PRIV
static void privtext(void)     /* decrypted texts by others or damaged: never crash, never public, no leak */
{
    static const char *const S[] = { "[[\"p\",\"" A "\",\"wss://r\",\"pet\"],[\"word\",\"x\\\"y\\\\z\\u00e9\\ud83d\\ude00\"]]", "[ [ \"t\" , \"tag\" ] ,\n[\"e\",\"" A "\"]]", "[[\"a\",\"b\",\"c\",\"d\",\"e\",\"f\\\"g\"],[\"t\",\"last\"]]", "[]", "[[]]", "" }; static const char R[] = "[]\"\\,u {}:dD08x\n\x80\xff"; int s = mc_choose(MC_LEN(S)), p = mc_choose(220); size_t n = strlen(S[s]); if (p > (int)n) mc_discard(); nostr_event *e = refev_new(); e->kind = 10000; nostr_event_set_content(e, "override"); refev_tag(e, 2, "p", B, 0, 0);
    for (int v = 0; v < (int)sizeof R + 1; v++) { char t[400]; strcpy(t, S[s]); if (v == 0) t[p] = 0; else if (v == 1) { if (p < (int)n) memmove(t + p, t + p + 1, n - p); } else if (p < (int)n) t[p] = R[v - 2]; if (v == 0 && p == (int)n && s < 2) { } 
        plain_override = t; fault_reset(); fault_track(1); nostr_list *l = NULL; nostr_error_t r = nostr_list_from_event(e, &OWN, &l); mc_eval(1); if (r == NOSTR_OK) { if (!l || strcmp(nostr_list_get(l, 0)->value, B) || nostr_list_get(l, 0)->is_private) mc_report("private-text", "public item changed by %s", mc_q(t)); for (size_t i = 1; l && i < nostr_list_count(l); i++) if (!nostr_list_get(l, i)->is_private) mc_report("private-text", "%s yields a public item", mc_q(t)); if (p == (int)n && v == 0 && s < 2) { M.n = 0; put(&M, "p", B, 0, 0, 0); if (s == 0) { put(&M, "p", A, "wss://r", "pet", 1); put(&M, "word", "x\"y\\z\xc3\xa9\xf0\x9f\x98\x80", 0, 0, 1); } else { put(&M, "t", "tag", 0, 0, 1); put(&M, "e", A, 0, 0, 1); } same(l, &M, "private text"); } nostr_list_free(l); } else { if (l) mc_report("dangling", "%s", mc_q(t)); if (p == (int)n && v == 0 && s < 4) mc_report("private-text", "%s refused: %d", mc_q(t), r); } if (fault_live()) mc_report("leak", "%s: %s", mc_q(t), fault_live_desc()); fault_track(0); }
    plain_override = NULL; nostr_event_destroy(e); mc_step(); mc_conform(); mc_outcome(s * 200 + p); MC_NOTE("text %d changed at %d", s, p);
}
#endif
static void faults(void)
{
    int op = mc_choose(7), shape = mc_choose(5); mc_set_dev_bound(mc_thorough() ? 2 : 1); nostr_list *l = NULL, *b = NULL; nostr_event *e = NULL; M.n = 0; meta w = { "ident", "T", "D", "I" }; seam_failed = 0; fault_reset(); fault_track(1); nostr_list_create(&l, 30003); nostr_error_t r; nostr_list_set_d_tag(l, w.d); nostr_list_set_title(l, w.title); nostr_list_set_description(l, w.desc); nostr_list_set_image(l, w.img); int pr = PRIV && shape > 2;
    static const int SZ[] = { 0, 1, 8, 2, 16 }; for (int i = 0; i < SZ[shape]; i++) add(l, &M, 6, "grp", "wss://g", "N", pr && i % 2, &r); if (op == 3) nostr_list_to_event(l, &OWN, &e); fault_arm(); seam_armed = 1;
    r = op == 0 ? nostr_list_create(&b, 1) : op == 1 ? nostr_list_add_group(l, "new", "wss://n", "P", pr) : op == 2 ? nostr_list_to_event(l, &OWN, &e) : op == 3 ? nostr_list_from_event(e, &OWN, &b) : op == 4 ? nostr_list_set_d_tag(l, "other") : op == 5 ? nostr_list_set_title(l, "other") : nostr_list_remove(l, 0); fault_disarm(); seam_armed = 0; mc_step(); int f = fault_injected() + seam_failed;
    if (r == NOSTR_OK) { if (op == 1) put(&M, "group", "new", "wss://n", "P", pr); if (op == 4) w.d = "other"; if (op == 5) w.title = "other"; if (op == 6) { memmove(&M.i[0], &M.i[1], (M.n - 1) * sizeof(item)); M.n--; } if (op == 2) { if (nostr_list_from_event(e, &OWN, &b) != NOSTR_OK) mc_fail("from_event", "after a failure"); } if (op == 2 || op == 3) { split(b, &M, 0, "after a failure"); split(b, &M, 1, "after a failure"); metas(b, &w, "after a failure"); } }
    else { if (!f && !(op == 6 && !M.n)) mc_fail("fault", "operation %d: %d without a failure", op, r); if ((op == 2 && e) || b) mc_fail("dangling", "operation %d", op); }
    same(l, &M, "after a failure"); metas(l, &w, "after a failure"); nostr_list_free(l); nostr_list_free(b); nostr_event_destroy(e); if (fault_live()) mc_fail("leak", "operation %d: %s", op, fault_live_desc()); mc_conform(); mc_outcome(op * 50 + shape * 4 + (r != 0)); MC_NOTE("operation %d: %d after %d failure(s)", op, r, f);
}
static void params(void)
{
    nostr_list *l, *o = NULL; nostr_event *e = NULL; nostr_list_create(&l, 10000); MC_CHECK(nostr_list_create(NULL, 1) != 0 && nostr_list_add_pubkey(NULL, A, 0, 0, 0) != 0 && nostr_list_add_pubkey(l, NULL, 0, 0, 0) != 0 && nostr_list_add_event(l, NULL, 0, 0) != 0 && nostr_list_add_hashtag(l, NULL, 0) != 0 && nostr_list_add_word(l, NULL, 0) != 0 && nostr_list_add_relay(l, NULL, 0) != 0 && nostr_list_add_reference(l, NULL, 0, 0) != 0 && nostr_list_add_group(l, NULL, "x", 0, 0) != 0 && nostr_list_add_group(l, "x", NULL, 0, 0) != 0 && nostr_list_add_emoji(l, "x", NULL, 0) != 0 && nostr_list_add_word(NULL, "x", 0) != 0 && nostr_list_set_title(NULL, "x") != 0 && nostr_list_set_d_tag(NULL, "x") != 0 && nostr_list_to_event(NULL, &OWN, &e) != 0 && nostr_list_to_event(l, &OWN, NULL) != 0 && nostr_list_from_event(NULL, &OWN, &o) != 0 && nostr_list_count(NULL) == 0 && !nostr_list_get(NULL, 0) && nostr_list_remove(NULL, 0) != 0 && nostr_list_count(l) == 0, "null", "accepted"); nostr_list_free(NULL);
    nostr_list_add_word(l, "secret", 1); MC_CHECK(nostr_list_to_event(l, NULL, &e) != 0 && !e, "exposed", "private items without keys were published"); nostr_list_free(l); mc_steps(22); mc_conform(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    { "edits", edits, setup, 3, 0, "editing sequences of up to 4 (5) of 14 operations x kinds, then a round trip" }, { "texts", texts, setupt, 3, 0, "item type x public/private x texts in every field" }, { "bytes", bytes, setup, 3, 0, "every byte and byte pair" }, { "metadata", metadata, setupt, 3, 0, "metadata set, replaced, cleared" }, { "growth", growth, setup, 3, 0, "1..200 (700) items" }, { "limit", limit, setup, 3, 60, "around the item limit" }, { "foreign", foreign, setup, 3, 0, "events by others: up to 3 tags over 16 shapes" },
#if PRIV
    { "privtext", privtext, setup, 3, 0, "damaged private texts" },
#endif
    { "faults", faults, setup, 3, 0, "allocation and encryption failures" }, { "params", params, setup, 3, 0, "NULL arguments" }, MC_END
};
