/* C20: running out of memory at any point is reported, never silent.
 *
 * Every operation below runs with every single (thorough: every pair of) failing allocation inside it.  It must then either
 * deliver exactly what it delivers without the failure, or report an error, leave no dangling result behind and leave what
 * it was given usable: read-only arguments give the full result when the call is made again, and changed objects can be read
 * and destroyed.  Live allocations are accounted at the end. */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/fault.h"
#include "../lib/rng.h"
#include <nostr.h>
#include <nostr_relay_protocol.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>

static nostr_privkey SK, SK2; static nostr_key PK, PK2; static char PKH[65], PK2H[65]; static nostr_keypair KP; static char ID1[65], ID2[65];
static nostr_event *EV, *EVBIG, *DEL, *ZREQ, *ZREC, *RL, *LST, *DELEG, *REACT, *REPOST, *MANY; static char *EVJ, *EVBIGJ; static nostr_delegation DG; static char NPROF[2000], NEVENT[2000], NADDR[2000], NRELAY[300], NPUB[100], NOTE[100];
static nostr_filter_t FIL; static nostr_list *L; static nostr_relay_list *RLIST; static nostr_nprofile PROF; static nostr_nevent NEV; static nostr_naddr ADDR;
static const char *LONGV[30]; static char LONGC[5001]; static const char *FILJ; static char *CMSG[8]; static nostr_hd_key HD;

static int CUR;
static const char *opname(int);
/* ---- one operation with failures ---- */
static uint64_t H; static int rc, arming, V;
#define ARMED(...) do { if (arming) fault_arm(); __VA_ARGS__; fault_disarm(); } while (0)
/* read-only arguments: after an error the same call gives the full result */
#define CALL(expr, undangling, hash, clean) do { ARMED(rc = (int)(expr)); if (rc) { if (!(undangling)) mc_fail("dangling", "a failed call leaves a result behind"); int r2 = (int)(expr); if (r2) mc_fail("not-usable", "%s %d: the same call fails again, without a failing allocation: %d", opname(CUR), V, r2); } H = (hash); clean; } while (0)
/* an object is changed: after an error it can be read (use) */
#define CHANGE(expr, use, hash) do { ARMED(rc = (int)(expr)); uint64_t u_ = (use); (void)u_; if (!rc) H = (hash); } while (0)
static uint64_t hs(uint64_t h, const char *s) { return s ? mc_hash_u64(mc_hash(h, s, strlen(s)), 1) : mc_hash_u64(h, 2); }
static uint64_t hstrs(uint64_t h, char *const *s, size_t n) { h = mc_hash_u64(h, n); for (size_t i = 0; i < n; i++) h = hs(h, s[i]); return h; }
static uint64_t eh(const nostr_event *e) { uint64_t h = mc_hash_u64(MC_H0, e->kind); h = mc_hash(h, e->pubkey.data, 32); h = hs(h, e->content ? e->content : ""); for (size_t i = 0; i < e->tags_count; i++) h = hstrs(h, e->tags[i].values, e->tags[i].count); return h; }
static uint64_t fh(const nostr_filter_t *f)
{
    uint64_t h = MC_H0; h = hstrs(h, f->ids, f->ids_count); h = hstrs(h, f->authors, f->authors_count); h = mc_hash(h, f->kinds, f->kinds_count * 4); h = hstrs(h, f->e_tags, f->e_tags_count); h = hstrs(h, f->p_tags, f->p_tags_count); h = mc_hash_u64(h, f->generic_tags_count);
    for (size_t i = 0; i < f->generic_tags_count; i++) h = hstrs(mc_hash_u64(h, f->generic_tags[i].tag_name), f->generic_tags[i].values, f->generic_tags[i].values_count);
    return hs(mc_hash_u64(mc_hash_u64(mc_hash_u64(h, f->since), f->until), f->limit), f->search);
}
static uint64_t lh(const nostr_list *l) { uint64_t h = mc_hash_u64(MC_H0, l->kind); h = hs(hs(hs(hs(h, l->d_tag), l->title), l->description), l->image); h = mc_hash_u64(h, l->item_count); for (size_t i = 0; i < l->item_count; i++) { const nostr_list_item *x = nostr_list_get(l, i); h = mc_hash_u64(hs(hs(hs(hs(h, x->tag_type), x->value), x->relay_hint), x->petname), x->is_private); } return h; }
static uint64_t rh(const nostr_relay_list *l) { uint64_t h = mc_hash_u64(MC_H0, nostr_relay_list_count(l)); for (size_t i = 0; i < nostr_relay_list_count(l); i++) { const nostr_relay_list_entry *x = nostr_relay_list_get(l, i); h = mc_hash_u64(hs(h, x->url), x->read * 2 + x->write); } return h; }
static uint64_t mh(const nostr_client_msg_t *m) { uint64_t h = mc_hash_u64(MC_H0, nostr_client_msg_get_type(m)); const nostr_event *e = nostr_client_msg_get_event(m); if (e) h = mc_hash_u64(h, refev_hash(e)); h = hs(h, nostr_client_msg_get_subscription_id(m)); size_t n = 0; const nostr_filter_t *f = nostr_client_msg_get_filters(m, &n); h = mc_hash_u64(h, n); for (size_t i = 0; f && i < n; i++) h = mc_hash_u64(h, fh(&f[i])); return h; }
static uint64_t dh(const nostr_delegation *d) { return mc_hash(hs(mc_hash(MC_H0, d->delegator_pubkey.data, 32), d->conditions), d->token, 64); }
static uint64_t ph(const nostr_nprofile *p) { return hstrs(mc_hash(MC_H0, p->pubkey.data, 32), p->relays, p->relay_count); }
static uint64_t nh(const nostr_nevent *n) { return hstrs(mc_hash_u64(mc_hash_u64(mc_hash(mc_hash(MC_H0, n->id, 32), n->author.data, 32), n->has_author * 2 + n->has_kind), n->kind), n->relays, n->relay_count); }
static uint64_t ah(const nostr_naddr *n) { return hstrs(mc_hash_u64(mc_hash(hs(MC_H0, n->identifier), n->pubkey.data, 32), n->kind), n->relays, n->relay_count); }
static uint64_t drh(const nostr_deletion_request_t *d) { return hs(hs(hstrs(hstrs(MC_H0, d->event_ids, d->event_ids_count), d->addresses, d->addresses_count), d->pubkey), d->reason); }
static nostr_event *copy(const nostr_event *e) { nostr_event *c = refev_new(); c->kind = e->kind; c->created_at = e->created_at; c->pubkey = e->pubkey; memcpy(c->id, e->id, 32); memcpy(c->sig, e->sig, 64); nostr_event_set_content(c, e->content ? e->content : ""); for (size_t i = 0; i < e->tags_count; i++) if (nostr_event_add_tag(c, (const char **)e->tags[i].values, e->tags[i].count)) mc_fail("harness", "copy"); return c; }
static uint64_t use(const nostr_event *e) { return eh(e); }

/* ---- events ---- */
static void o_create(void) { nostr_event *e = NULL; CALL(nostr_event_create(&e), e == NULL, eh(e), nostr_event_destroy(e)); }
static void o_content(void) { nostr_event *e = copy(V ? EV : EVBIG); CHANGE(nostr_event_set_content(e, V == 2 ? "" : "a new content that is longer than a few bytes"), use(e), eh(e)); nostr_event_destroy(e); }
static void o_tag(void) { static const char *v[60]; for (int i = 0; i < 60; i++) v[i] = "a tag value of some length, to fill the arena: 0123456789"; nostr_event *e = V & 1 ? refev_new() : copy(EVBIG); CHANGE(nostr_event_add_tag(e, v, V < 2 ? 3 : 60), use(e), eh(e)); nostr_event_destroy(e); }
static void o_tags(void) { nostr_event *e = refev_new(); int n = 0; ARMED({ rc = 0; for (int i = 0; i < 40 && !rc; i++) { const char *v[] = { "t", "value value value value value value" }; rc = nostr_event_add_tag(e, v, 2); n += !rc; } }); if ((int)e->tags_count != n) mc_fail("count", "%zu tags after %d additions", e->tags_count, n); H = rc ? 0 : eh(e); nostr_event_destroy(e); }
static nostr_event *src(void) { return V == 0 ? EV : V == 1 ? EVBIG : V == 2 ? MANY : DEL; }
static void o_id(void) { nostr_event *e = copy(src()); memset(e->id, 0, 32); CALL(nostr_event_compute_id(e), 1, mc_hash(MC_H0, e->id, 32), (void)0); nostr_event_destroy(e); }
static void o_sign(void) { rng_reset(); nostr_event *e = copy(src()); ARMED(rc = nostr_event_sign(e, &SK)); if (rc) { rng_reset(); if (nostr_event_sign(e, &SK)) mc_fail("not-usable", "signing again fails"); } if (nostr_event_verify(e)) mc_fail("altered", "the signed event does not verify"); H = mc_hash(MC_H0, e->id, 32); nostr_event_destroy(e); }
static void o_verify(void) { nostr_event *e = copy(src()); nostr_event_sign(e, &SK); if (V == 3) e->created_at++; int want = nostr_event_verify(e); ARMED(rc = nostr_event_verify(e)); if (want && !rc) mc_fail("accepted", "a forged event verifies"); if (want && rc == want) rc = 0; else if (!want && rc) { if (nostr_event_verify(e)) mc_fail("not-usable", "verifying again fails"); } H = want; nostr_event_destroy(e); }
static void o_tojson(void) { char *j = NULL; CALL(nostr_event_to_json(src(), &j), j == NULL, hs(MC_H0, j), free(j)); }
static void o_fromjson(void) { nostr_event *e = NULL; CALL(nostr_event_from_json(V ? EVBIGJ : EVJ, &e), e == NULL, refev_hash(e), nostr_event_destroy(e)); }
static void o_evparse(void) { nostr_event *e = NULL; CALL(nostr_event_parse(V ? EVBIGJ : EVJ, strlen(V ? EVBIGJ : EVJ), &e), e == NULL, refev_hash(e), nostr_event_destroy(e)); }
static char BUF[400000];
static void o_serial(void) { size_t n = 0; BUF[0] = 0; CALL(nostr_event_serialize(src(), BUF, sizeof BUF, &n), 1, mc_hash(MC_H0, BUF, n), (void)0); }
static void o_canon(void) { size_t n = 0; BUF[0] = 0; CALL(nostr_event_serialize_canonical(src(), BUF, sizeof BUF, &n), 1, mc_hash(MC_H0, BUF, n), (void)0); }
static void o_full(void) { nostr_event *e = copy(src()); nostr_event_sign(e, &SK); nostr_validation_result_t v; CALL(nostr_event_validate_full(e, 0, &v), v.valid == false, v.valid, (void)0); nostr_event_destroy(e); }
static void o_bin(void) { size_t n = 0; uint8_t (*p)[32]; ARMED(p = V ? nostr_event_get_e_tags_binary(MANY, &n) : nostr_event_get_p_tags_binary(MANY, &n)); rc = !p; if (!p && n) mc_fail("dangling", "no array but %zu entries", n); if (!p) p = V ? nostr_event_get_e_tags_binary(MANY, &n) : nostr_event_get_p_tags_binary(MANY, &n); if (!p || !n) mc_fail("not-usable", "nothing"); H = mc_hash(MC_H0, p, 32 * n); nostr_free(p); }
static void o_deletion(void) { nostr_deletion_request_t d; memset(&d, 0, sizeof d); CALL(nostr_deletion_parse(DEL, &d), (d.event_ids == NULL || !d.event_ids_count) && !d.addresses && !d.reason, drh(&d), nostr_deletion_free(&d)); }
/* ---- relay protocol ---- */
static void o_filter(void) { nostr_filter_t f; memset(&f, 0, sizeof f); CALL(nostr_filter_parse(V ? "{}" : FILJ, V ? 2 : strlen(FILJ), &f), !f.ids && !f.authors && !f.kinds && !f.e_tags && !f.p_tags && !f.generic_tags && !f.search, fh(&f), nostr_filter_free(&f)); }
static void o_clone(void) { nostr_filter_t f; memset(&f, 0, sizeof f); CALL(nostr_filter_clone(&f, &FIL), !f.ids && !f.authors && !f.kinds && !f.e_tags && !f.p_tags && !f.generic_tags && !f.search, fh(&f), nostr_filter_free(&f)); }
static void o_matches(void) { int m; ARMED(m = nostr_filter_matches(&FIL, EV) * 2 + nostr_filter_matches(&FIL, MANY)); rc = 0; H = m; }
static void o_client(void) { nostr_client_msg_t m; memset(&m, 0, sizeof m); const char *t = CMSG[V]; CALL(nostr_client_msg_parse(t, strlen(t), &m), 1, mh(&m), nostr_client_msg_free(&m)); }
static void o_clientfree(void) { nostr_client_msg_t m; memset(&m, 0, sizeof m); const char *t = CMSG[V]; ARMED(rc = nostr_client_msg_parse(t, strlen(t), &m)); H = rc ? 0 : mh(&m); nostr_client_msg_free(&m); }
static void o_relaymsg(void)
{
    nostr_relay_msg_t m; memset(&m, 0, sizeof m); size_t n = 0; ARMED({ switch (V) { case 0: nostr_relay_msg_event(&m, "sub", EVBIG); break; case 1: nostr_relay_msg_ok(&m, ID1, true, "a \"message\""); break; case 2: nostr_relay_msg_eose(&m, "sub"); break; case 3: nostr_relay_msg_closed(&m, "sub", "error: \n"); break; case 4: nostr_relay_msg_notice(&m, "notice"); break; case 5: nostr_relay_msg_auth(&m, "challenge"); break; default: nostr_relay_msg_count(&m, "q", 77, true); } rc = nostr_relay_msg_serialize(&m, BUF, sizeof BUF, &n); });
    if (rc && nostr_relay_msg_serialize(&m, BUF, sizeof BUF, &n)) mc_fail("not-usable", "serializing again fails"); H = mc_hash(MC_H0, BUF, n);
}
static nostr_relay_info_t info(void)
{
    static int32_t k[] = { 1, 2 }; static nostr_relay_retention_t ret[] = { { k, 2, 3600, 10 }, { NULL, 0, 5, 0 } }; static nostr_relay_fee_t fee[] = { { 1000, "msats", 3600, k, 2 } }; static const char *cc[] = { "DE", "US" };
    nostr_relay_info_t i; nostr_relay_info_init(&i); i.name = "n\"ame"; i.description = "d"; i.pubkey = PKH; i.contact = "c"; i.software = "s"; i.version = "v"; i.retention = ret; i.retention_count = 2; i.relay_countries = cc; i.relay_countries_count = 2; i.language_tags = cc; i.language_tags_count = 2; i.tags = cc; i.tags_count = 1; i.posting_policy = "p"; i.payments_url = "u"; i.fees.admission = fee; i.fees.admission_count = 1; i.fees.subscription = fee; i.fees.subscription_count = 1; i.fees.publication = fee; i.fees.publication_count = 1;
    i.limitation.max_message_length = 100; i.limitation.auth_required = true; i.limitation.created_at_upper_limit = 900; return i;
}
/* only the NIP list is owned by the library here */
static void info_done(nostr_relay_info_t *i) { nostr_relay_info_t o; nostr_relay_info_init(&o); o.supported_nips = i->supported_nips; o.supported_nips_count = i->supported_nips_count; nostr_relay_info_free(&o); }
static uint64_t nips(const nostr_relay_info_t *i) { return mc_hash(mc_hash_u64(MC_H0, i->supported_nips_count), i->supported_nips, i->supported_nips_count * 4); }
static void o_info(void) { nostr_relay_info_t i = info(); nostr_relay_info_add_nip(&i, 1); nostr_relay_info_add_nip(&i, 11); size_t n = 0; CALL(nostr_relay_info_serialize(&i, BUF, sizeof BUF, &n), 1, mc_hash(MC_H0, BUF, n), (void)0); info_done(&i); }
static void o_limit(void) { nostr_relay_limitation_t l; nostr_relay_limitation_init(&l); l.max_filters = 7; l.payment_required = true; size_t n = 0; CALL(nostr_relay_limitation_serialize(&l, BUF, sizeof BUF, &n), 1, mc_hash(MC_H0, BUF, n), (void)0); }
static void o_nips(void) { nostr_relay_info_t i = info(); static const int32_t a[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (V & 1) nostr_relay_info_set_nips(&i, a, 9); uint64_t before = nips(&i); if (V < 2) CHANGE(nostr_relay_info_add_nip(&i, 42), nips(&i), nips(&i)); else CHANGE(nostr_relay_info_set_nips(&i, a + 2, 5), nips(&i), nips(&i)); if (rc && nips(&i) != before) mc_fail("altered", "the NIP list is changed by a call that failed"); info_done(&i); }
static void o_addnips(void) { nostr_relay_info_t i = info(); int n = 0; ARMED({ rc = 0; for (int k = 0; k < 40 && !rc; k++) { rc = nostr_relay_info_add_nip(&i, 100 + k); n += !rc; } }); if ((int)i.supported_nips_count != n) mc_fail("count", "%zu NIPs after %d additions", i.supported_nips_count, n); H = rc ? 0 : nips(&i); info_done(&i); }
/* ---- entities ---- */
static void o_nprofile(void) { nostr_nprofile p; memset(&p, 0, sizeof p); CALL(nostr_nprofile_decode(NPROF, &p), p.relay_count == 0, ph(&p), nostr_nprofile_free(&p)); }
static void o_nevent(void) { nostr_nevent p; memset(&p, 0, sizeof p); CALL(nostr_nevent_decode(NEVENT, &p), p.relay_count == 0, nh(&p), nostr_nevent_free(&p)); }
static void o_naddr(void) { nostr_naddr p; memset(&p, 0, sizeof p); CALL(nostr_naddr_decode(NADDR, &p), p.relay_count == 0, ah(&p), nostr_naddr_free(&p)); }
static void o_nrelay(void) { nostr_nrelay p; memset(&p, 0, sizeof p); CALL(nostr_nrelay_decode(NRELAY, &p), 1, hs(MC_H0, p.url), (void)0); }
static void o_encode(void)
{
    BUF[0] = 0; nostr_nrelay r; memset(&r, 0, sizeof r); strcpy(r.url, "wss://r.example"); nostr_uri u; memset(&u, 0, sizeof u); u.type = NOSTR_URI_NPROFILE; u.data.nprofile = PROF;
    switch (V) { case 0: CALL(nostr_nprofile_encode(&PROF, BUF, 4000), 1, hs(MC_H0, BUF), (void)0); break; case 1: CALL(nostr_nevent_encode(&NEV, BUF, 4000), 1, hs(MC_H0, BUF), (void)0); break; case 2: CALL(nostr_naddr_encode(&ADDR, BUF, 4000), 1, hs(MC_H0, BUF), (void)0); break; case 3: CALL(nostr_nrelay_encode(&r, BUF, 4000), 1, hs(MC_H0, BUF), (void)0); break; default: CALL(nostr_uri_encode(&u, BUF, 4000), 1, hs(MC_H0, BUF), (void)0); }
}
static void o_uri(void) { nostr_uri u; memset(&u, 0, sizeof u); char s[2100]; snprintf(s, 2100, "nostr:%s", V == 0 ? NPROF : V == 1 ? NEVENT : V == 2 ? NADDR : V == 3 ? NRELAY : V == 4 ? NPUB : NOTE); CALL(nostr_uri_parse(s, &u), 1, mc_hash_u64(u.type, u.type == NOSTR_URI_NPROFILE ? ph(&u.data.nprofile) : u.type == NOSTR_URI_NEVENT ? nh(&u.data.nevent) : u.type == NOSTR_URI_NADDR ? ah(&u.data.naddr) : 0), nostr_uri_free(&u)); }
static void o_urifree(void) { nostr_uri u; memset(&u, 0, sizeof u); char s[2100]; snprintf(s, 2100, "nostr:%s", V == 0 ? NPROF : V == 1 ? NEVENT : NADDR); ARMED(rc = nostr_uri_parse(s, &u)); H = 0; nostr_uri_free(&u); }
static void o_bech(void) { char o[200] = ""; nostr_key k; nostr_privkey p; uint8_t id[32]; memset(&k, 0, sizeof k); switch (V) { case 0: CALL(nostr_key_to_bech32(&PK, "npub", o, 200), 1, hs(MC_H0, o), (void)0); break; case 1: CALL(nostr_key_from_bech32(NPUB, &k), 1, mc_hash(MC_H0, k.data, 32), (void)0); break; case 2: CALL(nostr_privkey_to_bech32(&SK, o, 200), 1, hs(MC_H0, o), (void)0); break; case 3: nostr_privkey_to_bech32(&SK, o, 200); CALL(nostr_privkey_from_bech32(o, &p), 1, mc_hash(MC_H0, p.data, 32), (void)0); break; case 4: CALL(nostr_event_id_to_bech32(EV->id, o, 200), 1, hs(MC_H0, o), (void)0); break; default: CALL(nostr_event_id_from_bech32(NOTE, id), 1, mc_hash(MC_H0, id, 32), (void)0); } }
/* ---- keys ---- */
static void o_keypair(void) { rng_reset(); nostr_keypair k; memset(&k, 0, sizeof k); char hx[65]; ref_hex(SK.data, 32, hx); switch (V) { case 0: CALL((rng_reset(), nostr_keypair_generate(&k)), 1, mc_hash(MC_H0, k.pubkey.data, 32), nostr_keypair_destroy(&k)); break; case 1: CALL(nostr_keypair_from_private_key(&k, &SK), 1, mc_hash(MC_H0, k.pubkey.data, 32), nostr_keypair_destroy(&k)); break; default: CALL(nostr_keypair_from_private_hex(&k, hx), 1, mc_hash(MC_H0, k.pubkey.data, 32), nostr_keypair_destroy(&k)); } }
static void o_ecdh(void) { uint8_t s[32]; memset(s, 0, 32); CALL(nostr_key_ecdh(&SK, &PK2, s), 1, mc_hash(MC_H0, s, 32), (void)0); }
static void o_hd(void) { nostr_hd_key k; memset(&k, 0, sizeof k); uint8_t seed[64]; memset(seed, 7, 64); switch (V) { case 0: CALL(nostr_hd_key_from_seed(seed, 64, &k), 1, mc_hash(MC_H0, &k, sizeof k), (void)0); break; case 1: CALL(nostr_hd_key_derive(&HD, 5, &k), 1, mc_hash(MC_H0, &k, sizeof k), (void)0); break; default: CALL(nostr_hd_key_derive_path(&HD, "m/44'/1237'/0'/0/0", &k), 1, mc_hash(MC_H0, &k, sizeof k), (void)0); } }
static const char *const MN = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
static void o_mnemonic(void) { char m[300] = ""; uint8_t seed[64]; memset(seed, 0, 64); nostr_keypair k; memset(&k, 0, sizeof k); switch (V) { case 0: CALL((rng_reset(), nostr_mnemonic_generate(24, m, 300)), 1, hs(MC_H0, m), (void)0); break; case 1: CALL(nostr_mnemonic_validate(MN), 1, 1, (void)0); break; case 2: CALL(nostr_mnemonic_to_seed(MN, "pass\xc3\xa9", seed), 1, mc_hash(MC_H0, seed, 64), (void)0); break; default: CALL(nostr_mnemonic_to_keypair(MN, "", 0, &k), 1, mc_hash(MC_H0, k.pubkey.data, 32), nostr_keypair_destroy(&k)); } }
static char NSEC[300];
static void o_ncryptsec(void) { char o[300] = ""; nostr_privkey k; memset(&k, 0, sizeof k); switch (V) { case 0: CALL((rng_reset(), nostr_ncryptsec_encrypt(&SK, "pw", 16, o, 300)), 1, hs(MC_H0, o), (void)0); break; case 1: CALL(nostr_ncryptsec_decrypt(NSEC, "pw", &k), !memcmp(k.data, (uint8_t[32]){ 0 }, 32), mc_hash(MC_H0, k.data, 32), (void)0); break; default: CALL(nostr_ncryptsec_validate(NSEC), 1, 1, (void)0); } }
/* ---- NIPs ---- */
static void o_delegate(void) { nostr_delegation d; memset(&d, 0, sizeof d); CALL((rng_reset(), nostr_delegation_create(&SK, &PK2, "kind=1&created_at>5&created_at<99", &d)), d.conditions == NULL, hs(MC_H0, d.conditions), nostr_delegation_free(&d)); }
static void o_delverify(void) { CALL(nostr_delegation_verify(&DG, &PK2), 1, 1, (void)0); }
static void o_deladd(void) { nostr_event *e = copy(EV); CHANGE(nostr_event_add_delegation(e, &DG), use(e), eh(e)); nostr_event_destroy(e); }
static void o_delget(void) { nostr_delegation d; memset(&d, 0, sizeof d); CALL(nostr_event_get_delegation(DELEG, &d), d.conditions == NULL, dh(&d), nostr_delegation_free(&d)); }
static void o_delev(void) { CALL(nostr_event_verify_delegation(DELEG), 1, 1, (void)0); }
static void o_lcreate(void) { nostr_list *l = NULL; CALL(nostr_list_create(&l, 30003), l == NULL, lh(l), nostr_list_free(l)); }
static nostr_list *lcopy(int many) { nostr_list *l = NULL; if (nostr_list_create(&l, 30003)) mc_fail("harness", "list"); nostr_list_set_d_tag(l, "d"); nostr_list_set_title(l, "t"); for (int i = 0; i < many; i++) nostr_list_add_hashtag(l, "tag", 0); return l; }
static void o_lset(void) { nostr_list *l = lcopy(2); uint64_t before = lh(l); switch (V) { case 0: CHANGE(nostr_list_set_d_tag(l, "other"), lh(l), lh(l)); break; case 1: CHANGE(nostr_list_set_title(l, "other"), lh(l), lh(l)); break; case 2: CHANGE(nostr_list_set_description(l, "other"), lh(l), lh(l)); break; default: CHANGE(nostr_list_set_image(l, "other"), lh(l), lh(l)); } if (rc && lh(l) != before && V > 3) mc_fail("altered", "changed"); nostr_list_free(l); }
static void o_ladd(void)
{
    static const int M[] = { 0, 7, 8, 15, 16, 32 }; nostr_list *l = lcopy(M[V / 8]); uint64_t before = lh(l);
    switch (V % 8) { case 0: CHANGE(nostr_list_add_pubkey(l, PKH, "wss://r", "pet", false), lh(l), lh(l)); break; case 1: CHANGE(nostr_list_add_event(l, ID1, "wss://r", true), lh(l), lh(l)); break; case 2: CHANGE(nostr_list_add_hashtag(l, "h", false), lh(l), lh(l)); break; case 3: CHANGE(nostr_list_add_word(l, "w", true), lh(l), lh(l)); break; case 4: CHANGE(nostr_list_add_relay(l, "wss://x", false), lh(l), lh(l)); break; case 5: { char a[100]; snprintf(a, 100, "30023:%s:x", PKH); CHANGE(nostr_list_add_reference(l, a, "wss://r", false), lh(l), lh(l)); break; } case 6: CHANGE(nostr_list_add_group(l, "g", "wss://r", "name", true), lh(l), lh(l)); break; default: CHANGE(nostr_list_add_emoji(l, "smile", "https://x/y.png", false), lh(l), lh(l)); }
    if (rc && lh(l) != before) mc_fail("altered", "a failed addition changes the list"); nostr_list_free(l);
}
static void o_lto(void) { nostr_event *e = NULL; CALL((rng_reset(), nostr_list_to_event(L, &KP, &e)), e == NULL, eh(e), nostr_event_destroy(e)); }
static void o_lfrom(void) { nostr_list *l = NULL; CALL(nostr_list_from_event(LST, V ? &KP : NULL, &l), l == NULL, lh(l), nostr_list_free(l)); }
static void o_rcreate(void) { nostr_relay_list *l = NULL; CALL(nostr_relay_list_create(&l), l == NULL, rh(l), nostr_relay_list_free(l)); }
static void o_radd(void) { nostr_relay_list *l = NULL; if (nostr_relay_list_create(&l)) mc_fail("harness", "list"); for (int i = 0; i < V; i++) { char u[40]; sprintf(u, "wss://r%d.example", i); nostr_relay_list_add(l, u, 1, i & 1); } uint64_t b = rh(l); CHANGE(nostr_relay_list_add(l, "wss://new.example", true, true), rh(l), rh(l)); if (rc && rh(l) != b) mc_fail("altered", "a failed addition changes the list"); nostr_relay_list_free(l); }
static void o_rto(void) { nostr_event *e = NULL; CALL(nostr_relay_list_to_event(RLIST, &e), e == NULL, eh(e), nostr_event_destroy(e)); }
static void o_rfrom(void) { nostr_relay_list *l = NULL; CALL(nostr_relay_list_from_event(RL, &l), l == NULL, rh(l), nostr_relay_list_free(l)); }
static void o_rsel(void) { char **u = NULL; size_t n = 0; CALL(V ? nostr_relay_list_get_read_relays(RLIST, &u, &n) : nostr_relay_list_get_write_relays(RLIST, &u, &n), u == NULL, hstrs(MC_H0, u, n), nostr_relay_list_free_urls(u, n)); }
static void o_reply(void) { nostr_event *e = copy(V ? EV : MANY); CHANGE(nostr_event_add_reply_tags(e, ID1, "wss://root", PKH, ID2, V ? NULL : "wss://reply", PK2H), use(e), eh(e)); nostr_event_destroy(e); }
static void o_mention(void) { nostr_event *e = copy(MANY); CHANGE(nostr_event_add_mention_tag(e, PK2H, "wss://x"), use(e), eh(e)); nostr_event_destroy(e); }
static void o_roots(void) { char a[65] = "", b[300] = ""; CALL(V ? nostr_event_get_root_id(MANY, a, 65, b, 300) : nostr_event_get_reply_id(MANY, a, 65, b, 300), 1, hs(hs(MC_H0, a), b), (void)0); }
static void o_react(void) { nostr_event *e = NULL; CALL(nostr_reaction_create(&e, "+", ID1, PKH, "wss://x", 1), e == NULL, eh(e), nostr_event_destroy(e)); }
static void o_reactp(void) { char a[100] = "", b[65] = "", c[65] = ""; uint16_t k = 0; CALL(nostr_reaction_parse(REACT, a, 100, b, 65, c, 65, &k), 1, hs(hs(hs(k, a), b), c), (void)0); }
static void o_repost(void) { nostr_event *e = NULL; CALL(nostr_repost_create(&e, ID1, PKH, "wss://x", V ? 30023 : 1, V ? "dd" : NULL, V ? NULL : EVJ), e == NULL, eh(e), nostr_event_destroy(e)); }
static void o_repostp(void) { char a[65] = "", b[65] = "", c[100] = ""; uint16_t k = 0; CALL(nostr_repost_parse(REPOST, a, 65, b, 65, c, 100, &k), 1, hs(hs(hs(k, a), b), c), (void)0); }
static void o_quote(void) { nostr_event *e = copy(EV); static char t[8000]; snprintf(t, 8000, "see nostr:%s and nostr:%s or nostr:%s, nostr:%s", NOTE, NEVENT, NADDR, NPUB); nostr_event_set_content(e, t); CHANGE(nostr_quote_tags_from_content(e), use(e), eh(e)); nostr_event_destroy(e); }
static char N5[1000];
static void o_nip05(void) { char k[65] = "", **r = NULL; size_t n = 0; CALL(nostr_nip05_parse_response(N5, "bob", k, 65, &r, &n), r == NULL && n == 0, hstrs(hs(MC_H0, k), r, n), nostr_nip05_free_relays(r, n)); }
static nostr_error_t http(const char *url, char **out, size_t *len, void *u) { (void)u; (void)url; int p = fault_pause(); fault_track(p >> 1); *out = strdup(N5); *len = strlen(N5); fault_resume(p); return NOSTR_OK; }
static void o_nip05v(void) { char **r = NULL; size_t n = 0; CALL(nostr_nip05_verify("bob@example.com", PKH, http, NULL, &r, &n), r == NULL, hstrs(MC_H0, r, n), nostr_nip05_free_relays(r, n)); }
static void o_nip05s(void) { char a[100] = "", b[100] = ""; if (V) CALL(nostr_nip05_build_url("bob", "example.com", a, 100), 1, hs(MC_H0, a), (void)0); else CALL(nostr_nip05_parse("bob@example.com", a, 100, b, 100), 1, hs(hs(MC_H0, a), b), (void)0); }
static void o_zreq(void) { const char *r[] = { "wss://a", "wss://b" }; nostr_event *e = NULL; CALL(nostr_zap_create_request(&e, 21000, &PK, V ? NULL : "lnurl1dp68gurn8ghj7um5v93kketj9ehx2amn9uh8wetvdskkkmn0wahz7mrww4excup0dajx2mrv92x9xp", "hi", r, 2), e == NULL, eh(e), nostr_event_destroy(e)); }
static void o_zrec(void) { uint64_t a = 0; char *b = NULL, pre[65] = ""; nostr_event *q = NULL; CALL(nostr_zap_parse_receipt(ZREC, &a, V & 1 ? &b : NULL, pre, V & 2 ? &q : NULL), b == NULL && q == NULL, hs(hs(mc_hash_u64(a, q ? refev_hash(q) : 0), b), pre), (free(b), nostr_event_destroy(q))); }
static void o_zver(void) { CALL(nostr_zap_verify(ZREC, ZREQ, PK2H), 1, 1, (void)0); }
static void o_lnurl(void) { CALL(nostr_zap_validate_lnurl("lnurl1dp68gurn8ghj7um5v93kketj9ehx2amn9uh8wetvdskkkmn0wahz7mrww4excup0dajx2mrv92x9xp", NULL, NULL), 1, 1, (void)0); }
static void o_nonce(void) { nostr_event *e = copy(V ? MANY : EV); CHANGE(nostr_nip13_add_nonce_tag(e, 123456, 20), use(e), eh(e)); nostr_event_destroy(e); }
static void o_mine(void) { nostr_event *e = copy(EV); CHANGE(nostr_nip13_mine_event(e, 4, 100000), use(e), eh(e)); if (!rc && nostr_nip13_verify_pow(e, 4)) mc_fail("altered", "mined without the work"); nostr_event_destroy(e); }
static void o_mask(void) { nostr_event *e = copy(EV); nostr_nip13_mine_event(e, 4, 100000); CALL(nostr_nip13_verify_pow(e, 4), 1, 1, (void)0); nostr_event_destroy(e); }
static void o_relay(void) { nostr_relay *r = NULL; CALL(nostr_relay_create(&r, "wss://relay.example"), r == NULL, hs(MC_H0, r->url), nostr_relay_destroy(r)); }
static void o_tagval(void) { const char *v[8]; size_t n; ARMED(n = nostr_event_get_tag_values(MANY, "e", v, 8)); rc = 0; H = n; for (size_t i = 0; i < n && i < 8; i++) H = hs(H, v[i]); }
static void o_config(void) { nostr_config c; nostr_config_get_defaults(&c); c.max_sessions = 7; CALL(nostr_config_update(&c), 1, nostr_config_get_current()->max_sessions, (void)0); nostr_config_get_defaults(&c); nostr_config_update(&c); }
static void o_expire(void) { int64_t x; ARMED(x = nostr_event_get_expiration(MANY)); rc = 0; H = (uint64_t)x; }

static const struct { const char *name; void (*f)(void); int nv; } OP[] = {
#define O(f, n) { #f, o_##f, n }
    O(create, 1), O(content, 3), O(tag, 4), O(tags, 1), O(id, 4), O(sign, 4), O(verify, 4), O(tojson, 4), O(fromjson, 2), O(evparse, 2), O(serial, 4), O(canon, 4), O(full, 4), O(bin, 2), O(deletion, 1), O(filter, 2), O(clone, 1), O(matches, 1), O(client, 6), O(clientfree, 6), O(relaymsg, 7), O(info, 1), O(limit, 1), O(nips, 4), O(addnips, 1),
    O(nprofile, 1), O(nevent, 1), O(naddr, 1), O(nrelay, 1), O(encode, 5), O(uri, 6), O(urifree, 3), O(bech, 6), O(keypair, 3), O(ecdh, 1), O(hd, 3), O(mnemonic, 4), O(ncryptsec, 3), O(delegate, 1), O(delverify, 1), O(deladd, 1), O(delget, 1), O(delev, 1), O(lcreate, 1), O(lset, 4), O(ladd, 48), O(lto, 1), O(lfrom, 2), O(rcreate, 1), O(radd, 20), O(rto, 1), O(rfrom, 1), O(rsel, 2),
    O(reply, 2), O(mention, 1), O(roots, 2), O(react, 1), O(reactp, 1), O(repost, 2), O(repostp, 1), O(quote, 1), O(nip05, 1), O(nip05v, 1), O(nip05s, 2), O(zreq, 2), O(zrec, 4), O(zver, 1), O(lnurl, 1), O(nonce, 2), O(mine, 1), O(mask, 1), O(relay, 1), O(tagval, 1), O(config, 1), O(expire, 1) };
#define NOP MC_LEN(OP)
static struct { int known; uint64_t h; int rc; } BASE[NOP][50];

static void need(int r, const char *w) { if (r) { fprintf(stderr, "c20 setup: %s: %d\n", w, r); abort(); } }
static int64_t NOW = 1700000000; time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
static void setup(void)
{
    for (int i = 0; i < 30; i++) LONGV[i] = "a value of a tag with many of them, filling more than an arena of four thousand bytes: 0123456789 0123456789 0123456789 0123456789"; memset(LONGC, 'c', 5000);
    fault_install(); if (!fault_openssl()) { fprintf(stderr, "c20: cannot reach OpenSSL's allocations\n"); abort(); } { nostr_config c; nostr_config_get_defaults(&c); if (nostr_init_with_config(&c)) nostr_init(); } rng_reset(); memset(SK.data, 7, 32); memset(SK2.data, 9, 32); nostr_keypair k; memset(&KP, 0, sizeof KP); need(nostr_keypair_from_private_key(&KP, &SK), "key"); PK = KP.pubkey; memset(&k, 0, sizeof k); need(nostr_keypair_from_private_key(&k, &SK2), "key"); PK2 = k.pubkey; ref_hex(PK.data, 32, PKH); ref_hex(PK2.data, 32, PK2H);
    for (int i = 0; i < 32; i++) { sprintf(ID1 + 2 * i, "%02x", i * 5 + 1 & 255); sprintf(ID2 + 2 * i, "%02x", i * 3 + 2 & 255); }
    EV = refev_new(); nostr_event_set_content(EV, "hello \"w\\orld\"\n"); refev_tag(EV, 2, "t", "x", NULL, NULL); need(nostr_event_sign(EV, &SK), "sign");
    EVBIG = refev_new(); { char *t = malloc(30001); memset(t, 'y', 30000); t[30000] = 0; nostr_event_set_content(EVBIG, t); free(t); for (int i = 0; i < 60; i++) refev_tag(EVBIG, 3, "e", ID1, "wss://some.relay.example", NULL); need(nostr_event_sign(EVBIG, &SK), "sign"); }
    MANY = refev_new(); refev_tag(MANY, 4, "e", ID1, "wss://a", "root"); refev_tag(MANY, 4, "e", ID2, "wss://b", "reply"); refev_tag(MANY, 2, "p", PKH, NULL, NULL); refev_tag(MANY, 2, "p", PK2H, NULL, NULL); refev_tag(MANY, 2, "expiration", "1800000000", NULL, NULL); nostr_event_set_content(MANY, "many"); need(nostr_event_sign(MANY, &SK), "sign");
    DEL = refev_new(); DEL->kind = 5; refev_tag(DEL, 2, "e", ID1, NULL, NULL); refev_tag(DEL, 2, "e", ID2, NULL, NULL); { char a[120]; snprintf(a, 120, "30023:%s:x", PKH); refev_tag(DEL, 2, "a", a, NULL, NULL); } nostr_event_set_content(DEL, "reason"); need(nostr_event_sign(DEL, &SK), "sign");
    ref_buf b = { 0 }; refev_json(&b, EV); EVJ = b.s; b = (ref_buf){ 0 }; refev_json(&b, EVBIG); EVBIGJ = b.s;
    char t[3000]; snprintf(t, sizeof t, "{\"ids\":[\"%s\",\"%.10s\"],\"authors\":[\"%s\"],\"kinds\":[1,2,3],\"#e\":[\"%s\",\"%s\"],\"#p\":[\"%s\"],\"#t\":[\"x\",\"y\"],\"#d\":[\"z\"],\"since\":5,\"until\":2000000000,\"limit\":7,\"search\":\"find me\"}", ID1, ID2, PKH, ID1, ID2, PKH); FILJ = strdup(t); need(nostr_filter_parse(FILJ, strlen(FILJ), &FIL), "filter");
    asprintf(&CMSG[0], "[\"EVENT\",%s]", EVBIGJ); asprintf(&CMSG[1], "[\"REQ\",\"sub\",%s,{\"kinds\":[1]},%s]", FILJ, FILJ); asprintf(&CMSG[2], "[\"CLOSE\",\"sub\"]"); { nostr_event *a = refev_new(); a->kind = 22242; refev_tag(a, 2, "relay", "wss://r", NULL, NULL); refev_tag(a, 2, "challenge", "c", NULL, NULL); nostr_event_sign(a, &SK); b = (ref_buf){ 0 }; refev_json(&b, a); asprintf(&CMSG[3], "[\"AUTH\",%s]", b.s); nostr_event_destroy(a); } asprintf(&CMSG[4], "[\"COUNT\",\"q\",%s,{}]", FILJ); asprintf(&CMSG[5], "[\"EVENT\",%s]", EVJ);
    PROF.pubkey = PK; PROF.relays[0] = "wss://one.example"; PROF.relays[1] = "wss://two.example"; PROF.relays[2] = "wss://three.example"; PROF.relay_count = 3; need(nostr_nprofile_encode(&PROF, NPROF, 2000), "nprofile"); memcpy(NEV.id, EV->id, 32); NEV.author = PK; NEV.has_author = 1; NEV.kind = 1; NEV.has_kind = 1; NEV.relays[0] = "wss://one.example"; NEV.relays[1] = "wss://2"; NEV.relay_count = 2; need(nostr_nevent_encode(&NEV, NEVENT, 2000), "nevent");
    strcpy(ADDR.identifier, "ident"); ADDR.pubkey = PK; ADDR.kind = 30023; ADDR.relays[0] = "wss://one.example"; ADDR.relays[1] = "wss://2"; ADDR.relay_count = 2; need(nostr_naddr_encode(&ADDR, NADDR, 2000), "naddr"); nostr_nrelay nr; memset(&nr, 0, sizeof nr); strcpy(nr.url, "wss://relay.example"); need(nostr_nrelay_encode(&nr, NRELAY, 300), "nrelay"); need(nostr_key_to_bech32(&PK, "npub", NPUB, 100), "npub"); need(nostr_event_id_to_bech32(EV->id, NOTE, 100), "note");
    uint8_t seed[64]; memset(seed, 7, 64); need(nostr_hd_key_from_seed(seed, 64, &HD), "hd"); need(nostr_ncryptsec_encrypt(&SK, "pw", 16, NSEC, 300), "ncryptsec"); need(nostr_delegation_create(&SK, &PK2, "kind=1&created_at>5", &DG), "delegation");
    DELEG = refev_new(); need(nostr_event_add_delegation(DELEG, &DG), "delegation"); need(nostr_event_sign(DELEG, &SK2), "sign"); need(nostr_event_verify_delegation(DELEG), "delegation");
    need(nostr_list_create(&L, 30003), "list"); nostr_list_set_d_tag(L, "d"); nostr_list_set_title(L, "title"); nostr_list_set_description(L, "descr"); nostr_list_set_image(L, "img"); nostr_list_add_pubkey(L, PKH, "wss://r", "pet", 0); nostr_list_add_event(L, ID1, "wss://r", 0); nostr_list_add_hashtag(L, "h", 0); nostr_list_add_relay(L, "wss://q", 0);
#ifdef BUILD_SEAM44
    nostr_list_add_word(L, "secret", 1); nostr_list_add_pubkey(L, PK2H, "wss://r", "pet", 1);
#endif
    need(nostr_list_to_event(L, &KP, &LST), "list event"); need(nostr_relay_list_create(&RLIST), "relays"); for (int i = 0; i < 5; i++) { char u[40]; sprintf(u, "wss://r%d.example", i); nostr_relay_list_add(RLIST, u, i != 1, i != 2); } need(nostr_relay_list_to_event(RLIST, &RL), "relays event");
    need(nostr_reaction_create(&REACT, "+", ID1, PKH, "wss://x", 1), "reaction"); need(nostr_repost_create(&REPOST, ID1, PKH, "wss://x", 1, NULL, EVJ), "repost"); snprintf(N5, 1000, "{\"names\":{\"al\":\"%s\",\"bob\":\"%s\"},\"relays\":{\"%s\":[\"wss://a\",\"wss://b\",\"wss://c\"]}}", ID1, PKH, PKH);
    ZREQ = refev_new(); ZREQ->kind = 9734; const char *am[] = { "amount", "21000" }, *rr[] = { "relays", "wss://a" }, *pp[] = { "p", PKH }; nostr_event_add_tag(ZREQ, am, 2); nostr_event_add_tag(ZREQ, rr, 2); nostr_event_add_tag(ZREQ, pp, 2); need(nostr_event_sign(ZREQ, &SK), "zap"); b = (ref_buf){ 0 }; refev_json(&b, ZREQ);
    ZREC = refev_new(); ZREC->kind = 9735; refev_tag(ZREC, 2, "p", PKH, NULL, NULL); refev_tag(ZREC, 2, "bolt11", "lnbc210n1pvjluezpp5qqqsyqcyq5rqwzqfqqqsyqcyq5rqwzqfqqqsyqcyq5rqwzqfqypq", NULL, NULL); refev_tag(ZREC, 2, "description", b.s, NULL, NULL); refev_tag(ZREC, 2, "preimage", ID1, NULL, NULL); need(nostr_event_sign(ZREC, &SK2), "receipt"); need(nostr_zap_verify(ZREC, ZREQ, PK2H), "zap verify");
}
static const char *opname(int o) { return OP[o].name; }
static void judge(int o, int bound)
{
    CUR = o;
    if (!BASE[o][V].known) { arming = 0; fault_reset(); fault_track(1); H = 0; rc = 0; OP[o].f(); fault_track(0); if (fault_live()) mc_fail("leak", "without any failure: %ld allocations are left: %s", fault_live(), fault_live_desc()); BASE[o][V].known = 1; BASE[o][V].h = H; BASE[o][V].rc = rc; if (rc) mc_fail("harness", "%s %d fails without a failure: %d", OP[o].name, V, rc); }
    mc_set_dev_bound(bound); arming = 1; fault_reset(); fault_track(1); H = 0; rc = 0; MC_NOTE("operation %s %d", OP[o].name, V);
    OP[o].f(); fault_track(0); mc_step(); MC_NOTE("result %d, %d failed allocations", rc, fault_injected());
    if (rc && !fault_injected()) mc_fail("error", "%s %d: error %d although no allocation failed", OP[o].name, V, rc);
    if (!rc && H != BASE[o][V].h) mc_fail("altered", "%s %d succeeds with another result", OP[o].name, V);
    if (rc && H && H != BASE[o][V].h) mc_fail("altered-again", "%s %d: called again after a failure it gives another result", OP[o].name, V);
    if (fault_live()) mc_fail("leak", "%s %d: %ld allocations are left: %s", OP[o].name, V, fault_live(), fault_live_desc());
    mc_conform(); mc_eval(1); mc_outcome(mc_hash_u64(mc_hash_u64(o, V), rc * 4 + fault_injected())); mc_state(mc_hash_u64(o, rc != 0));
}
/* ---- histories on one object: what failed leaves it as it was, what succeeded is there, whatever failed before ---- */

static int ev_op(nostr_event *e, int k)
{
    static const char *const a[] = { "t", "x" }, *const b[] = { "e", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "wss://some.relay.example" };
    switch (k) { case 0: return nostr_event_set_content(e, "short"); case 1: return nostr_event_set_content(e, LONGC); case 2: return nostr_event_add_tag(e, (const char **)a, 2); case 3: return nostr_event_add_tag(e, (const char **)b, 3); case 4: return nostr_event_add_tag(e, LONGV, 30); case 5: return nostr_event_compute_id(e); case 6: return nostr_event_sign(e, &SK); default: { char *j = NULL; int r = nostr_event_to_json(e, &j); free(j); return r; } }
}
static int li_op(nostr_list *l, int k)
{
    switch (k) { case 0: return nostr_list_add_hashtag(l, "h", false); case 1: return nostr_list_add_group(l, "g", "wss://r", "name", false); case 2: return nostr_list_remove(l, 0); case 3: return nostr_list_set_title(l, "a title"); case 4: return nostr_list_set_title(l, "another"); case 5: return nostr_list_set_d_tag(l, "dd"); case 6: { for (int i = 0; i < 15; i++) { int r = nostr_list_add_word(l, "w", false); if (r) return r; } return 0; } default: { nostr_event *e = NULL; int r = nostr_list_to_event(l, &KP, &e); nostr_event_destroy(e); return r; } }
}
static int rl_op(nostr_relay_list *l, int k)
{
    char **u = NULL; size_t n = 0; int r; switch (k) { case 0: return nostr_relay_list_add(l, "wss://a.example", true, false); case 1: return nostr_relay_list_add(l, "wss://a.example", true, true); case 2: return nostr_relay_list_add(l, "wss://b.example", false, true); case 3: { for (int i = 0; i < 9; i++) { char b[40]; sprintf(b, "wss://r%d.example", i); if ((r = nostr_relay_list_add(l, b, true, true))) return r; } return 0; }
    case 4: r = nostr_relay_list_get_read_relays(l, &u, &n); nostr_relay_list_free_urls(u, n); return r; default: { nostr_event *e = NULL; r = nostr_relay_list_to_event(l, &e); nostr_event_destroy(e); return r; } }
}
static int ni_op(nostr_relay_info_t *i, int k) { static const int32_t a[] = { 9, 8, 7, 6, 5, 4, 3, 2, 1 }; switch (k) { case 0: return nostr_relay_info_add_nip(i, 1); case 1: return nostr_relay_info_add_nip(i, 42); case 2: return nostr_relay_info_set_nips(i, a, 9); case 3: return nostr_relay_info_set_nips(i, a, 2); default: { size_t n; return nostr_relay_info_serialize(i, BUF, sizeof BUF, &n); } } }
/* signing fills in the public key before anything can fail */
static uint64_t eh0(const nostr_event *e) { nostr_event c = *e; memset(c.pubkey.data, 0, 32); return eh(&c); }
static uint64_t hist_state(int kind, void *o) { return kind == 0 ? eh0(o) : kind == 1 ? lh(o) : kind == 2 ? rh(o) : nips(o); }
static int hist_op(int kind, void *o, int k) { rng_reset(); return kind == 0 ? ev_op(o, k) : kind == 1 ? li_op(o, k) : kind == 2 ? rl_op(o, k) : ni_op(o, k); }
static void *hist_new(int kind) { static nostr_relay_info_t I[2]; static int t; if (kind == 0) return refev_new(); if (kind == 1) { nostr_list *l = NULL; nostr_list_create(&l, 30003); return l; } if (kind == 2) { nostr_relay_list *l = NULL; nostr_relay_list_create(&l); return l; } t ^= 1; nostr_relay_info_init(&I[t]); return &I[t]; }
static void hist_free(int kind, void *o) { if (kind == 0) nostr_event_destroy(o); else if (kind == 1) nostr_list_free(o); else if (kind == 2) nostr_relay_list_free(o); else nostr_relay_info_free(o); }
static void history(void)
{
    static const int NK[] = { 8, 8, 6, 5 }; int kind = mc_choose(4), steps = 4; mc_set_dev_bound(mc_thorough() ? 2 : 1); fault_reset(); fault_track(1);
    void *o = hist_new(kind), *m = hist_new(kind); int done[6], n = 0, failed = 0; uint64_t trace = MC_H0;
    for (int s = 0; s < steps; s++) {
        int k = mc_choose(NK[kind] + 1); if (k == NK[kind]) break; uint64_t before = hist_state(kind, m); int was = fault_injected();
        fault_arm(); int r = hist_op(kind, o, k); fault_disarm(); MC_NOTE("object %d operation %d: %d", kind, k, r); mc_step();
        int multi = (kind == 1 && k == 6) || (kind == 2 && k == 3), hit = fault_injected() > was; if (r && hit && multi) { /* made of several calls: bring the model to the same number of them */
            hist_free(kind, m); m = hist_new(kind); for (int i = 0; i < n; i++) hist_op(kind, m, done[i]);
            size_t c = kind == 1 ? nostr_list_count(o) : nostr_relay_list_count(o), d = kind == 1 ? nostr_list_count(m) : nostr_relay_list_count(m); for (int i = 0; d < c && i < 15; i++) { char b[40]; sprintf(b, "wss://r%d.example", i); if (kind == 1) nostr_list_add_word(m, "w", false); else nostr_relay_list_add(m, b, true, true); d = kind == 1 ? nostr_list_count(m) : nostr_relay_list_count(m); }
            if (hist_state(kind, o) != hist_state(kind, m)) mc_fail("altered", "object %d: interrupted additions leave it in another state", kind); failed++; break;
        }
        if (r && hit) { failed++; if (hist_state(kind, o) != before) mc_fail("altered", "object %d: operation %d failed and changed it", kind, k); continue; }
        int r2 = hist_op(kind, m, k); if (r != r2) mc_fail("error", "object %d: operation %d gives %d, without earlier failures %d", kind, k, r, r2); done[n++] = k; trace = mc_hash_u64(trace, k);
        if (hist_state(kind, o) != hist_state(kind, m)) mc_fail("altered", "object %d: operation %d gives another state than without failures", kind, k); mc_state(mc_hash_u64(trace, kind));
    }
    if (kind == 0) { rng_reset(); if (nostr_event_sign(o, &SK) || nostr_event_verify(o)) mc_fail("not-usable", "the event cannot be signed and verified"); uint8_t id[32]; refev_id(o, id); if (memcmp(id, ((nostr_event *)o)->id, 32)) mc_fail("altered", "the identifier is not that of the event"); }
    hist_free(kind, o); hist_free(kind, m); fault_track(0); if (fault_live()) mc_fail("leak", "object %d: %ld allocations are left: %s", kind, fault_live(), fault_live_desc());
    mc_conform(); mc_eval(1); mc_outcome(mc_hash_u64(trace, failed * 4 + kind));
}
static void ops(void) { int o = mc_choose(NOP); V = mc_choose(OP[o].nv); judge(o, 1); }
static void backend(void) { int o = mc_choose(NOP); V = mc_choose(OP[o].nv); fault_openssl_arm(1); judge(o, 1); fault_openssl_arm(0); }
static void pairs(void) { int o = mc_choose(NOP); V = mc_choose(OP[o].nv); judge(o, mc_thorough() ? 3 : 2); }
const mc_scenario mc_scenarios[] = { { "one", ops, setup, 3, 60, "every operation with every single failing allocation" }, { "backend", backend, setup, 3, 60, "with every single failing allocation, those of the cryptographic backend included" }, { "history", history, setup, 3, 60, "sequences of operations on an event, a list, a relay list and relay information with failing allocations" }, { "more", pairs, setup, 3, 120, "with every two (three) failing allocations" }, MC_END };
