/* Every function of the public headers that takes pointers: its arguments, and how to make a right one of each.
 * Used by c41.c (arguments missing, odd or short) and c42.c (calls from several threads). */
#ifndef TLS
#define TLS
#endif
#include "pubfn_addr.h"
#define NOW 1700000000
time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
extern int nostr_hex_decode(const char *, uint8_t *, size_t); extern void nostr_hex_encode(const uint8_t *, size_t, char *); extern int nostr_random_bytes(uint8_t *, size_t); extern int nostr_constant_time_memcmp(const void *, const void *, size_t); extern void secure_wipe(void *, size_t);
static char NPUB[100], NSEC[100], NOTE[100], ENC[400], NPROF[400], NEV[400], NAD[400], NREL[400], C44[600], C04[600], REFA[100], WURI[400], *JEV, WJ[3000]; static nostr_hd_key HD; static TLS char SID[80];
static TLS int R, bufi; static TLS const void *Q; static TLS char bufs[8][20000]; static TLS uint64_t nums[8]; static TLS char *po[8], **pl[8]; static TLS nostr_event *pe; static TLS nostr_privkey sk[8]; static TLS nostr_key pk[8];
static void *BUF(int i) { memset(bufs[i], 0, sizeof bufs[i]); for (int k = 0; k < 31; k++) bufs[i][k] = (char)(k + 1); return bufs[i]; }
static void *NUMS(int i) { nums[i] = 0; return &nums[i]; }
static int has(const char *f, const char *w) { return !!strstr(f, w); }
static const char *B32(const char *f) { return has(f, "nprofile") ? NPROF : has(f, "nevent") ? NEV : has(f, "naddr") ? NAD : has(f, "nrelay") ? NREL : has(f, "event_id") ? NOTE : has(f, "privkey") ? NSEC : NPUB; }
static const char *JS(const char *f) { return has(f, "nip05") ? WJ : has(f, "filter") ? "{\"kinds\":[1]}" : has(f, "client_msg") ? "[\"CLOSE\",\"s\"]" : JEV; }
static const char *CT(const char *f) { return has(f, "nip04") ? C04 : C44; }
static const char *URI(const char *f) { static TLS char u[500]; if (has(f, "nip47")) return WURI; sprintf(u, "nostr:%s", NPUB); return u; }
static const char *sess(void) { return SID; }
static int KD(const char *f) { return has(f, "list_create") ? 10000 : 14; }
static const char **STRS(const char *f) { static TLS const char *w[] = { "wss://r.example", "b", NULL }, *t[] = { "1", "v", NULL }, *e[] = { "e", "x", NULL }; return has(f, "keysend") ? t : has(f, "gift_wrap") ? e : w; }
static char **heapstrs(void) { return calloc(1, sizeof(char *)); }
static void *heap(void) { return malloc(4); }
static nostr_event *event(const char *f)
{
    nostr_event *e = refev_new(); e->created_at = NOW; e->kind = 1; nostr_event_set_content(e, "hello nostr:npub"); const char *T[] = { "e", PKH[2], "wss://r", "root" }, *P[] = { "p", PKH[0] }, *D[] = { "d", "x" }; nostr_event_add_tag(e, T, 4); nostr_event_add_tag(e, P, 2); nostr_event_add_tag(e, D, 2);
    const char *E[] = { "encryption", "nip44_v2" }; int from = 1; if (has(f, "reaction")) e->kind = 7, nostr_event_set_content(e, "+"); if (has(f, "repost")) e->kind = 6; if (has(f, "relay_list")) e->kind = 10002; if (has(f, "list_from")) e->kind = has(f, "relay") ? 10002 : 10000; if (has(f, "deletion")) e->kind = 5; if (has(f, "zap")) e->kind = 9735;
    if (has(f, "nip46_parse")) e->kind = 24133; if (has(f, "info_event")) e->kind = 13194; if (has(f, "response_event")) e->kind = 23195, nostr_event_add_tag(e, E, 2); if (has(f, "notification_event")) e->kind = 23197; if (e->kind > 13000 && e->kind != 13194) { char *c = party_seal44(SK[1].data, PK[0].data, "{\"id\":\"1\",\"method\":\"m\",\"params\":[]}", 36); nostr_event_set_content(e, c); free(c); }
    if (has(f, "t_delegation") || has(f, "verify_delegation")) { nostr_delegation g; if (nostr_delegation_create(&SK[0], &PK[1], "kind=1", &g) == NOSTR_OK) { nostr_event_add_delegation(e, &g); nostr_delegation_free(&g); } }
    if (has(f, "list_from") && !has(f, "relay")) nostr_event_set_content(e, "");
    party_sign(e, SK[from].data);
    if (has(f, "unwrap") || has(f, "gift_wrap")) { nostr_event *w = NULL; if (has(f, "nip17_unwrap")) nostr_nip17_send_dm(&w, "x", &SK[1], &PK[0], NULL, NULL, 5); else if (has(f, "unwrap")) nostr_nip59_wrap_event(&w, e, &SK[1], &PK[0]); else nostr_nip59_create_seal(&w, e, &SK[1], &PK[0]); if (w) return w; }
    return e;
}
static nostr_error_t http(const char *u, char **o, size_t *n, void *d) { (void)u; (void)d; *o = strdup(WJ); *n = strlen(WJ); return NOSTR_OK; }
static bool search(const char *q, const nostr_event *e, void *u) { (void)q; (void)e; (void)u; return true; }
static void *CB(const char *f) { return has(f, "nip05") ? (void *)http : has(f, "search") ? (void *)search : (void *)heap; }
#define OBJ(T) static TLS T o; memset(&o, 0, sizeof o); (void)f
static void *obj_nostr_client_msg_tP(const char *f) { OBJ(nostr_client_msg_t); nostr_client_msg_parse("[\"REQ\",\"s\",{\"kinds\":[1]}]", 25, &o); return &o; }
static void *obj_nostr_configP(const char *f) { OBJ(nostr_config); nostr_config_get_defaults(&o); return &o; }
static void *obj_nostr_delegationP(const char *f) { OBJ(nostr_delegation); if (has(f, "create") || has(f, "get_delegation")) return &o; nostr_delegation_create(&SK[0], &PK[1], "kind=1", &o); return &o; }
static void *obj_nostr_deletion_request_tP(const char *f) { OBJ(nostr_deletion_request_t); if (has(f, "parse")) return &o; nostr_event *e = event("deletion"); nostr_deletion_parse(e, &o); return &o; }
static void *obj_nostr_filter_tP(const char *f) { OBJ(nostr_filter_t); if (has(f, "filter_parse")) return &o; static const char J[] = "{\"kinds\":[1],\"ids\":[\"00000000000000000000000000000000000000000000000000000000000000ff\"],\"#e\":[\"00000000000000000000000000000000000000000000000000000000000000ff\"],\"search\":\"x\"}"; static TLS nostr_filter_t o2; nostr_filter_t *w = has(f, "clone") && bufi++ == 0 ? &o2 : &o; memset(w, 0, sizeof *w); if (!(has(f, "clone") && w == &o2)) nostr_filter_parse(J, sizeof J - 1, w); return w; }
static void *obj_nostr_hd_keyP(const char *f) { static TLS nostr_hd_key a[2]; (void)f; nostr_hd_key *k = &a[bufi++ & 1]; *k = HD; return k; }
static void *obj_nostr_keypairP(const char *f) { OBJ(nostr_keypair); nostr_keypair_from_private_hex(&o, SKH[0]); return &o; }
static void *obj_nostr_listP(const char *f) { nostr_list *l = NULL; (void)f; nostr_list_create(&l, 10000); nostr_list_add_hashtag(l, "x", false); return l; }
static void *obj_nostr_listPP(const char *f) { static TLS nostr_list *l; l = NULL; (void)f; return &l; }
static void *obj_nostr_nprofileP(const char *f) { OBJ(nostr_nprofile); if (!has(f, "decode")) nostr_nprofile_decode(NPROF, &o); return &o; }
static void *obj_nostr_neventP(const char *f) { OBJ(nostr_nevent); if (!has(f, "decode")) nostr_nevent_decode(NEV, &o); return &o; }
static void *obj_nostr_naddrP(const char *f) { OBJ(nostr_naddr); if (!has(f, "decode")) nostr_naddr_decode(NAD, &o); return &o; }
static void *obj_nostr_nrelayP(const char *f) { OBJ(nostr_nrelay); strcpy(o.url, "wss://r"); return &o; }
static void *obj_nostr_uriP(const char *f) { OBJ(nostr_uri); if (!has(f, "parse")) nostr_uri_parse(NPUB, &o); return &o; }
static void *obj_nostr_nip46_request_tP(const char *f) { OBJ(nostr_nip46_request_t); return &o; }
static void *obj_nostr_nip46_response_tP(const char *f) { OBJ(nostr_nip46_response_t); strcpy(o.id, "1"); o.result = strdup("x"); return &o; }
static void *obj_nostr_relayP(const char *f) { nostr_relay *r = NULL; (void)f; nostr_relay_create(&r, "wss://r.example"); return r; }
static void *obj_nostr_relayPP(const char *f) { static TLS nostr_relay *r; r = NULL; (void)f; return &r; }
static void *obj_nostr_relay_info_tP(const char *f) { OBJ(nostr_relay_info_t); nostr_relay_info_init(&o); return &o; }
static void *obj_nostr_relay_limitation_tP(const char *f) { OBJ(nostr_relay_limitation_t); nostr_relay_limitation_init(&o); return &o; }
static void *obj_nostr_relay_listP(const char *f) { nostr_relay_list *l = NULL; (void)f; nostr_relay_list_create(&l); nostr_relay_list_add(l, "wss://a.example", true, true); return l; }
static void *obj_nostr_relay_listPP(const char *f) { static TLS nostr_relay_list *l; l = NULL; (void)f; return &l; }
static void *obj_nostr_relay_msg_tP(const char *f) { OBJ(nostr_relay_msg_t); nostr_relay_msg_notice(&o, "n"); return &o; }
static void *obj_nostr_tagP(const char *f) { return &event(f)->tags[0]; }
static void *obj_nostr_tag_info_tP(const char *f) { OBJ(nostr_tag_info_t); return &o; }
static void *obj_nostr_tag_iterator_tP(const char *f) { OBJ(nostr_tag_iterator_t); if (!has(f, "init")) nostr_tag_iterator_init(&o, event(f)); return &o; }
static void *obj_nostr_validation_result_tP(const char *f) { OBJ(nostr_validation_result_t); return &o; }
static void *obj_struct_nwc_connectionP(const char *f) { struct nwc_connection *c = NULL; (void)f; nostr_nip47_parse_connection_uri(WURI, &c); return c; }
static void *obj_struct_nwc_connectionPP(const char *f) { static TLS struct nwc_connection *c; c = NULL; (void)f; return &c; }
typedef struct { const char *f; int n; unsigned always; int kind; const char *args; } fn;
static const fn F[] = {
    { "nostr_init_with_config", 1, 0x0, 1, "config" },
    { "nostr_config_get_defaults", 1, 0x0, 1, "config" },
    { "nostr_config_load_env", 1, 0x0, 1, "config" },
    { "nostr_config_validate", 1, 0x0, 1, "config" },
    { "nostr_config_update", 1, 0x0, 1, "config" },
    { "nostr_key_generate", 2, 0x0, 1, "privkey pubkey" },
    { "nostr_keypair_init", 1, 0x0, 1, "keypair" },
    { "nostr_keypair_generate", 1, 0x0, 1, "keypair" },
    { "nostr_keypair_from_private_hex", 2, 0x0, 1, "keypair privkey_hex" },
    { "nostr_keypair_from_private_key", 2, 0x0, 1, "keypair privkey" },
    { "nostr_keypair_export_private_hex", 2, 0x0, 1, "keypair hex" },
    { "nostr_keypair_export_public_hex", 2, 0x0, 1, "keypair hex" },
    { "nostr_keypair_validate", 1, 0x0, 1, "keypair" },
    { "nostr_keypair_public_key", 1, 0x0, 2, "keypair" },
    { "nostr_keypair_private_key", 1, 0x0, 2, "keypair" },
    { "nostr_keypair_destroy", 1, 0x0, 0, "keypair" },
    { "nostr_key_from_hex", 2, 0x0, 1, "hex key" },
    { "nostr_key_to_hex", 2, 0x0, 1, "key hex" },
    { "nostr_privkey_from_hex", 2, 0x0, 1, "hex privkey" },
    { "nostr_privkey_to_hex", 2, 0x0, 1, "privkey hex" },
    { "nostr_key_ecdh", 3, 0x0, 1, "privkey pubkey shared_secret" },
    { "nostr_hd_key_from_seed", 2, 0x0, 1, "seed master" },
    { "nostr_hd_key_derive", 2, 0x0, 1, "parent child" },
    { "nostr_hd_key_derive_path", 3, 0x0, 1, "master path derived" },
    { "nostr_hd_key_to_keypair", 2, 0x0, 1, "hd_key keypair" },
    { "nostr_mnemonic_generate", 1, 0x0, 1, "mnemonic" },
    { "nostr_mnemonic_validate", 1, 0x0, 1, "mnemonic" },
    { "nostr_mnemonic_to_seed", 3, 0x0, 1, "mnemonic passphrase seed" },
    { "nostr_mnemonic_to_keypair", 3, 0x0, 1, "mnemonic passphrase keypair" },
    { "nostr_key_to_bech32", 3, 0x0, 1, "key prefix bech32" },
    { "nostr_key_from_bech32", 2, 0x0, 1, "bech32 key" },
    { "nostr_privkey_to_bech32", 2, 0x0, 1, "privkey bech32" },
    { "nostr_privkey_from_bech32", 2, 0x0, 1, "bech32 privkey" },
    { "nostr_event_id_to_bech32", 2, 0x0, 1, "id bech32" },
    { "nostr_event_id_from_bech32", 2, 0x0, 1, "bech32 id" },
    { "nostr_event_create", 1, 0x0, 1, "event" },
    { "nostr_event_destroy", 1, 0x0, 0, "event" },
    { "nostr_event_set_content", 2, 0x0, 1, "event content" },
    { "nostr_event_add_tag", 2, 0x0, 1, "event values" },
    { "nostr_event_compute_id", 1, 0x0, 1, "event" },
    { "nostr_event_sign", 2, 0x0, 1, "event privkey" },
    { "nostr_event_verify", 1, 0x0, 1, "event" },
    { "nostr_event_to_json", 2, 0x0, 1, "event json" },
    { "nostr_event_from_json", 2, 0x0, 1, "json event" },
    { "nostr_relay_create", 2, 0x0, 1, "relay url" },
    { "nostr_relay_destroy", 1, 0x0, 0, "relay" },
    { "nostr_relay_connect", 3, 0x1, 1, "relay callback user_data" },
    { "nostr_relay_disconnect", 1, 0x1, 1, "relay" },
    { "nostr_relay_send_event", 2, 0x1, 1, "relay event" },
    { "nostr_subscribe", 5, 0x1, 1, "relay subscription_id filters_json callback user_data" },
    { "nostr_publish_event", 2, 0x1, 1, "relay event" },
    { "nostr_relay_unsubscribe", 2, 0x1, 1, "relay subscription_id" },
    { "nostr_relay_set_message_callback", 3, 0x0, 1, "relay callback user_data" },
    { "nostr_hex_decode", 2, 0x0, 0, "hex out" },
    { "nostr_hex_encode", 2, 0x0, 0, "bytes out" },
    { "nostr_zap_create_request", 5, 0x0, 1, "event recipient lnurl content relays" },
    { "nostr_zap_validate_lnurl", 3, 0x0, 1, "lnurl nostr_pubkey allows_nostr" },
    { "nostr_zap_parse_receipt", 5, 0x0, 1, "event amount bolt11 preimage zap_request" },
    { "nostr_zap_verify", 3, 0x0, 1, "receipt request server_pubkey" },
    { "nostr_nip44_encrypt", 4, 0x0, 1, "sender_privkey recipient_pubkey plaintext ciphertext" },
    { "nostr_nip04_encrypt", 4, 0x0, 1, "sender_privkey recipient_pubkey plaintext ciphertext" },
    { "nostr_nip44_decrypt", 5, 0x0, 1, "recipient_privkey sender_pubkey ciphertext plaintext plaintext_len" },
    { "nostr_nip04_decrypt", 4, 0x0, 1, "recipient_privkey sender_pubkey ciphertext plaintext" },
    { "nostr_nip17_create_rumor", 3, 0x0, 1, "rumor pubkey content" },
    { "nostr_nip17_create_seal", 4, 0x0, 1, "seal rumor sender_privkey recipient_pubkey" },
    { "nostr_nip17_create_gift_wrap", 3, 0x0, 1, "wrap seal recipient_pubkey" },
    { "nostr_nip17_send_dm", 6, 0x0, 1, "dm content sender_privkey recipient_pubkey subject reply_to" },
    { "nostr_nip17_unwrap_dm", 4, 0x0, 1, "wrap recipient_privkey rumor sender_pubkey" },
    { "nostr_nip59_wrap_event", 4, 0x0, 1, "gift_wrap event_to_wrap author_privkey recipient_pubkey" },
    { "nostr_nip59_unwrap_event", 4, 0x0, 1, "gift_wrap recipient_privkey unwrapped_event author_pubkey" },
    { "nostr_nip59_create_rumor", 3, 0x0, 1, "rumor pubkey content" },
    { "nostr_nip59_create_seal", 4, 0x0, 1, "seal rumor author_privkey recipient_pubkey" },
    { "nostr_nip59_create_gift_wrap", 4, 0x0, 1, "gift_wrap seal recipient_pubkey extra_tags" },
    { "nostr_nip46_parse_request", 3, 0x0, 1, "event recipient_privkey request" },
    { "nostr_nip46_create_response", 4, 0x0, 1, "response signer_privkey recipient_pubkey event_out" },
    { "nostr_nip46_request_free", 1, 0x0, 0, "request" },
    { "nostr_nip46_response_free", 1, 0x0, 0, "response" },
    { "nostr_nip47_parse_connection_uri", 2, 0x0, 1, "uri connection" },
    { "nostr_nip47_free_connection", 1, 0x0, 1, "connection" },
    { "nostr_nip47_parse_info_event", 7, 0x0, 1, "event capabilities cap_count notifications notif_count encryptions enc_count" },
    { "nostr_nip47_create_request_event", 4, 0x0, 1, "event conn method params_json" },
    { "nostr_nip47_parse_response_event", 6, 0x0, 1, "event client_secret result_type result_json error_code error_message" },
    { "nostr_nip47_parse_notification_event", 4, 0x0, 1, "event client_secret notification_type notification_json" },
    { "nostr_nip47_create_pay_invoice_params", 3, 0x0, 1, "params_json invoice amount_msats" },
    { "nostr_nip47_create_get_balance_params", 1, 0x0, 1, "params_json" },
    { "nostr_nip47_create_make_invoice_params", 4, 0x0, 1, "params_json description description_hash expiry_secs" },
    { "nostr_nip47_create_list_transactions_params", 7, 0x0, 1, "params_json from until limit offset unpaid type" },
    { "nostr_nip47_create_lookup_invoice_params", 3, 0x0, 1, "params_json payment_hash invoice" },
    { "nostr_nip47_create_pay_keysend_params", 4, 0x0, 1, "params_json pubkey preimage tlv_records" },
    { "nostr_nip47_create_multi_pay_invoice_params", 4, 0x0, 1, "params_json invoice_ids invoices amounts" },
    { "nostr_nip47_create_get_info_params", 1, 0x0, 1, "params_json" },
    { "nostr_nip47_parse_balance_response", 2, 0x0, 1, "result_json balance_msats" },
    { "nostr_nip47_parse_pay_invoice_response", 3, 0x0, 1, "result_json preimage fees_paid" },
    { "nostr_nip47_parse_info_response", 8, 0x0, 1, "result_json alias color pubkey network block_height methods method_count" },
    { "nostr_nip47_session_create", 2, 0x0, 1, "connection_uri session_id" },
    { "nostr_nip47_session_add_permission", 2, 0x0, 1, "session_id permission" },
    { "nostr_nip47_session_check_permission", 2, 0x0, 1, "session_id method" },
    { "nostr_nip47_session_get_connection", 2, 0x0, 1, "session_id connection" },
    { "nostr_nip47_session_extend", 1, 0x0, 1, "session_id" },
    { "nostr_nip47_session_destroy", 1, 0x0, 1, "session_id" },
    { "nostr_nip13_calculate_difficulty", 1, 0x0, 0, "event_id" },
    { "nostr_nip13_mine_event", 1, 0x0, 1, "event" },
    { "nostr_nip13_verify_pow", 1, 0x0, 1, "event" },
    { "nostr_nip13_add_nonce_tag", 1, 0x0, 1, "event" },
    { "nostr_nip13_mine_event_threaded", 1, 0x0, 1, "event" },
    { "nostr_event_get_root_id", 3, 0x0, 1, "event root_id relay_hint" },
    { "nostr_event_get_reply_id", 3, 0x0, 1, "event reply_id relay_hint" },
    { "nostr_event_add_reply_tags", 7, 0x0, 1, "event root_id root_relay root_pubkey reply_id reply_relay reply_pubkey" },
    { "nostr_event_add_mention_tag", 3, 0x0, 1, "event pubkey relay_hint" },
    { "nostr_event_is_reply", 2, 0x0, 1, "event is_reply" },
    { "nostr_reaction_create", 5, 0x0, 1, "event reaction_content target_event_id target_pubkey relay_hint" },
    { "nostr_reaction_parse", 5, 0x0, 1, "event reaction_content target_event_id target_pubkey target_kind" },
    { "nostr_reaction_is_like", 2, 0x0, 1, "event is_like" },
    { "nostr_reaction_is_dislike", 2, 0x0, 1, "event is_dislike" },
    { "nostr_repost_create", 6, 0x0, 1, "event reposted_event_id reposted_pubkey relay_hint d_tag embedded_json" },
    { "nostr_repost_parse", 5, 0x0, 1, "event reposted_event_id reposted_pubkey relay_hint reposted_kind" },
    { "nostr_quote_tags_from_content", 1, 0x0, 1, "event" },
    { "nostr_uri_parse", 2, 0x0, 1, "uri result" },
    { "nostr_uri_encode", 2, 0x0, 1, "uri output" },
    { "nostr_uri_free", 1, 0x0, 0, "uri" },
    { "nostr_nprofile_encode", 2, 0x0, 1, "profile bech32" },
    { "nostr_nprofile_decode", 2, 0x0, 1, "bech32 profile" },
    { "nostr_nprofile_free", 1, 0x0, 0, "profile" },
    { "nostr_nevent_encode", 2, 0x0, 1, "event bech32" },
    { "nostr_nevent_decode", 2, 0x0, 1, "bech32 nevent" },
    { "nostr_nevent_free", 1, 0x0, 0, "nevent" },
    { "nostr_naddr_encode", 2, 0x0, 1, "addr bech32" },
    { "nostr_naddr_decode", 2, 0x0, 1, "bech32 addr" },
    { "nostr_naddr_free", 1, 0x0, 0, "addr" },
    { "nostr_nrelay_encode", 2, 0x0, 1, "relay bech32" },
    { "nostr_nrelay_decode", 2, 0x0, 1, "bech32 relay" },
    { "nostr_ncryptsec_encrypt", 3, 0x0, 1, "privkey password ncryptsec" },
    { "nostr_ncryptsec_decrypt", 3, 0x0, 1, "ncryptsec password privkey" },
    { "nostr_ncryptsec_validate", 1, 0x0, 1, "ncryptsec" },
    { "nostr_relay_list_create", 1, 0x0, 1, "list" },
    { "nostr_relay_list_free", 1, 0x0, 0, "list" },
    { "nostr_relay_list_add", 2, 0x0, 1, "list url" },
    { "nostr_relay_list_to_event", 2, 0x0, 1, "list event" },
    { "nostr_relay_list_from_event", 2, 0x0, 1, "event list" },
    { "nostr_relay_list_count", 1, 0x0, 0, "list" },
    { "nostr_relay_list_get", 1, 0x0, 2, "list" },
    { "nostr_relay_list_get_read_relays", 3, 0x0, 1, "list urls count" },
    { "nostr_relay_list_get_write_relays", 3, 0x0, 1, "list urls count" },
    { "nostr_relay_list_free_urls", 1, 0x0, 0, "urls" },
    { "nostr_nip05_parse", 3, 0x0, 1, "identifier name domain" },
    { "nostr_nip05_build_url", 3, 0x0, 1, "name domain url" },
    { "nostr_nip05_parse_response", 5, 0x0, 1, "json name pubkey_hex relays relay_count" },
    { "nostr_nip05_free_relays", 1, 0x0, 0, "relays" },
    { "nostr_nip05_verify", 6, 0x0, 1, "identifier expected_pubkey http_callback user_data relays_out relay_count_out" },
    { "nostr_delegation_create", 4, 0x0, 1, "delegator_privkey delegatee_pubkey conditions delegation" },
    { "nostr_delegation_verify", 2, 0x0, 1, "delegation delegatee_pubkey" },
    { "nostr_delegation_check_conditions", 1, 0x0, 1, "delegation" },
    { "nostr_event_add_delegation", 2, 0x0, 1, "event delegation" },
    { "nostr_event_get_delegation", 2, 0x0, 1, "event delegation" },
    { "nostr_event_verify_delegation", 1, 0x0, 1, "event" },
    { "nostr_delegation_free", 1, 0x0, 0, "delegation" },
    { "nostr_list_create", 1, 0x0, 1, "list" },
    { "nostr_list_free", 1, 0x0, 0, "list" },
    { "nostr_list_set_d_tag", 2, 0x0, 1, "list d_tag" },
    { "nostr_list_set_title", 2, 0x0, 1, "list title" },
    { "nostr_list_set_description", 2, 0x0, 1, "list description" },
    { "nostr_list_set_image", 2, 0x0, 1, "list image" },
    { "nostr_list_add_pubkey", 4, 0x0, 1, "list pubkey relay_hint petname" },
    { "nostr_list_add_event", 3, 0x0, 1, "list event_id relay_hint" },
    { "nostr_list_add_hashtag", 2, 0x0, 1, "list hashtag" },
    { "nostr_list_add_word", 2, 0x0, 1, "list word" },
    { "nostr_list_add_relay", 2, 0x0, 1, "list relay_url" },
    { "nostr_list_add_reference", 3, 0x0, 1, "list reference relay_hint" },
    { "nostr_list_add_group", 4, 0x0, 1, "list group_id relay_url group_name" },
    { "nostr_list_add_emoji", 3, 0x0, 1, "list shortcode image_url" },
    { "nostr_list_to_event", 3, 0x0, 1, "list keypair event" },
    { "nostr_list_from_event", 3, 0x0, 1, "event keypair list" },
    { "nostr_list_count", 1, 0x0, 0, "list" },
    { "nostr_list_get", 1, 0x0, 2, "list" },
    { "nostr_list_remove", 1, 0x0, 1, "list" },
    { "nostr_filter_parse", 2, 0x0, 1, "json filter" },
    { "nostr_filter_matches", 2, 0x0, 0, "filter event" },
    { "nostr_filter_matches_with_search", 4, 0x0, 0, "filter event search_cb user_data" },
    { "nostr_filters_match", 2, 0x0, 0, "filters event" },
    { "nostr_filters_match_with_search", 4, 0x0, 0, "filters event search_cb user_data" },
    { "nostr_filter_validate", 2, 0x0, 1, "filter result" },
    { "nostr_filter_free", 1, 0x0, 0, "filter" },
    { "nostr_filter_clone", 2, 0x0, 1, "dst src" },
    { "nostr_client_msg_parse", 2, 0x0, 1, "json msg" },
    { "nostr_client_msg_free", 1, 0x0, 0, "msg" },
    { "nostr_relay_msg_serialize", 3, 0x0, 1, "msg buf out_len" },
    { "nostr_relay_msg_event", 3, 0x0, 0, "msg sub_id event" },
    { "nostr_relay_msg_ok", 3, 0x0, 0, "msg event_id message" },
    { "nostr_relay_msg_eose", 2, 0x0, 0, "msg sub_id" },
    { "nostr_relay_msg_closed", 3, 0x0, 0, "msg sub_id message" },
    { "nostr_relay_msg_notice", 2, 0x0, 0, "msg message" },
    { "nostr_relay_msg_auth", 2, 0x0, 0, "msg challenge" },
    { "nostr_relay_msg_count", 2, 0x0, 0, "msg query_id" },
    { "nostr_event_parse", 2, 0x0, 1, "json event" },
    { "nostr_event_serialize_canonical", 3, 0x0, 1, "event buf out_len" },
    { "nostr_event_serialize", 3, 0x0, 1, "event buf out_len" },
    { "nostr_event_validate_full", 2, 0x0, 1, "event result" },
    { "nostr_event_compare_replaceable", 2, 0x0, 0, "a b" },
    { "nostr_event_compare_addressable", 2, 0x0, 0, "a b" },
    { "nostr_event_get_tag_value", 2, 0x0, 2, "event tag_name" },
    { "nostr_event_get_d_tag", 1, 0x0, 2, "event" },
    { "nostr_event_get_tag_values", 3, 0x0, 0, "event tag_name values" },
    { "nostr_event_has_tag", 2, 0x0, 0, "event tag_name" },
    { "nostr_event_get_tag_at", 2, 0x0, 2, "event out_count" },
    { "nostr_validate_hex64", 1, 0x0, 0, "hex" },
    { "nostr_validate_hex_prefix", 1, 0x0, 0, "hex" },
    { "nostr_validate_subscription_id", 1, 0x0, 0, "sub_id" },
    { "nostr_validate_address", 1, 0x0, 0, "address" },
    { "nostr_event_get_expiration", 1, 0x0, 0, "event" },
    { "nostr_event_is_expired", 1, 0x0, 0, "event" },
    { "nostr_event_is_expired_now", 1, 0x0, 0, "event" },
    { "nostr_deletion_parse", 2, 0x0, 1, "event request" },
    { "nostr_deletion_authorized", 2, 0x0, 0, "request target_event" },
    { "nostr_deletion_authorized_address", 2, 0x0, 0, "request target_event" },
    { "nostr_deletion_free", 1, 0x0, 0, "request" },
    { "nostr_validation_error_format", 2, 0x0, 0, "result buf" },
    { "nostr_relay_info_init", 1, 0x0, 0, "info" },
    { "nostr_relay_limitation_init", 1, 0x0, 0, "limitation" },
    { "nostr_relay_info_serialize", 3, 0x0, 1, "info buf out_len" },
    { "nostr_relay_limitation_serialize", 3, 0x0, 1, "limitation buf out_len" },
    { "nostr_relay_info_set_nips", 2, 0x0, 1, "info nips" },
    { "nostr_relay_info_add_nip", 1, 0x0, 1, "info" },
    { "nostr_relay_info_free", 1, 0x0, 0, "info" },
    { "nostr_tag_iterator_init", 2, 0x0, 0, "iter event" },
    { "nostr_tag_iterator_next", 2, 0x0, 2, "iter tag_len" },
    { "nostr_tag_iterator_next_info", 2, 0x0, 0, "iter tag" },
    { "nostr_tag_is_indexable", 1, 0x0, 0, "tag_name" },
    { "nostr_filter_get_e_tags", 2, 0x0, 2, "filter count" },
    { "nostr_filter_get_p_tags", 2, 0x0, 2, "filter count" },
    { "nostr_filter_get_tag_values", 2, 0x0, 2, "filter count" },
    { "nostr_filter_has_tag_filters", 1, 0x0, 0, "filter" },
    { "nostr_filter_get_ids", 2, 0x0, 2, "filter out_count" },
    { "nostr_filter_get_authors", 2, 0x0, 2, "filter out_count" },
    { "nostr_filter_get_kinds", 2, 0x0, 2, "filter out_count" },
    { "nostr_filter_get_since", 1, 0x0, 0, "filter" },
    { "nostr_filter_get_until", 1, 0x0, 0, "filter" },
    { "nostr_filter_get_limit", 1, 0x0, 0, "filter" },
    { "nostr_filter_get_search", 1, 0x0, 2, "filter" },
    { "nostr_filter_has_search", 1, 0x0, 0, "filter" },
    { "nostr_client_msg_get_type", 1, 0x0, 0, "msg" },
    { "nostr_client_msg_get_event", 1, 0x0, 2, "msg" },
    { "nostr_client_msg_get_subscription_id", 1, 0x0, 2, "msg" },
    { "nostr_client_msg_get_filters", 2, 0x0, 2, "msg out_count" },
    { "nostr_event_get_id", 1, 0x0, 2, "event" },
    { "nostr_event_get_pubkey", 1, 0x0, 2, "event" },
    { "nostr_event_get_id_hex", 2, 0x0, 0, "event out" },
    { "nostr_event_get_pubkey_hex", 2, 0x0, 0, "event out" },
    { "nostr_event_get_tag_count", 1, 0x0, 0, "event" },
    { "nostr_event_get_tag", 1, 0x0, 2, "event" },
    { "nostr_tag_get_name", 1, 0x0, 2, "tag" },
    { "nostr_tag_get_value_count", 1, 0x0, 0, "tag" },
    { "nostr_tag_get_value", 1, 0x0, 2, "tag" },
    { "nostr_event_find_tag", 2, 0x0, 2, "event tag_name" },
    { "nostr_event_is_deletion", 1, 0x0, 0, "event" },
    { "nostr_hex_to_bytes", 2, 0x0, 1, "hex out" },
    { "nostr_bytes_to_hex", 2, 0x0, 0, "bytes out" },
    { "nostr_free", 1, 0x0, 0, "ptr" },
    { "nostr_free_strings", 1, 0x0, 0, "strings" }
};
