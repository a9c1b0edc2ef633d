/* C41: missing arguments. Every function of the public headers that takes pointers is called with every subset of
 * them NULL, the others valid: it comes back, with an error where the argument is needed. */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include "../lib/party.h"
#include "../lib/noscrypt/noscrypt.h"
#include <nostr_relay_protocol.h>
#include <time.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "pubfn.h"
static unsigned M;
/* a text argument, or the odd text in its place (a fresh block of exactly its size) */
static int odd[8], texts; static char *oddtext;
static const char *const ODD[] = { "", " ", "a", "0", "-1", "99999999999999999999", "1e999", "nan", "{}", "[]", "null", "{", "[\"", "\"", "\\", "\n", "\xff", "\xc3", "\xed\xa0\x80", "%", "%s%n%s", "%00", ":", "/", "@", "a@", "@a", "m", "m/", "m/1'//", "kind=", "kind=1&", "&", "=", "?", "a?=", "npub1", "nostr:", "wss://", "wss://[", "ws://a:99999/", "nostr+walletconnect://", "bunker://", "1", "11", "abandon", "\xe3\x80\x80", "00000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000000", "00000000000000000000000000000000000000000000000000000000000000000", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "gggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggg", "ABCDEF00000000000000000000000000000000000000000000000000000000FF" };
#define NODD (MC_LEN(ODD) + 12 + 8)
static char *fill(size_t n, int c) { char *s = malloc(n + 1); memset(s, c, n); s[n] = 0; return s; }
static char *mk_odd(int v)
{
    if (v < MC_LEN(ODD)) return strdup(ODD[v]); v -= MC_LEN(ODD); const char *own[] = { NPUB, NSEC, NOTE, ENC, NPROF, NEV, NAD, NREL, C44, C04, REFA, WURI }; if (v < 12) return strdup(own[v]); v -= 12;
    switch (v) { case 0: return fill(5000, 'a'); case 1: return fill(3000, '['); case 2: return fill(70000, ' '); case 3: return fill(70000, '\xff'); case 4: return fill(64, ' '); case 5: return fill(1025, '1'); case 6: return fill(256, '/'); default: return fill(2000, 'q'); }
}
static const char *T_(int i, const char *x) { texts |= 1 << i; if (M >> i & 1) return NULL; if (!odd[i]) return x; return oddtext = mk_odd(odd[i] - 1); }
#define T(i, x) T_(i, x)
#define JL(f) (oddtext ? strlen(oddtext) : strlen(JS(f)))
#define TL(n) (oddtext ? strlen(oddtext) : (n))
/* output buffers with a size of their own: exactly that many bytes, so that one more is a reported overflow */
static size_t szs[8]; static char *obs[8]; static int sized;
static size_t SZ(int i) { return szs[i]; }
static void *OB(int i) { sized |= 1 << i; obs[i] = malloc(szs[i] ? szs[i] : 1); memset(obs[i], 'x', szs[i] ? szs[i] : 1); return obs[i]; }
#define A(i, x) ((M >> (i) & 1) ? NULL : (x))
static void call(int k, const char *f)
{
    (void)f; switch (k) {
#include "pubfn_calls.h"
    }
}
/* arguments that may be left out (anything else missing must give an error, or NULL) */
static const char *const OPTIONAL[] = {
    "nostr_client_msg_get_filters:out_count", "nostr_event_add_mention_tag:relay_hint", "nostr_event_add_reply_tags:reply_id", "nostr_event_add_reply_tags:reply_pubkey",
    "nostr_event_add_reply_tags:reply_relay", "nostr_event_add_reply_tags:root_id", "nostr_event_add_reply_tags:root_pubkey", "nostr_event_add_reply_tags:root_relay",
    "nostr_event_get_reply_id:relay_hint", "nostr_event_get_root_id:relay_hint", "nostr_event_get_tag_at:out_count", "nostr_event_serialize:out_len",
    "nostr_event_serialize_canonical:out_len", "nostr_filter_get_e_tags:count", "nostr_filter_get_ids:out_count", "nostr_filter_get_kinds:out_count",
    "nostr_filter_get_tag_values:count", "nostr_init_with_config:config", "nostr_list_add_event:relay_hint", "nostr_list_add_group:group_name",
    "nostr_list_add_pubkey:petname", "nostr_list_add_pubkey:relay_hint", "nostr_list_add_reference:relay_hint", "nostr_list_from_event:keypair",
    "nostr_list_set_d_tag:d_tag", "nostr_list_set_description:description", "nostr_list_set_image:image", "nostr_list_set_title:title",
    "nostr_list_to_event:keypair", "nostr_mnemonic_to_keypair:passphrase", "nostr_mnemonic_to_seed:passphrase", "nostr_nip05_parse_response:relay_count",
    "nostr_nip05_parse_response:relays", "nostr_nip05_verify:relay_count_out", "nostr_nip05_verify:relays_out", "nostr_nip05_verify:user_data",
    "nostr_nip17_send_dm:reply_to", "nostr_nip17_send_dm:subject", "nostr_nip17_unwrap_dm:sender_pubkey", "nostr_nip47_create_list_transactions_params:from",
    "nostr_nip47_create_list_transactions_params:limit", "nostr_nip47_create_list_transactions_params:offset", "nostr_nip47_create_list_transactions_params:type", "nostr_nip47_create_list_transactions_params:unpaid",
    "nostr_nip47_create_list_transactions_params:until", "nostr_nip47_create_lookup_invoice_params:invoice", "nostr_nip47_create_lookup_invoice_params:payment_hash", "nostr_nip47_create_make_invoice_params:description",
    "nostr_nip47_create_make_invoice_params:description_hash", "nostr_nip47_create_make_invoice_params:expiry_secs", "nostr_nip47_create_multi_pay_invoice_params:amounts", "nostr_nip47_create_multi_pay_invoice_params:invoice_ids",
    "nostr_nip47_create_pay_invoice_params:amount_msats", "nostr_nip47_create_pay_keysend_params:preimage", "nostr_nip47_create_pay_keysend_params:tlv_records", "nostr_nip47_free_connection:connection",
    "nostr_nip47_parse_info_event:cap_count", "nostr_nip47_parse_info_event:capabilities", "nostr_nip47_parse_info_event:enc_count", "nostr_nip47_parse_info_event:encryptions",
    "nostr_nip47_parse_info_event:notif_count", "nostr_nip47_parse_info_event:notifications", "nostr_nip47_parse_info_response:alias", "nostr_nip47_parse_info_response:block_height",
    "nostr_nip47_parse_info_response:color", "nostr_nip47_parse_info_response:method_count", "nostr_nip47_parse_info_response:methods", "nostr_nip47_parse_info_response:network",
    "nostr_nip47_parse_info_response:pubkey", "nostr_nip47_parse_notification_event:notification_json", "nostr_nip47_parse_notification_event:notification_type", "nostr_nip47_parse_pay_invoice_response:fees_paid",
    "nostr_nip47_parse_pay_invoice_response:preimage", "nostr_nip47_parse_response_event:error_code", "nostr_nip47_parse_response_event:error_message", "nostr_nip47_parse_response_event:result_json",
    "nostr_nip47_parse_response_event:result_type", "nostr_nip59_create_gift_wrap:extra_tags", "nostr_nip59_create_rumor:content", "nostr_nip59_unwrap_event:author_pubkey",
    "nostr_reaction_create:reaction_content", "nostr_reaction_create:relay_hint", "nostr_reaction_parse:reaction_content", "nostr_reaction_parse:target_event_id",
    "nostr_reaction_parse:target_kind", "nostr_reaction_parse:target_pubkey", "nostr_relay_info_serialize:out_len", "nostr_relay_info_set_nips:nips",
    "nostr_relay_limitation_serialize:out_len", "nostr_relay_msg_serialize:out_len", "nostr_relay_set_message_callback:callback", "nostr_relay_set_message_callback:user_data",
    "nostr_repost_create:d_tag", "nostr_repost_create:embedded_json", "nostr_repost_parse:relay_hint", "nostr_repost_parse:reposted_event_id",
    "nostr_repost_parse:reposted_kind", "nostr_repost_parse:reposted_pubkey", "nostr_tag_iterator_next:tag_len", "nostr_zap_create_request:content",
    "nostr_zap_create_request:lnurl", "nostr_zap_parse_receipt:amount", "nostr_zap_parse_receipt:bolt11", "nostr_zap_parse_receipt:preimage",
    "nostr_zap_parse_receipt:zap_request",
};
static int optional(const char *f, const char *arg) { char k[160]; snprintf(k, sizeof k, "%s:%s", f, arg); for (int i = 0; i < MC_LEN(OPTIONAL); i++) if (!strcmp(OPTIONAL[i], k)) return 1; return 0; }
static const char *argname(const fn *f, int i) { static char b[64]; const char *p = f->args; while (i--) p += strcspn(p, " ") + 1; size_t n = strcspn(p, " "); memcpy(b, p, n); b[n] = 0; return b; }
static void missing(void)
{
    int k = mc_choose(MC_LEN(F)); const fn *f = &F[k]; if (!there(f->f)) mc_discard(); M = 0; for (int i = 0; i < f->n; i++) if ((f->always >> i & 1) || mc_choose(2)) M |= 1u << i; if (!M) mc_discard(); char w[300] = ""; int need = 0; for (int i = 0; i < f->n; i++) if (M >> i & 1) { const char *a = argname(f, i); snprintf(w + strlen(w), sizeof w - strlen(w), " %s", a); need |= !optional(f->f, a); }
    for (int i = 0; i < 8; i++) { po[i] = NULL; pl[i] = NULL; sk[i] = SK[0]; pk[i] = PK[1]; } pe = NULL; R = 12345; Q = NULL; bufi = 0; for (int i = 0; i < 8; i++) szs[i] = 4096; MC_NOTE("%s without%s", f->f, w); call(k, f->f); mc_step(); MC_NOTE("-> %d %p", R, Q); if (getenv("C41_AUDIT")) { FILE *au = fopen(getenv("C41_AUDIT"), "a"); fprintf(au, "%s %d%s -> %d %d\n", f->f, f->kind, w, f->kind == 1 ? R : 0, f->kind == 2 ? !!Q : 0); fclose(au); }
    if (need && f->kind == 1 && R == 0) mc_fail("accepted", "%s without%s reports success", f->f, w); if (need && f->kind == 2 && Q) mc_fail("accepted", "%s without%s returns something", f->f, w); if (f->kind == 1 && R != 0) { if (pe) mc_fail("output-on-error", "%s without%s hands out an event", f->f, w); for (int i = 0; i < 8; i++) if (po[i]) mc_fail("output-on-error", "%s without%s hands out a string", f->f, w); } mc_conform();
}
/* one call with these buffer sizes; how much text each buffer got in len[] */
static void sized_call(int k, const size_t *z, size_t *len)
{
    for (int i = 0; i < 8; i++) { po[i] = NULL; pl[i] = NULL; sk[i] = SK[0]; pk[i] = PK[1]; szs[i] = z[i]; obs[i] = NULL; } M = 0; pe = NULL; R = 12345; Q = NULL; bufi = 0; sized = 0; rng_reset(); call(k, F[k].f); mc_step();
    for (int i = 0; i < 8; i++) { len[i] = 0; if (!obs[i] || !z[i]) continue; char *e = memchr(obs[i], 0, z[i]); len[i] = e ? (size_t)(e - obs[i]) : (size_t)-1; }
}
static int SF[64], SB[64], nsf; static size_t SL[64];
static void buffers(void)
{
    int c = mc_choose(nsf), k = SF[c], b = SB[c]; size_t z[8], full[8], len[8], s = (size_t)mc_choose((int)SL[c] + 3); for (int i = 0; i < 8; i++) z[i] = 4096;
    sized_call(k, z, full); char *want = obs[b]; int r0 = R; if (r0 != 0 && F[k].kind == 1) mc_fail("harness", "%s with ample buffers: %d", F[k].f, r0);
    z[b] = s; MC_NOTE("%s, %s of %zu bytes", F[k].f, argname(&F[k], b), s); sized_call(k, z, len); MC_NOTE("-> %d", R);
    if (R == 0) { if (optional(F[k].f, argname(&F[k], b)) && s <= full[b]) { if (s && (len[b] == (size_t)-1 || (len[b] != 0 && len[b] != s - 1) || memcmp(obs[b], want, len[b]))) mc_fail("cut", "%s writes neither nothing nor the beginning of %s into %zu bytes", F[k].f, argname(&F[k], b), s); mc_conform(); return; }
        if (s <= full[b]) mc_fail("truncated", "%s reports success with %zu bytes for %zu characters of %s", F[k].f, s, full[b], argname(&F[k], b)); if (len[b] != full[b] || memcmp(obs[b], want, full[b])) mc_fail("different", "%s writes something else into %zu bytes", F[k].f, s); }
    else if (s > full[b]) mc_fail("refused", "%s refuses %zu bytes for %zu characters of %s: %d", F[k].f, s, full[b], argname(&F[k], b), R);
    mc_conform();
}
static int TF[256], TA[256], TB[512], ntf, ntp, TPF[512];
/* T_() must have run before the length is taken: C leaves the order of arguments open, so the odd text is made first */
static void odd_call(int k)
{
    for (int i = 0; i < 8; i++) { po[i] = NULL; pl[i] = NULL; sk[i] = SK[0]; pk[i] = PK[1]; szs[i] = 4096; } M = 0; pe = NULL; R = 12345; Q = NULL; bufi = 0; rng_reset(); call(k, F[k].f); mc_step();
    MC_NOTE("-> %d %p", R, Q); if (F[k].kind == 1 && R != 0) { if (pe) mc_fail("output-on-error", "%s hands out an event with error %d", F[k].f, R); for (int i = 0; i < 8; i++) if (po[i]) mc_fail("output-on-error", "%s hands out a string with error %d", F[k].f, R); } mc_conform();
}
static void oddtexts(void) { int c = mc_choose(ntf), k = TF[c], v = mc_choose(NODD); odd[TA[c]] = v + 1; oddtext = mk_odd(v); MC_NOTE("%s, %s = odd text %d: %s", F[k].f, argname(&F[k], TA[c]), v, mc_qn(oddtext, strlen(oddtext) > 80 ? 80 : strlen(oddtext))); odd_call(k); }
static const unsigned char ODDS[] = { 0, 1, 3, 6, 8, 11, 13, 16, 20, 24, 34, 36, 47, 50, 52, 53, 56, 58, 61, 65, 67, 68 };
static void oddpairs(void)
{
    int c = mc_choose(ntp), k = TPF[c], a = TB[c] >> 4, b = TB[c] & 15, v = ODDS[mc_choose(MC_LEN(ODDS))], w = ODDS[mc_choose(MC_LEN(ODDS))]; odd[a] = v + 1; odd[b] = w + 1; MC_NOTE("%s, %s = odd text %d, %s = odd text %d", F[k].f, argname(&F[k], a), v, argname(&F[k], b), w); odd_call(k);
}
static void setup(void)
{
    mc_fork_each = 1; static int once; if (once) return; once = 1; fault_install(); party_setup(); rng_reset(); nostr_init(); nostr_key_to_bech32(&PK[1], "npub", NPUB, sizeof NPUB); nostr_privkey_to_bech32(&SK[0], NSEC, sizeof NSEC); nostr_event_id_to_bech32(PK[2].data, NOTE, sizeof NOTE); nostr_ncryptsec_encrypt(&SK[0], "pw", 16, ENC, sizeof ENC); uint8_t seed[64] = { 1 }; nostr_hd_key_from_seed(seed, 64, &HD);
    static nostr_nprofile p; p.pubkey = PK[1]; nostr_nprofile_encode(&p, NPROF, sizeof NPROF); static nostr_nevent v; memcpy(v.id, PK[2].data, 32); nostr_nevent_encode(&v, NEV, sizeof NEV); static nostr_nrelay r; strcpy(r.url, "wss://r"); nostr_nrelay_encode(&r, NREL, sizeof NREL); static nostr_naddr a; a.pubkey = PK[1]; a.kind = 30000; strcpy(a.identifier, "d"); nostr_naddr_encode(&a, NAD, sizeof NAD);
    sprintf(REFA, "30000:%s:d", PKH[1]); sprintf(WURI, "nostr+walletconnect://%s?relay=wss%%3A%%2F%%2Fr.example&secret=%s", PKH[1], SKH[0]); sprintf(WJ, "{\"names\":{\"a\":\"%s\"},\"relays\":{\"%s\":[\"wss://r.example\"]}}", PKH[1], PKH[1]); nostr_event *e = event("note"); nostr_event_to_json(e, &JEV); char *c = party_seal44(SK[0].data, PK[1].data, "hello", 5); strcpy(C44, c); free(c); c = party_seal04(SK[0].data, PK[1].data, "hello", 5); strcpy(C04, c); free(c); char *id = NULL; if (!there("nostr_nip47_session_create")) strcpy(SID, "none"); else if (nostr_nip47_session_create(WURI, &id) == NOSTR_OK) { strcpy(SID, id); nostr_nip47_session_add_permission(SID, "pay", 100000, 1000); }
    if (!*NPUB || !*NSEC || !*NOTE || !*ENC || !*NPROF || !*NEV || !*NAD || !JEV || !*SID) { fprintf(stderr, "c41: setup %d%d%d%d%d%d%d%d%d\n", !!*NPUB, !!*NSEC, !!*NOTE, !!*ENC, !!*NPROF, !!*NEV, !!*NAD, !!JEV, !!*SID); abort(); }
    for (int k = 0; k < MC_LEN(F); k++) { texts = 0; M = F[k].always; if (!there(F[k].f)) continue; if (!has(F[k].f, "config") && !has(F[k].f, "nostr_init") && !has(F[k].f, "cleanup")) { bufi = 0; for (int i = 0; i < 8; i++) szs[i] = 4096; call(k, F[k].f); } for (int i = 0; i < 8; i++) if (texts >> i & 1) { TF[ntf] = k; TA[ntf++] = i; for (int j = 0; j < i; j++) if (texts >> j & 1) { TPF[ntp] = k; TB[ntp++] = j << 4 | i; } } }
    for (int k = 0; k < MC_LEN(F); k++) if (F[k].kind == 1 && !F[k].always) { size_t z[8], len[8]; for (int i = 0; i < 8; i++) z[i] = 4096; if (there(F[k].f) && !has(F[k].f, "config") && !has(F[k].f, "init")) sized_call(k, z, len); else continue; for (int i = 0; i < 8 && nsf < 64; i++) if (sized >> i & 1) { SF[nsf] = k; SB[nsf] = i; SL[nsf++] = len[i] == (size_t)-1 ? 0 : len[i]; } }
}
const mc_scenario mc_scenarios[] = { { "missing", missing, setup, 3, 0, "all public functions with pointer arguments x all subsets of them missing" }, { "buffers", buffers, setup, 3, 0, "all output buffers with a size x all sizes from 0 to two more than needed, the other buffers ample" }, { "odd-text", oddtexts, setup, 3, 0, "all text arguments of the public functions x 73 odd texts" }, { "odd-pairs", oddpairs, setup, 2, 0, "all pairs of text arguments of one function x all pairs of 22 odd texts" }, MC_END };
