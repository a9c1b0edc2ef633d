/* C24: delegations authorize exactly the events their conditions allow.
 *
 * Reference: the condition grammar of NIP-26 written out, evaluated clause by clause; own SHA-256 over
 * the delegation string and libsecp256k1 (own context) for the token.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <stdlib.h>
#include <stdio.h>

static secp256k1_context *C; static nostr_privkey SK[3]; static nostr_key PK[3];
static void setup(void)
{
    fault_install(); nostr_init(); C = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); rng_reset();
    static const char *const K[3] = { "3501454135014541350145413501453fefb02227e449e57cf4d3a3ce05378683", "b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef", "0000000000000000000000000000000000000000000000000000000000000003" };
    for (int i = 0; i < 3; i++) { ref_unhex(K[i], 64, SK[i].data); secp256k1_keypair kp; secp256k1_xonly_pubkey x; secp256k1_keypair_create(C, &kp, SK[i].data); secp256k1_keypair_xonly_pub(C, &x, NULL, &kp); secp256k1_xonly_pubkey_serialize(C, PK[i].data, &x); }
}
/* ---- reference ---- */
typedef struct { int op; __int128 v; } clause;      /* 'k' '>' '<' */
typedef struct { clause c[200]; int n; } cond;
/* 0 malformed, 1 well-formed, 2 harmless deviation (empty clauses, leading zeros, negative times): either verdict, but never another meaning */
static int ref_parse(const char *s, cond *o)
{
    o->n = 0; int odd = 0, any = 0; if (!*s) return 0;
    for (;;) {
        size_t l = strcspn(s, "&"); if (!l) odd = 1;
        else {
            any = 1; clause c; const char *p = s, *e = s + l; int neg = 0;
            if (l >= 5 && !strncmp(s, "kind=", 5)) { c.op = 'k'; p += 5; } else if (l >= 11 && !strncmp(s, "created_at", 10) && (s[10] == '<' || s[10] == '>')) { c.op = s[10]; p += 11; } else return 0;
            if (c.op != 'k' && p < e && *p == '-') { neg = 1; odd = 1; p++; } if (p == e) return 0; if (*p == '0' && e - p > 1) odd = 1;
            c.v = 0; for (; p < e; p++) { if (*p < '0' || *p > '9') return 0; if (c.v < (__int128)1 << 80) c.v = c.v * 10 + (*p - '0'); }
            if (neg) c.v = -c.v;
            if (c.op == 'k' && c.v > 65535) return 0; if (c.op != 'k' && (c.v > INT64_MAX || c.v < INT64_MIN)) return 0;
            if (o->n < 200) o->c[o->n++] = c; else return 2;
        }
        s += l; if (!*s) break; s++;
    }
    if (!any) return 0; return odd || o->n > 100 ? 2 : 1;
}
static int ref_allows(const cond *c, int kind, int64_t t)
{
    int kinds = 0, hit = 0; for (int i = 0; i < c->n; i++) { if (c->c[i].op == 'k') { kinds = 1; hit |= c->c[i].v == kind; } if (c->c[i].op == '>' && !(t > c->c[i].v)) return 0; if (c->c[i].op == '<' && !(t < c->c[i].v)) return 0; } return !kinds || hit;
}
static void ref_hash(const nostr_key *to, const char *conds, uint8_t h[32]) { static char b[20000]; char x[65]; ref_hex(to->data, 32, x); int n = snprintf(b, sizeof b, "nostr:delegation:%s:%s", x, conds); ref_sha256(b, n, h); }
static int ref_token(const nostr_key *from, const nostr_key *to, const char *conds, const uint8_t *tok) { uint8_t h[32]; secp256k1_xonly_pubkey x; ref_hash(to, conds, h); return secp256k1_xonly_pubkey_parse(C, &x, from->data) && secp256k1_schnorrsig_verify(C, tok, h, 32, &x); }
static void ref_sign(int from, const nostr_key *to, const char *conds, uint8_t *tok) { uint8_t h[32], aux[32] = { 0 }; secp256k1_keypair kp; ref_hash(to, conds, h); secp256k1_keypair_create(C, &kp, SK[from].data); secp256k1_schnorrsig_sign32(C, tok, h, &kp, aux); }

static const int KG[] = { 0, 1, 2, 7, 10, 22, 255, 256, 30023, 65534, 65535 };
static const int64_t TG[] = { INT64_MIN, INT64_MIN + 1, -1, 0, 1, 4, 5, 6, 9, 10, 11, 99, 100, 101, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 4294967301LL, INT64_MAX - 1, INT64_MAX };
/* an event whose delegation tag carries the condition string, through every entry point that reads it */
static nostr_event *ev(int author, const char *conds, int signer) { nostr_event *e = refev_new(); e->pubkey = PK[author]; char pk[65], tx[129]; uint8_t tok[64]; ref_hex(PK[signer].data, 32, pk); ref_sign(signer, &PK[author], conds, tok); ref_hex(tok, 64, tx); const char *v[4] = { "delegation", pk, conds, tx }; nostr_event_add_tag(e, v, 4); return e; }
static void judge(const char *s, int sign)
{
    cond c; int w = ref_parse(s, &c); nostr_delegation d; nostr_error_t r; mc_eval(1);
    if (sign) { memset(&d, 0, sizeof d); r = nostr_delegation_create(&SK[0], &PK[1], s, &d); }
    else { nostr_event *e = refev_new(); char pk[65], tx[129]; memset(tx, 'a', 128); tx[128] = 0; ref_hex(PK[0].data, 32, pk); const char *v[4] = { "delegation", pk, s, tx }; nostr_event_add_tag(e, v, 4); r = nostr_event_get_delegation(e, &d); nostr_event_destroy(e); }
    if (r != NOSTR_OK) { if (w == 1) mc_report("refused", "conditions %s refused: %d", mc_q(s), r); return; }
    if (w == 0) mc_report("accepted", "malformed conditions %s are accepted", mc_q(s));
    else {
        if (!d.conditions || strcmp(d.conditions, s)) mc_report("text", "conditions %s are kept as %s", mc_q(s), d.conditions ? mc_q(d.conditions) : "NULL");
        for (int k = 0; k < MC_LEN(KG); k++) for (int t = 0; t < MC_LEN(TG); t++) { int a = ref_allows(&c, KG[k], TG[t]); r = nostr_delegation_check_conditions(&d, (uint16_t)KG[k], TG[t]); if ((r == NOSTR_OK) != a) mc_report(a ? "denied" : "allowed", "conditions %s, kind %d at %lld: %d", mc_q(s), KG[k], (long long)TG[t], r); }
        if (sign && !ref_token(&PK[0], &PK[1], s, d.token)) mc_report("token", "the token for %s is not the delegator's signature", mc_q(s));
        if (sign && memcmp(d.delegator_pubkey.data, PK[0].data, 32)) mc_report("delegator", "another delegator"); if (sign && (nostr_delegation_verify(&d, &PK[1]) != NOSTR_OK || nostr_delegation_verify(&d, &PK[2]) == NOSTR_OK)) mc_report("verify-created", "%s", mc_q(s));
    }
    nostr_delegation_free(&d);
}
static const char *const CL[] = { "kind=1", "kind=7", "kind=65535", "kind=0", "created_at>5", "created_at>10", "created_at>100", "created_at<100", "created_at<10", "created_at<5", "created_at>4294967301", "created_at<4294967296", "created_at<9223372036854775807", "created_at>9223372036854775806",
    "kind=65536", "kind=4294967297", "kind=", "kind", "kind=1 ", "kind= 1", "kind=+1", "kind=-1", "kind=01", "kind=1.0", "kind=1,7", "kind<1", "kind=18446744073709551617", "kind=-18446744073709551615", "created_at=5", "created_at>", "created_at> 5", "created_at>+5", "created_at>-5", "created_at<5x", "created_at>9223372036854775808", "created_at<18446744073709551626", "Kind=1", "created_at>=5", "", "pubkey=ab", "kind=1created_at>5", "kind=1kind=7", "created_at<5created_at<10", "kind=1;kind=7" };
#define NC ((int)MC_LEN(CL))
static void clauses(void)
{
    int n = 1 + mc_choose(mc_thorough() ? 4 : 3); char s[400] = ""; uint64_t h = n;
    for (int i = 0; i < n; i++) { int c = mc_choose(i < 2 ? NC : i == 2 ? mc_thorough() ? NC : 16 : 14); if (i) strcat(s, "&"); strcat(s, CL[c]); h = mc_hash_u64(h, c); }
    judge(s, n < 3 || mc_thorough()); if (n >= 3) judge(s, 0); mc_step(); mc_conform(); mc_outcome(h); MC_NOTE("conditions %s", mc_q(s));
}
static void raw(void)
{
    static const char *const PRE[] = { "", "k", "kind=", "kind=1", "kind=1&", "created_at>", "created_at<1", "created_at>5&kind=7", "kind", "created_at", "kind=1&created_at<" }; static const char AL[] = "0159&=<>+- kx.\t"; int na = sizeof AL - 1; const char *p = MC_PICK(PRE); int a = mc_choose(na); char s[60]; int L = strlen(p), max = mc_thorough() ? 5 : 4; memcpy(s, p, L);
    s[L] = AL[a]; s[L + 1] = 0; judge(s, 0); if (a == 0) judge(p, 0); int ix[8]; for (int len = 2; len <= max; len++) { memset(ix, 0, sizeof ix); for (;;) { for (int i = 1; i < len; i++) s[L + i] = AL[ix[i]]; s[L + len] = 0; judge(s, 0); int i = len - 1; while (i >= 1 && ++ix[i] == na) ix[i--] = 0; if (i < 1) break; } }
    for (int b = 1; a == 0 && b < 256; b++) { s[L] = (char)b; s[L + 1] = 0; judge(s, 0); s[L] = '1'; s[L + 1] = (char)b; s[L + 2] = 0; judge(s, 0); s[L] = (char)b; s[L + 1] = '1'; judge(s, 0); }
    mc_step(); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_str(MC_H0, p), a)); MC_NOTE("strings beginning with %s%c", p, AL[a]);
}
static void limits(void)
{
    int n = mc_choose(140), m = mc_choose(4); static char s[9000]; s[0] = 0; for (int i = 0; i <= n; i++) { if (i) strcat(s, m == 2 ? "&&" : "&"); if (m == 0) sprintf(s + strlen(s), "kind=%d", i); else if (m == 1) sprintf(s + strlen(s), "created_at>%d", i); else if (m == 2) sprintf(s + strlen(s), "kind=%d", 65535 - i); else sprintf(s + strlen(s), "created_at<%019d", 1000 - i); }
    judge(s, 1); judge(s, 0); mc_step(); mc_conform(); mc_outcome(n * 4 + m); MC_NOTE("%d clauses", n + 1);
}
/* every single-bit change of token, delegator and delegatee; changes of the conditions */
static void token(void)
{
    int what = mc_choose(512 + 256 + 256 + 60); static const char S[] = "kind=1&kind=7&created_at>10&created_at<100"; nostr_delegation d; nostr_key to = PK[1]; char s[100]; strcpy(s, S); if (nostr_delegation_create(&SK[0], &to, S, &d) != NOSTR_OK) mc_fail("refused", "%s", S);
    if (nostr_delegation_verify(&d, &to) != NOSTR_OK) mc_fail("verify-created", "a created delegation does not verify"); int n = 1;
    if (what < 512) d.token[what / 8] ^= 1 << what % 8; else if (what < 768) d.delegator_pubkey.data[(what - 512) / 8] ^= 1 << what % 8; else if (what < 1024) to.data[(what - 768) / 8] ^= 1 << what % 8; else n = 256;
    for (int v = 0; v < n; v++) { if (n > 1) { size_t p = what - 1024; if (p > strlen(S)) break; strcpy(s, S); if (p < strlen(S)) { if (!v || s[p] == (char)v) { if (v) continue; memmove(s + p, s + p + 1, strlen(s + p)); } else s[p] = (char)v; } else { if (!v) continue; s[p] = (char)v; s[p + 1] = 0; } free(d.conditions); d.conditions = strdup(s); }
        int ok = ref_token(&d.delegator_pubkey, &to, s, d.token); nostr_error_t r = nostr_delegation_verify(&d, &to); mc_eval(1); if ((r == NOSTR_OK) != ok) mc_report(ok ? "verify-refused" : "verify-accepted", "alteration %d: %d", what, r); }
    nostr_delegation_free(&d); mc_step(); mc_conform(); mc_outcome(what); MC_NOTE("alteration %d", what);
}
/* events: condition x kind x time x who */
static const char *const EC[] = { "kind=1", "kind=1&kind=7", "created_at>10", "created_at<10", "created_at>5&created_at<10", "kind=7&created_at>5", "created_at>10&created_at<5", "created_at>100&created_at>5", "created_at<5&created_at<100", "kind=1&created_at>5&kind=2&created_at<100&kind=7", "created_at>5&created_at>10&created_at<100&created_at<11", "kind=1kind=7", "kind=1&", "kind=x", "", "created_at>5created_at<9" };
static void events(void)
{
    const char *s = MC_PICK(EC); int author = mc_choose(3), alt = mc_choose(9); nostr_event *e = ev(author, s, alt == 1 ? author : (author + 1) % 3); cond c; int w = ref_parse(s, &c); nostr_tag *t = NULL; for (size_t i = 0; i < e->tags_count; i++) t = &e->tags[i]; int tokok = 1;
    switch (alt) {
    case 2: e->pubkey = PK[(author + 1) % 3]; tokok = 0; break;                       /* another author */
    case 3: t->values[3][5] ^= 1; tokok = 0; break;
    case 4: t->values[1][63] = t->values[1][63] == '0' ? '1' : '0'; tokok = 0; break;
    case 5: { char *n = malloc(strlen(s) + 8); sprintf(n, "%s&kind=9", s); char v0[65], v3[129]; strcpy(v0, t->values[1]); strcpy(v3, t->values[3]); nostr_event_destroy(e); e = refev_new(); e->pubkey = PK[author]; const char *v[4] = { "delegation", v0, n, v3 }; nostr_event_add_tag(e, v, 4); s = n; tokok = 0; w = ref_parse(s, &c); break; }
    case 6: { char b[65]; ref_hex(PK[(author + 2) % 3].data, 32, b); memcpy(t->values[1], b, 64); tokok = 0; break; }
    case 7: { const char *o[2] = { "p", "x" }; nostr_event_add_tag(e, o, 2); const char *q[3] = { "e", "delegation", "y" }; nostr_event_add_tag(e, q, 3); break; }
    }
    if (alt == 8) { nostr_event_destroy(e); e = refev_new(); e->pubkey = PK[author]; tokok = 0; }
    for (int k = 0; k < MC_LEN(KG); k++) for (int j = 0; j < MC_LEN(TG); j++) { e->kind = (uint16_t)KG[k]; e->created_at = TG[j]; nostr_error_t r = nostr_event_verify_delegation(e); mc_eval(1); int ok = tokok && w && ref_allows(&c, KG[k], TG[j]);
        if (r == NOSTR_OK && !ok) mc_report("event-accepted", "conditions %s, alteration %d, kind %d at %lld verifies", mc_q(s), alt, KG[k], (long long)TG[j]); if (r != NOSTR_OK && ok && w == 1) mc_report("event-refused", "conditions %s, kind %d at %lld: %d", mc_q(s), KG[k], (long long)TG[j], r); }
    nostr_event_destroy(e); mc_step(); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_str(MC_H0, s), author * 10 + alt)); mc_state(alt); MC_NOTE("conditions %s, alteration %d", mc_q(s), alt);
}
/* tag shapes: arity, element lengths and hex, several tags */
static void shapes(void)
{
    int n = mc_choose(7), x = mc_choose(14), second = mc_choose(3); char pk[80], tx[300], good_pk[80], good_tx[150]; uint8_t tok[64]; const char *s = "kind=1"; ref_hex(PK[0].data, 32, good_pk); ref_sign(0, &PK[1], s, tok); ref_hex(tok, 64, good_tx); strcpy(pk, good_pk); strcpy(tx, good_tx); int ok = n >= 4, either = n > 4; const char *name = "delegation";
    switch (x) { case 1: pk[63] = 0; ok = 0; break; case 2: strcat(pk, "0"); ok = 0; break; case 3: tx[127] = 0; ok = 0; break; case 4: strcat(tx, "0"); ok = 0; break; case 5: pk[3] = 'g'; ok = 0; break; case 6: tx[100] = 'G'; ok = 0; break; case 7: pk[0] = 0; ok = 0; break; case 8: tx[0] = 0; ok = 0; break;
        case 9: for (char *p = pk; *p; p++) if (*p >= 'a') *p -= 32; either = 1; break; case 10: for (char *p = tx; *p; p++) if (*p >= 'a') *p -= 32; either = 1; break; case 11: name = "Delegation"; ok = 0; break; case 12: name = "delegation "; ok = 0; break; case 13: strcat(tx, good_tx); ok = 0; break; }
    const char *v[7] = { name, pk, s, tx, "x", "y", "z" }; nostr_event *e = refev_new(); e->pubkey = PK[1]; e->kind = 1; e->created_at = 50; if (second == 2) { const char *g[4] = { "delegation", good_pk, s, good_tx }; nostr_event_add_tag(e, g, 4); } if (n) nostr_event_add_tag(e, v, n); if (second == 1) { const char *g[4] = { "delegation", good_pk, s, good_tx }; nostr_event_add_tag(e, g, 4); } if (second) { either = 1; ok = 1; }
    nostr_delegation d; memset(&d, 0x33, sizeof d); nostr_error_t r = nostr_event_verify_delegation(e), g = nostr_event_get_delegation(e, &d); mc_step();
    if (r == NOSTR_OK && !ok) mc_fail("event-accepted", "tag of %d elements, variant %d", n, x); if (r != NOSTR_OK && ok && !either) mc_fail("event-refused", "tag of %d elements, variant %d: %d", n, x, r); if (r == NOSTR_OK && g != NOSTR_OK) mc_fail("get", "verifies but cannot be read");
    if (g == NOSTR_OK) { if (memcmp(d.token, tok, 64) && ok && !second) mc_fail("get", "another token"); if (memcmp(d.delegator_pubkey.data, PK[0].data, 32) && ok && !second) mc_fail("get", "another delegator"); if (!d.conditions || strcmp(d.conditions, s)) mc_fail("get", "other conditions"); nostr_delegation_free(&d); nostr_delegation_free(&d); }
    e->kind = 2; if (nostr_event_verify_delegation(e) == NOSTR_OK) mc_fail("event-accepted", "kind 2 under kind=1"); e->kind = 1; e->pubkey = PK[2]; if (nostr_event_verify_delegation(e) == NOSTR_OK) mc_fail("event-accepted", "another author"); nostr_event_destroy(e); mc_conform(); mc_outcome(n * 42 + x * 3 + second); MC_NOTE("tag of %d elements, variant %d, second tag %d", n, x, second);
}
/* created delegations written to and read back from an event; failures */
static void faults(void)
{
    int op = mc_choose(5); const char *s = MC_PICK(EC); cond c; int w = ref_parse(s, &c); mc_set_dev_bound(mc_thorough() ? 2 : 1); nostr_delegation d, g; memset(&d, 0, sizeof d); memset(&g, 0, sizeof g); rng_reset(); fault_reset(); nostr_event *e = refev_new(); e->pubkey = PK[1]; e->kind = 1; e->created_at = 7; nostr_error_t r;
    if (op && nostr_delegation_create(&SK[0], &PK[1], s, &d) != NOSTR_OK) { nostr_event_destroy(e); mc_conform(); return; } if (op == 2 || op == 4) nostr_event_add_delegation(e, &d); size_t tags = e->tags_count;
    fault_track(1); fault_arm(); rng_arm(1); r = op == 0 ? nostr_delegation_create(&SK[0], &PK[1], s, &d) : op == 1 ? nostr_event_add_delegation(e, &d) : op == 2 ? nostr_event_get_delegation(e, &g) : op == 3 ? nostr_delegation_verify(&d, &PK[1]) : nostr_event_verify_delegation(e); rng_arm(0); fault_disarm(); mc_step(); int f = fault_injected() + rng_failed();
    if (r == NOSTR_OK) { if (op == 0 && (!w || rng_failed() || !ref_token(&PK[0], &PK[1], s, d.token) || !d.conditions || strcmp(d.conditions, s))) mc_fail("fault-create", "success with a wrong delegation after %d failure(s)", f); if (op == 0) for (int k = 0; k < MC_LEN(KG); k++) for (int t = 0; t < MC_LEN(TG); t++) if ((nostr_delegation_check_conditions(&d, (uint16_t)KG[k], TG[t]) == NOSTR_OK) != ref_allows(&c, KG[k], TG[t])) mc_fail("fault-create", "other conditions after %d failure(s)", f);
        if (op == 1) { if (e->tags_count != tags + 1) mc_fail("add", "no tag added"); nostr_tag *t = &e->tags[tags]; char a[65], b[129]; ref_hex(d.delegator_pubkey.data, 32, a); ref_hex(d.token, 64, b); if (t->count != 4 || strcmp(t->values[0], "delegation") || strcmp(t->values[1], a) || strcmp(t->values[2], s) || strcmp(t->values[3], b)) mc_fail("add", "the tag is not [delegation, delegator, conditions, token]"); }
        if (op == 2) { if (memcmp(g.token, d.token, 64) || memcmp(&g.delegator_pubkey, &d.delegator_pubkey, 32) || strcmp(g.conditions, s)) mc_fail("get", "another delegation"); for (int k = 0; k < MC_LEN(KG); k++) for (int t = 0; t < MC_LEN(TG); t++) if ((nostr_delegation_check_conditions(&g, (uint16_t)KG[k], TG[t]) == NOSTR_OK) != ref_allows(&c, KG[k], TG[t])) mc_fail("get", "other conditions after %d failure(s)", f); }
        if (op == 4 && !ref_allows(&c, 1, 7)) mc_fail("event-accepted", "after %d failure(s)", f); }
    else { if (!f && (op == 0 ? w == 1 : op == 4 ? ref_allows(&c, 1, 7) : 1)) mc_fail("fault-refused", "operation %d on %s: %d without a failure", op, mc_q(s), r); if (op == 1 && e->tags_count != tags) mc_fail("add", "a failed operation added a tag"); }
    nostr_delegation_free(&d); if (op == 2) nostr_delegation_free(&g); nostr_event_destroy(e); if (fault_live()) mc_fail("leak", "operation %d: %s", op, fault_live_desc()); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_str(MC_H0, s), op * 100 + (r != NOSTR_OK) * 10 + f)); MC_NOTE("operation %d on %s: %d after %d failure(s)", op, mc_q(s), r, f);
}
static void params(void)
{
    nostr_delegation d; memset(&d, 0, sizeof d); nostr_event *e = refev_new(); nostr_privkey z = { { 0 } }, ff; memset(&ff, 0xff, 32);
    MC_CHECK(nostr_delegation_create(NULL, &PK[0], "kind=1", &d) != NOSTR_OK && nostr_delegation_create(&SK[0], NULL, "kind=1", &d) != NOSTR_OK && nostr_delegation_create(&SK[0], &PK[0], NULL, &d) != NOSTR_OK && nostr_delegation_create(&SK[0], &PK[0], "kind=1", NULL) != NOSTR_OK && nostr_delegation_create(&z, &PK[0], "kind=1", &d) != NOSTR_OK && nostr_delegation_create(&ff, &PK[0], "kind=1", &d) != NOSTR_OK, "null", "accepted");
    memset(&d, 0, sizeof d); MC_CHECK(nostr_delegation_verify(NULL, &PK[0]) != NOSTR_OK && nostr_delegation_verify(&d, &PK[0]) != NOSTR_OK && nostr_delegation_check_conditions(NULL, 1, 1) != NOSTR_OK && nostr_event_add_delegation(NULL, &d) != NOSTR_OK && nostr_event_add_delegation(e, NULL) != NOSTR_OK && nostr_event_add_delegation(e, &d) != NOSTR_OK && nostr_event_get_delegation(NULL, &d) != NOSTR_OK && nostr_event_get_delegation(e, NULL) != NOSTR_OK && nostr_event_get_delegation(e, &d) == NOSTR_ERR_NOT_FOUND && nostr_event_verify_delegation(NULL) != NOSTR_OK && nostr_event_verify_delegation(e) != NOSTR_OK, "null", "accepted");
    nostr_delegation_free(NULL); nostr_event_destroy(e);
    for (int i = 0; i < 2; i++) { nostr_cleanup(); if (i == 0) { if (nostr_delegation_create(&SK[0], &PK[1], "kind=1", &d) == NOSTR_OK && !ref_token(&PK[0], &PK[1], "kind=1", d.token)) mc_fail("uninitialized", "create"); } else { nostr_delegation_verify(&d, &PK[1]); nostr_delegation_free(&d); } } nostr_init(); mc_steps(18); mc_conform(); mc_outcome(1);
}
static void setup_fork(void) { setup(); mc_fork_each = 1; }    /* a generator seeded in one execution stays seeded */
const mc_scenario mc_scenarios[] = {
    { "clauses", clauses, setup, 3, 0, "sequences of up to 3 (4) clauses, well- and malformed, x kinds x times" }, { "raw", raw, setup, 3, 0, "every string of up to 4 (5) characters after 11 prefixes" }, { "limits", limits, setup, 3, 0, "1..140 clauses" },
    { "token", token, setup, 3, 0, "single-bit changes of token and keys, every changed byte of the conditions" }, { "events", events, setup, 3, 0, "events x conditions x kinds x times x forgeries" }, { "shapes", shapes, setup, 3, 0, "tag arity, lengths, hex, several tags" }, { "faults", faults, setup_fork, 3, 0, "failures of memory and randomness" }, { "params", params, setup, 3, 0, "NULL and invalid arguments" }, MC_END
};
