/* C13: deletion requests.
 *
 * Oracle: NIP-09 written out on plain lists: a request is a kind 5 event; its e references are the
 * values of its e tags that are 64 lower-case hex digits, its a references those of the form
 * kind:author:identifier.  It covers a target of the same author whose id is among the e references
 * (deletion_authorized) or which is addressable and whose exact address is among the a references
 * (deletion_authorized_address).
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <nostr_relay_protocol.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

static const char *PK = "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", *PK2 = "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81799";
static const char *ID = "a1b2c3d4e5f60718293a4b5c6d7e8f90a1b2c3d4e5f60718293a4b5c6d7e8f90", *ID2 = "a1b2c3d4e5f60718293a4b5c6d7e8f90a1b2c3d4e5f60718293a4b5c6d7e8f91";
static char LONGD[801], LONGE[801];
static void setup(void) { fault_install(); memset(LONGD, 'q', 800); memset(LONGE, 'q', 800); LONGE[799] = 'r'; }
static int hex64(const char *s) { if (strlen(s) != 64) return 0; for (int i = 0; i < 64; i++) if (!strchr("0123456789abcdef", s[i])) return 0; return 1; }
/* 1: well-formed address; 0: ill-formed; 2: number that no kind is written like */
static int addr(const char *s)
{
    size_t n = strspn(s, "0123456789"); if (!n || s[n] != ':') return 0;
    const char *p = s + n + 1; for (int i = 0; i < 64; i++) if (!p[i] || !strchr("0123456789abcdef", p[i])) return 0;
    if (p[64] != ':') return 0;
    if (n > 5 || (n > 1 && s[0] == '0') || atoi(s) > 65535) return 2;
    return 1;
}
static void hexto(const char *h, uint8_t *o) { for (int i = 0; i < 32; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); o[i] = (uint8_t)v; } }
typedef struct { const char *name, *val; int extra; } rtag;     /* val NULL: one element */
#define MAXT 400
/* parse the request, compare its parts with the tags, then decide on the target both ways */
static void decide(const rtag *t, int n, const char *reason, const char *reqpk, nostr_event *tgt, const char *what)
{
    static nostr_tag tg[MAXT]; static char *vals[MAXT][4]; nostr_event e; memset(&e, 0, sizeof e); e.kind = 5; hexto(reqpk, e.pubkey.data); e.content = (char *)reason; e.created_at = 1700000100;
    for (int i = 0; i < n; i++) { int c = 0; vals[i][c++] = (char *)t[i].name; if (t[i].val) { vals[i][c++] = (char *)t[i].val; if (t[i].extra) { vals[i][c++] = "wss://r"; vals[i][c++] = (char *)ID; } } tg[i].values = vals[i]; tg[i].count = c; }
    e.tags = n ? tg : NULL; e.tags_count = n;
    nostr_deletion_request_t q; memset(&q, 0xEE, sizeof q); fault_reset(); fault_track(1);
    nostr_relay_error_t r = nostr_deletion_parse(&e, &q); mc_step();
    if (r != NOSTR_RELAY_OK) { fault_track(0); mc_report("parse-refused", "%s: error %d", what, r); return; }
    size_t ne = 0, na = 0;
    for (int i = 0; i < n; i++) if (t[i].val) {
        if (!strcmp(t[i].name, "e") && hex64(t[i].val)) { if (ne >= q.event_ids_count || strcmp(q.event_ids[ne], t[i].val)) { mc_report("parse-e", "%s: reference %zu is %s, not %s", what, ne, ne < q.event_ids_count ? q.event_ids[ne] : "missing", t[i].val); goto done; } ne++; }
        if (!strcmp(t[i].name, "a")) { int a = addr(t[i].val); if (a == 2 && na < q.addresses_count && !strcmp(q.addresses[na], t[i].val)) na++; else if (a == 1) { if (na >= q.addresses_count || strcmp(q.addresses[na], t[i].val)) { mc_report("parse-a", "%s: address %zu is %s, not %s", what, na, na < q.addresses_count ? mc_q(q.addresses[na]) : "missing", mc_q(t[i].val)); goto done; } na++; } }
    }
    if (q.event_ids_count != ne || q.addresses_count != na) { mc_report("parse-extra", "%s: %zu ids and %zu addresses, expected %zu and %zu", what, q.event_ids_count, q.addresses_count, ne, na); goto done; }
    if (strcmp(q.pubkey, reqpk)) mc_report("parse-pubkey", "%s: pubkey %s", what, q.pubkey);
    if (strcmp(q.reason ? q.reason : "", reason ? reason : "")) mc_report("parse-reason", "%s: reason %s", what, mc_q(q.reason));
    for (int i = 0; i < n; i++) vals[i][0] = vals[i][1] = "gone";         /* the request owns its parts */
    for (int round = 0; tgt && round < 2; round++) {
        char id[65], pk[65]; ref_hex(tgt->id, 32, id); ref_hex(tgt->pubkey.data, 32, pk);
        const char *d = ""; int dq = 0; for (size_t i = 0; i < tgt->tags_count; i++) if (!strcmp(tgt->tags[i].values[0], "d")) { if (tgt->tags[i].count < 2) { dq = 1; continue; } d = tgt->tags[i].values[1]; break; }
        char ad[1200]; snprintf(ad, sizeof ad, "%u:%s:%s", (unsigned)tgt->kind, pk, d);
        char ad0[1200]; snprintf(ad0, sizeof ad0, "%u:%s:", (unsigned)tgt->kind, pk);
        int we = 0, wa = 0, own = !strcmp(pk, reqpk), addressable = tgt->kind >= 30000 && tgt->kind < 40000, amb = 0;
        for (int i = 0; i < n; i++) if (t[i].val) { if (!strcmp(t[i].name, "e") && !strcmp(t[i].val, id)) we = own; if (!strcmp(t[i].name, "a") && addressable) { if (!strcmp(t[i].val, ad)) wa = own; if (dq && own && !strcmp(t[i].val, ad0)) amb = 1; } }
        if (dq && wa && d[0]) amb = 1;
        int ge = nostr_deletion_authorized(&q, tgt), ga = nostr_deletion_authorized_address(&q, tgt); mc_eval(2);
        if (ge != we) mc_report(we ? "id-refused" : "id-authorized", "%s: deletion by id %s: target id %s author %s", what, ge ? "authorized" : "refused", id, pk);
        if (ga != wa && !amb) mc_report(wa ? "address-refused" : "address-authorized", "%s: deletion by address %s: target %s", what, ga ? "authorized" : "refused", mc_q(ad));
        mc_state(mc_hash_u64(mc_hash_u64(MC_H0, we * 8 + wa * 4 + own * 2 + addressable), ne * 16 + na));
    }
done:
    nostr_deletion_free(&q); nostr_deletion_free(&q);
    if (fault_live()) mc_report("leak", "%s: %s", what, fault_live_desc());
    fault_track(0);
}
static const char *DS[] = { NULL, "", "x", "x:y", ":", "xy", LONGD, "\xc3\xa9 d" };
static char *dv[3][3]; static nostr_tag dt[3];
static nostr_event TG;
static void target(int author, int kind, int d, int shape)
{
    memset(&TG, 0, sizeof TG); hexto(author ? PK2 : PK, TG.pubkey.data); hexto(ID, TG.id); TG.kind = (uint16_t)kind; TG.content = "";
    int n = 0; dv[n][0] = "p"; dv[n][1] = (char *)PK2; dt[n].values = dv[n]; dt[n].count = 2; n++;
    if (shape == 2) { dv[n][0] = "d"; dt[n].values = dv[n]; dt[n].count = 1; n++; }
    if (DS[d] && n < 3) { dv[n][0] = "d"; dv[n][1] = (char *)DS[d]; dv[n][2] = "more"; dt[n].values = dv[n]; dt[n].count = 2 + (shape == 1); n++; }
    if (shape == 1 && DS[d]) { dv[n][0] = "d"; dv[n][1] = "x"; dt[n].values = dv[n]; dt[n].count = 2; n++; }
    TG.tags = dt; TG.tags_count = n;
}
static const int KD[] = { 1, 0, 3, 5, 10002, 19999, 20001, 29999, 30000, 30023, 39999, 40000, 65535 };
/* tag alphabet for a target: exact and near-miss references */
enum { NTAG = 34 };
static char pool[NTAG][1100];
static void mk(int i, rtag *o, int kind, const char *tpk, const char *d)
{
    char *b = pool[i]; const char *nm = "a"; int extra = 0; const char *v = b; *b = 0;
    char up[65]; 
    switch (i) {
    case 0: nm = "e"; v = ID; break;
    case 1: nm = "e"; v = ID2; break;
    case 2: nm = "e"; v = ID; extra = 1; break;
    case 3: nm = "e"; for (int k = 0; k < 65; k++) b[k] = (ID[k] >= 'a' && ID[k] <= 'f') ? ID[k] - 32 : ID[k]; break;
    case 4: nm = "e"; sprintf(b, "%.63s", ID); break;
    case 5: nm = "e"; sprintf(b, "%s0", ID); break;
    case 6: nm = "e"; v = NULL; break;
    case 7: nm = "e"; v = ""; break;
    case 8: nm = "E"; v = ID; break;
    case 9: nm = "p"; v = ID; break;
    case 10: nm = "ee"; v = ID; break;
    case 11: nm = "e"; sprintf(b, "%.63sg", ID); break;
    case 12: sprintf(b, "%d:%s:%s", kind, tpk, d); break;
    case 13: sprintf(b, "%d:%s:%s", kind, tpk, d); extra = 1; break;
    case 14: sprintf(b, "%d:%s:%sx", kind, tpk, d); break;
    case 15: sprintf(b, "%d:%s:%.*s", kind, tpk, (int)(strlen(d) ? strlen(d) - 1 : 0), d); if (!*d) sprintf(b, "%d:%s:y", kind, tpk); break;
    case 16: sprintf(b, "%d:%s:%s", kind + 1, tpk, d); break;
    case 17: sprintf(b, "0%d:%s:%s", kind, tpk, d); break;
    case 18: sprintf(b, "%ld:%s:%s", kind + 65536L, tpk, d); break;
    case 19: sprintf(b, "%ld:%s:%s", kind + 4294967296L, tpk, d); break;
    case 20: sprintf(b, "%d:%s:%s", kind, tpk == PK ? PK2 : PK, d); break;
    case 21: for (int k = 0; k < 65; k++) up[k] = (tpk[k] >= 'a' && tpk[k] <= 'f') ? tpk[k] - 32 : tpk[k]; sprintf(b, "%d:%s:%s", kind, up, d); break;
    case 22: sprintf(b, "%d:%s", kind, tpk); break;
    case 23: sprintf(b, "%d:%.63s:%s", kind, tpk, d); break;
    case 24: sprintf(b, ":%s:%s", tpk, d); break;
    case 25: sprintf(b, "+%d:%s:%s", kind, tpk, d); break;
    case 26: sprintf(b, " %d:%s:%s", kind, tpk, d); break;
    case 27: sprintf(b, "%d:%s:%s ", kind, tpk, d); break;
    case 28: v = ""; break;
    case 29: v = NULL; break;
    case 30: nm = "A"; sprintf(b, "%d:%s:%s", kind, tpk, d); break;
    case 31: v = ID; break;
    case 32: nm = "e"; sprintf(b, "%d:%s:%s", kind, tpk, d); break;
    case 33: sprintf(b, "%d::%s:%s", kind, tpk, d); break;
    }
    o->name = nm; o->val = v; o->extra = extra;
}
static void combos(void)
{
    int kd = mc_choose(MC_LEN(KD)), d = mc_choose(MC_LEN(DS)), au = mc_choose(4);   /* request author x target author */
    int shape = mc_choose(3), n = mc_thorough() ? 3 : 2;
    target(au & 1, KD[kd], d, shape); const char *rp = au & 2 ? PK2 : PK, *tp = au & 1 ? PK2 : PK;
    rtag al[NTAG], t[3]; for (int i = 0; i < NTAG; i++) mk(i, &al[i], KD[kd], tp, DS[d] ? DS[d] : "");
    MC_NOTE("request by %s for an event of %s, kind %d, d %s: all lists of %d reference tags", rp == PK ? "A" : "B", tp == PK ? "A" : "B", KD[kd], mc_q(DS[d]), n);
    decide(t, 0, NULL, rp, &TG, "no tags");
    for (int i = 0; i < NTAG; i++) {
        t[0] = al[i]; decide(t, 1, "why", rp, &TG, "one tag");
        for (int j = 0; j < NTAG; j++) { t[0] = al[i]; t[1] = al[j]; decide(t, 2, i & 1 ? "" : "r\"\n", rp, &TG, "two tags"); if (n == 3 && shape == 0) for (int k = 0; k < NTAG; k += 1) { t[2] = al[k]; decide(t, 3, "", rp, &TG, "three tags"); } }
    }
    mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, kd * 8 + d), au * 3 + shape));
}
/* ids and authors that differ in one bit; the reference at every position of a long list */
static void bits(void)
{
    int bit = mc_choose(256), w = mc_choose(2); target(0, 30023, 2, 0);
    if (w) TG.id[bit / 8] ^= 1 << (bit % 8); else TG.pubkey.data[bit / 8] ^= 1 << (bit % 8);
    char a[200], tpk[65]; ref_hex(TG.pubkey.data, 32, tpk); sprintf(a, "30023:%s:x", PK); rtag t[3] = { { "e", ID, 0 }, { "a", a, 0 } };
    decide(t, 2, "", PK, &TG, w ? "id differs in one bit" : "author differs in one bit");
    char a2[200]; sprintf(a2, "30023:%s:x", tpk); t[2].name = "a"; t[2].val = a2; t[2].extra = 0; decide(t, 3, "", PK, &TG, "address of another author"); mc_conform(); mc_outcome(bit * 2 + w);
}
static void positions(void)
{
    static const int N[] = { 1, 2, 3, 8, 9, 16, 17, 33, 64, 100, 300 }; static rtag t[MAXT]; static char b[MAXT][120];
    int n = MC_PICK(N), form = mc_choose(4);
    target(0, 30023, 2, 0); 
    for (int pos = -1; pos < n; pos++) { if (n > 64 && pos > 3 && pos < n - 3 && pos % 17) continue;
        for (int i = 0; i < n; i++) { t[i].extra = i & 1; if (form < 2) { t[i].name = "e"; strcpy(b[i], ID2); b[i][63] = "23456789"[i & 7]; t[i].val = i == pos ? ID : b[i]; } else { t[i].name = "a"; sprintf(b[i], "30023:%s:x%s", PK, i == pos ? "" : i & 1 ? "x" : "y"); t[i].val = b[i]; } if ((form & 1) && i != pos && i % 3 == 0) { t[i].name = i & 1 ? "p" : "k"; } else if ((form & 1) && i != pos && i % 3 == 1) t[i].val = "bad"; }
        decide(t, n, "", PK, &TG, "position in a list"); }
    mc_conform(); mc_outcome(n * 4 + form);
}
/* identifiers of every length: exact, one character less, more, last character changed */
static void lengths(void)
{
    int n = mc_choose(mc_thorough() ? 780 : 340) , c = mc_choose(3); static char d[801]; memset(d, c == 0 ? 'q' : c == 1 ? ':' : '%', n); d[n] = 0; DS[2] = d; target(0, 39999, 2, 0);
    char a[1000]; rtag t = { "a", a, 0 }; sprintf(a, "39999:%s:%s", PK, d); size_t l = strlen(a);
    decide(&t, 1, "", PK, &TG, "identifier length: exact"); a[l] = 'q'; a[l + 1] = 0; decide(&t, 1, "", PK, &TG, "identifier length: longer");
    a[l] = 0; if (n) { a[l - 1] ^= 1; decide(&t, 1, "", PK, &TG, "identifier: last character"); a[l - 1] = 0; decide(&t, 1, "", PK, &TG, "identifier length: shorter"); }
    DS[2] = "x"; mc_conform(); mc_outcome(n * 3 + c);
}
/* every single byte of an address replaced, removed, doubled */
static void bytes(void)
{
    target(0, 30023, 3, 0); char a[200], b[210]; sprintf(a, "30023:%s:x:y", PK); int l = (int)strlen(a), p = mc_choose(l); rtag t = { "a", b, 0 };
    for (int c = 1; c < 256; c++) { strcpy(b, a); b[p] = (char)c; decide(&t, 1, "", PK, &TG, "address with one byte replaced"); memcpy(b, a, p); b[p] = (char)c; strcpy(b + p + 1, a + p); decide(&t, 1, "", PK, &TG, "address with one byte inserted"); }
    memcpy(b, a, p); strcpy(b + p, a + p + 1); decide(&t, 1, "", PK, &TG, "address with one byte removed"); memcpy(b, a, p); b[p] = 0; decide(&t, 1, "", PK, &TG, "address cut");
    char e[80]; if (p < 64) for (int c = 1; c < 256; c++) { strcpy(e, ID); e[p] = (char)c; t.name = "e"; t.val = e; decide(&t, 1, "", PK, &TG, "id with one byte replaced"); }
    mc_conform(); mc_outcome(p);
}
/* only kind 5 is a deletion */
static void kinds(void)
{
    int c = mc_choose(256); nostr_event e; memset(&e, 0, sizeof e); hexto(PK, e.pubkey.data); char *v[2] = { "e", (char *)ID }; nostr_tag tg = { v, 2 }; e.tags = &tg; e.tags_count = 1; e.content = "c";
    for (int k = c * 256; k < c * 256 + 256; k++) {
        e.kind = (uint16_t)k; nostr_deletion_request_t q; memset(&q, 0xEE, sizeof q); nostr_relay_error_t r = nostr_deletion_parse(&e, &q); mc_eval(1);
        if ((r == NOSTR_RELAY_OK) != (k == 5)) mc_report("kind", "kind %d: %d", k, r);
        if (r != NOSTR_RELAY_OK && (q.event_ids || q.event_ids_count || q.addresses || q.reason)) mc_report("kind-leftover", "kind %d: refused but the request is filled", k);
        nostr_deletion_free(&q);
        if (nostr_event_is_deletion(&e) != (k == 5)) mc_report("is-deletion", "kind %d", k);
    }
    mc_step(); mc_conform(); mc_outcome(c);
}
static void oom(void)
{
    int form = mc_choose(6); mc_set_dev_bound(mc_thorough() ? 2 : 1);
    target(0, 30023, 2, 0); char a[200]; sprintf(a, "30023:%s:x", PK); char *v[4][2] = { { "e", (char *)ID }, { "a", a }, { "e", (char *)ID2 }, { "a", a } }; nostr_tag tg[4]; for (int k = 0; k < 4; k++) { tg[k].values = v[k]; tg[k].count = 2; }
    nostr_event e; memset(&e, 0, sizeof e); e.kind = 5; hexto(PK, e.pubkey.data); e.content = form & 1 ? "reason" : ""; e.tags = form < 4 ? tg : tg + 1; e.tags_count = form < 2 ? 4 : form < 4 ? 2 : 1;
    fault_reset(); fault_track(1); fault_arm();
    nostr_deletion_request_t q; memset(&q, 0xEE, sizeof q); nostr_relay_error_t r = nostr_deletion_parse(&e, &q); fault_disarm(); mc_step(); int inj = fault_injected();
    if (r == NOSTR_RELAY_OK) {
        size_t we = 0, wa = 0; for (size_t k = 0; k < e.tags_count; k++) if (e.tags[k].values[0][0] == 'e') we++; else wa++;
        MC_CHECK(q.event_ids_count == we && q.addresses_count == wa && !strcmp(q.reason ? q.reason : "", e.content), "oom:short", "an allocation failed: %zu of %zu ids, %zu of %zu addresses", q.event_ids_count, we, q.addresses_count, wa);
    } else MC_CHECK(inj && !q.event_ids_count && !q.addresses_count, "oom:error", "error %d, %zu ids left", r, q.event_ids_count);
    nostr_deletion_free(&q); MC_CHECK(!fault_live(), "oom:leak", "%s", fault_live_desc()); fault_track(0); mc_conform(); mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, form), r * 2 + !!inj));
}
static void nulls(void)
{
    nostr_deletion_request_t q; memset(&q, 0, sizeof q); nostr_event e; memset(&e, 0, sizeof e); e.kind = 5; char dummy;(void)dummy;
    MC_CHECK(nostr_deletion_parse(NULL, &q) != NOSTR_RELAY_OK && nostr_deletion_parse(&e, NULL) != NOSTR_RELAY_OK && !nostr_deletion_authorized(NULL, &e) && !nostr_deletion_authorized(&q, NULL) && !nostr_deletion_authorized_address(NULL, &e) && !nostr_deletion_authorized_address(&q, NULL), "null", "NULL accepted");
    nostr_deletion_free(NULL); MC_CHECK(!nostr_deletion_authorized(&q, &e) && !nostr_deletion_authorized_address(&q, &e), "empty", "the empty request authorizes"); mc_step(); mc_outcome(1);
}
const mc_scenario mc_scenarios[] = {
    {"combos", combos, setup, 3, 120, "13 kinds x 8 identifiers x 4 author pairs x 3 target shapes x all lists of 2 (3) of 34 reference tags"},
    {"bits", bits, setup, 3, 0, "author or id differing in any one bit"},
    {"positions", positions, setup, 3, 0, "the matching reference at every position of lists up to 300"},
    {"lengths", lengths, setup, 3, 0, "identifiers of every length up to 339 (779)"},
    {"bytes", bytes, setup, 3, 0, "every byte of an address and an id replaced, inserted, removed, cut"},
    {"kinds", kinds, setup, 3, 0, "all kinds"},
    {"oom", oom, setup, 3, 0, "every allocation failing (pairs)"},
    {"nulls", nulls, setup, 3, 0, "NULL and empty requests"},
    MC_END
};
