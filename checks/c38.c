/* C38: wallet sessions (NIP-47): who may spend how much, until when. A model of the sessions is compared with the
 * real ones after every call; concurrent calls run under every schedule. */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rng.h"
#include "../lib/fault.h"
#include "../lib/party.h"
#include "../lib/noscrypt/noscrypt.h"
#include <time.h>
#include <stdio.h>
#ifdef BUILD_SCHEDNC
#include "../lib/mcsched.h"
#include <pthread.h>
#endif
#define MS 3            /* configured sessions and permissions */
#define TIMEOUT 100
static int64_t NOW = 1700000000; time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
static char URI[3][400];
static nostr_config CF;
static void base_setup(void)
{
    static int once; if (once) return; once = 1; fault_install(); party_setup(); rng_reset();
    for (int i = 0; i < 2; i++) sprintf(URI[i], "nostr+walletconnect://%s?relay=wss%%3A%%2F%%2Fr.example&secret=%s", PKH[2 + i], SKH[i]); sprintf(URI[2], "nostr+walletconnect://%s?relay=wss%%3A%%2F%%2Fr.example", PKH[1]);
    nostr_config_get_defaults(&CF); CF.max_sessions = MS; CF.session_timeout_secs = TIMEOUT; CF.max_permissions = MS; nostr_error_t r = nostr_init_with_config(&CF); if (r != NOSTR_OK) { fprintf(stderr, "c38 setup: %d\n", r); abort(); }
}
/* ---- the model ---- */
typedef struct { char name[32]; uint64_t limit, used; int64_t interval, reset; } perm;
typedef struct { char id[80]; int alive, uri, n; int64_t expires; perm p[40]; } sess;
#define MAXS 16
static sess M[MAXS]; static int nm; static int64_t win; static int inwin;
static unsigned caps = MS, pcap = MS;
static int expired(const sess *s) { return NOW > s->expires; }
static void begin(void)
{
    for (int i = 0; i < nm; i++) if (M[i].id[0]) nostr_nip47_session_destroy(M[i].id);
    nm = 0; NOW += 1000000; win = 0; inwin = 0; rng_reset(); fault_reset(); memset(M, 0, sizeof M);
    if (pcap != MS) { pcap = MS; nostr_config_update(&CF); }
}
static int live(void) { int n = 0; for (int i = 0; i < nm; i++) n += M[i].alive && !expired(&M[i]); return n; }
static void op_create(int u)
{
    char *id = (char *)0x5a5a; if (NOW - win >= 1) win = NOW, inwin = 0; int can = u < 2 && inwin < 10 && live() < (int)caps; nostr_error_t r = nostr_nip47_session_create(URI[u], &id); mc_step();
    if (u < 2) { if (inwin < 10) { inwin++; for (int i = 0; i < nm; i++) if (M[i].alive && expired(&M[i])) M[i].alive = 0; } }
    MC_NOTE("create %d -> %d", u, r); if (!can && r == NOSTR_OK) mc_fail("created", "a session is created although %s", u == 2 ? "the URI is malformed" : inwin >= 10 ? "ten were created this second" : "all are in use"); if (can && r != NOSTR_OK) mc_fail("not-created", "no session although %d of %u are in use: %d", live(), caps, r);
    if (r != NOSTR_OK) return; MC_CHECK(id && id != (char *)0x5a5a && strlen(id) == 64 && strspn(id, "0123456789abcdef") == 64, "session-id", "the session id is %s", id && id != (char *)0x5a5a ? mc_q(id) : "not set");
    for (int i = 0; i < nm; i++) if (!strcmp(M[i].id, id)) mc_fail("session-id", "two sessions have the same id"); { uint8_t b[32]; const uint8_t *log; ref_unhex(id, 64, b); size_t n = rng_log(&log), k; for (k = 0; k + 32 <= n; k++) if (!memcmp(log + k, b, 32)) break; MC_CHECK(k + 32 <= n, "session-id", "the session id is not what the generator gave"); }
    if (nm == MAXS) mc_discard(); sess *s = &M[nm++]; memset(s, 0, sizeof *s); strcpy(s->id, id); s->alive = 1; s->uri = u; s->expires = NOW + TIMEOUT; free(id);
}
static void op_destroy(int k)
{
    if (k >= nm) mc_discard(); nostr_error_t r = nostr_nip47_session_destroy(M[k].id); mc_step(); MC_NOTE("destroy %d -> %d", k, r);
    if (!M[k].alive) { MC_CHECK(r != NOSTR_OK, "dead-session", "a session that is gone can be destroyed"); return; } if (r != NOSTR_OK && !expired(&M[k])) mc_fail("destroy", "a session cannot be destroyed: %d", r); if (r == NOSTR_OK) M[k].alive = 0;
}
static void op_get(int k)
{
    if (k >= nm) mc_discard(); struct nwc_connection *c = (void *)0x5a5a; nostr_error_t r = nostr_nip47_session_get_connection(M[k].id, &c); mc_step(); MC_NOTE("get %d -> %d", k, r); int ok = M[k].alive && !expired(&M[k]);
    if (ok != (r == NOSTR_OK)) mc_fail(ok ? "refused" : "dead-session", ok ? "a live session is refused: %d" : "a session that is over is accepted", r); if (!ok) return;
    nostr_event *e = NULL; if (nostr_nip47_create_request_event(&e, c, "pay_invoice", "{}", 1) != NOSTR_OK) mc_fail("connection", "the connection of the session does not work"); if (memcmp(e->pubkey.data, PK[M[k].uri].data, 32) || e->tags_count < 1 || strcmp(e->tags[0].values[1], PKH[2 + M[k].uri])) mc_fail("connection", "the session has another's connection"); nostr_event_destroy(e);
}
static void op_extend(int k, uint32_t s)
{
    if (k >= nm) mc_discard(); nostr_error_t r = nostr_nip47_session_extend(M[k].id, s); mc_step(); MC_NOTE("extend %d by %u -> %d", k, s, r); if (!M[k].alive) { MC_CHECK(r != NOSTR_OK, "dead-session", "a session that is gone is extended"); return; } if (r != NOSTR_OK && !expired(&M[k])) mc_fail("refused", "a live session is not extended: %d", r); if (r == NOSTR_OK) M[k].expires += s;
}
static void op_add(int k, const char *name, uint64_t limit, uint32_t interval)
{
    if (k >= nm) mc_discard(); nostr_error_t r = nostr_nip47_session_add_permission(M[k].id, name, limit, interval); mc_step(); MC_NOTE("add %d %s %llu/%us -> %d", k, name, (unsigned long long)limit, interval, r); sess *s = &M[k];
    if (!s->alive) { MC_CHECK(r != NOSTR_OK, "dead-session", "a session that is gone gets a permission"); return; } int can = s->n < (int)pcap; if (!can) { MC_CHECK(r != NOSTR_OK, "permissions", "more than %u permissions", pcap); return; } if (r != NOSTR_OK) { if (!expired(s)) mc_fail("refused", "a permission is refused: %d", r); return; }
    perm *p = &s->p[s->n++]; snprintf(p->name, sizeof p->name, "%s", name); p->limit = limit; p->used = 0; p->interval = interval; p->reset = NOW + interval;
}
static void op_check(int k, const char *m, uint64_t a)
{
    if (k >= nm) mc_discard(); sess *s = &M[k]; int ok = s->alive && !expired(s); perm *p = NULL; if (ok) { for (int i = 0; i < s->n && !p; i++) if (!strcmp(s->p[i].name, m) || !strcmp(s->p[i].name, "*")) p = &s->p[i]; ok = !!p; } if (ok) { if (NOW > p->reset) p->used = 0, p->reset = NOW + p->interval; ok = !p->limit || (p->used <= p->limit && a <= p->limit - p->used); }
    nostr_error_t r = nostr_nip47_session_check_permission(s->id, m, a); mc_step(); MC_NOTE("check %d %s %llu -> %d", k, m, (unsigned long long)a, r);
    if (ok && r != NOSTR_OK) mc_fail("refused", "%s of %llu is refused: %d (%llu of %llu used)", m, (unsigned long long)a, r, (unsigned long long)p->used, (unsigned long long)p->limit); if (!ok && r == NOSTR_OK) { if (p) mc_fail("limit-exceeded", "%s of %llu is allowed although %llu of %llu are used", m, (unsigned long long)a, (unsigned long long)p->used, (unsigned long long)p->limit); mc_fail(s->alive && !expired(s) ? "not-permitted" : "dead-session", "%s of %llu is allowed", m, (unsigned long long)a); }
    if (ok && p->limit) p->used += a;
}
static void tick(int64_t d) { NOW += d; MC_NOTE("%lld s pass", (long long)d); mc_step(); }
static uint64_t state(void) { uint64_t h = MC_H0; for (int i = 0; i < nm; i++) { h = mc_hash_u64(h, M[i].alive * 2 + expired(&M[i])); h = mc_hash_u64(h, (uint64_t)(M[i].expires - NOW)); for (int j = 0; j < M[i].n; j++) { h = mc_hash_str(h, M[i].p[j].name); h = mc_hash_u64(h, M[i].p[j].limit * 31 + M[i].p[j].used); h = mc_hash_u64(h, (uint64_t)(M[i].p[j].reset - NOW)); } h = mc_hash_u64(h, 7); } return h; }
#ifndef BUILD_SCHEDNC
static void lives(void)
{
    begin(); int d = mc_thorough() ? 6 : 5; fault_track(1); op_create(0);
    for (int i = 0; i < d; i++) { int o = mc_choose(17); switch (o) { case 0: case 1: case 2: op_create(o); break; case 3: case 4: case 5: op_destroy(o - 3); break; case 6: case 7: op_get(o - 6); break; case 8: case 9: op_extend(o - 8, 50); break; case 10: tick(TIMEOUT + 1); break; case 11: tick(60); break; case 12: case 13: op_add(o - 12, "pay", 100, 1000); break; case 14: case 15: op_check(o - 14, "pay", 60); break; case 16: op_get(2); break; } mc_state(state()); }
    for (int i = 0; i < nm; i++) op_get(i); for (int i = 0; i < nm; i++) if (M[i].alive) nostr_nip47_session_destroy(M[i].id); NOW += 100000; { char *id = NULL; if (nostr_nip47_session_create(URI[0], &id) == NOSTR_OK) { nostr_nip47_session_destroy(id); free(id); } }
    fault_track(0); if (fault_live()) mc_fail("leak", "after the sessions are gone: %s", fault_live_desc()); mc_conform();
}
static const char *const NA[] = { "pay", "*", "get", "payx", "pa", "" }; static const uint64_t LI[] = { 100, 0, 60, UINT64_MAX, 1 };
static void limits(void)
{
    begin(); op_create(0); int n = mc_choose(3); for (int i = 0; i < n; i++) { int x = mc_choose(3), l = mc_choose(4); op_add(0, NA[x], LI[l], l == 2 ? 1000 : 10); }
    static const uint64_t A[] = { 0, 40, 60, 61, 100, 101, UINT64_MAX, UINT64_MAX - 40, UINT64_MAX - 59 }; int d = mc_thorough() ? 5 : 4; for (int i = 0; i < d; i++) { int o = mc_choose(MC_LEN(A) + 5); if (o < MC_LEN(A)) op_check(0, "pay", A[o]); else if (o == MC_LEN(A)) op_check(0, "get", 60); else if (o == MC_LEN(A) + 1) tick(3); else if (o == MC_LEN(A) + 2) tick(11); else if (o == MC_LEN(A) + 3) op_check(0, "*", 1); else op_add(0, "pay", 100, 10); mc_state(state()); } mc_conform();
}
static void names(void)   /* a permission covers its own method (or all) and nothing else; the first that covers decides */
{
    begin(); op_create(1); static const char *const N[] = { "pay_invoice", "*", "pay", "", "PAY", "pay*", "**", "get_balance" }; int a = mc_choose(MC_LEN(N)), b = mc_choose(MC_LEN(N)), la = mc_choose(3), lb = mc_choose(3); op_add(0, N[a], LI[la], 1000); op_add(0, N[b], LI[lb], 1000); for (int i = 0; i < MC_LEN(N); i++) for (int k = 0; k < 3; k++) op_check(0, N[i], k * 30 + 1); mc_conform();
}
static void amounts(void)  /* sums around every power of two */
{
    begin(); op_create(0); int b = mc_choose(64), l = mc_choose(3), x = mc_choose(3); uint64_t lim = ((uint64_t)1 << b) + (uint64_t)(l - 1); if (!lim) mc_discard(); op_add(0, "pay", lim, 1000); uint64_t first = x == 0 ? lim / 2 : x == 1 ? lim : 1; op_check(0, "pay", first); for (int i = 0; i < 64; i++) for (int d = -1; d < 2; d++) op_check(0, "pay", (uint64_t)0 - ((uint64_t)1 << i) + (uint64_t)(int64_t)d); uint64_t rest = lim - M[0].p[0].used; op_check(0, "pay", rest + 1); op_check(0, "pay", rest); op_check(0, "pay", 1); op_check(0, "pay", 0); mc_conform();
}
static void times(void)  /* expiry and windows, second by second */
{
    begin(); op_create(0); int ext = mc_choose(3), step = 1 + mc_choose(40), iv = 1 + mc_choose(12); static const uint32_t X[] = { 0, 37, UINT32_MAX }; op_add(0, "pay", 100, (uint32_t)iv * 7); if (ext) op_extend(0, X[ext]); int64_t t0 = NOW; for (int i = 0; i < 60; i++) { if (NOW != M[0].expires && NOW != M[0].p[0].reset) { op_check(0, "pay", 60); op_get(0); } NOW += step; if (NOW - t0 > 400) break; } mc_conform();
}
static void sessions(void)   /* how many there may be at once, and in a second */
{
    begin(); int n = mc_choose(14), keep = mc_choose(4); for (int i = 0; i < n; i++) { op_create(i & 1); if (nm && live() > keep) op_destroy(nm - 1); } tick(1); op_create(0); op_create(1); op_create(0); op_create(0); mc_conform();
}
static void strangers(void)   /* ids that are no session's */
{
    begin(); op_create(0); op_add(0, "*", 0, 10); int f = mc_choose(5), w = mc_choose(4); char t[140]; mc_step();
    for (int k = 0; k < 256; k++) { const char *p; if (w == 0) { if (k > 63) break; memcpy(t, M[0].id, (size_t)k); t[k] = 0; } else if (w == 1) { if (k > 63) break; strcpy(t, M[0].id); t[k] = t[k] == '0' ? '1' : '0'; } else if (w == 2) { if (!k) continue; sprintf(t, "%s%c", M[0].id, k); } else { if (k > 4) break; strcpy(t, k == 0 ? M[0].id : k == 1 ? "" : k == 2 ? "0000000000000000000000000000000000000000000000000000000000000000" : k == 3 ? " " : "\xff"); if (k == 0) { if (!strpbrk(t, "abcdef")) continue; for (char *c = t; *c; c++) if (*c >= 'a') *c -= 32; } }
        p = mc_thorough() ? t : t; char *g = malloc(strlen(p) + 1); strcpy(g, p); struct nwc_connection *c; nostr_error_t r = f == 0 ? nostr_nip47_session_check_permission(g, "x", 1) : f == 1 ? nostr_nip47_session_get_connection(g, &c) : f == 2 ? nostr_nip47_session_extend(g, 1) : f == 3 ? nostr_nip47_session_add_permission(g, "x", 1, 1) : nostr_nip47_session_destroy(g); mc_eval(1); free(g); if (r == NOSTR_OK) mc_fail("stranger", "function %d accepts %s, the session being %s", f, mc_q(t), M[0].id); }
    op_check(0, "x", 1); mc_conform();
}
static void reconfigured(void)   /* the number of permissions is the configured one at every time */
{
    begin(); op_create(0); op_create(1); static const unsigned C[] = { 1, 2, 3, 5, 8, 39 }; for (int i = 0; i < 3; i++) { nostr_config c = CF; c.max_permissions = pcap = MC_PICK(C); if (nostr_config_update(&c) != NOSTR_OK) mc_discard(); for (int j = 0; j < 10; j++) { char nm[8]; sprintf(nm, "m%d", i * 10 + j); op_add(j & 1, nm, 50, 1000); } } for (int i = 0; i < 30; i++) for (int s = 0; s < 2; s++) { char nm[8]; sprintf(nm, "m%d", i); op_check(s, nm, 30); op_check(s, nm, 30); op_check(s, nm, 20); } mc_conform();
}
static void faults(void)
{
    begin(); mc_set_dev_bound(mc_thorough() ? 2 : 1); fault_track(1); char *id = NULL; fault_arm(); rng_arm(1); nostr_error_t r = nostr_nip47_session_create(URI[0], &id); rng_arm(0); fault_disarm(); mc_step();
    if (r != NOSTR_OK && !mc_dev_used()) mc_fail("not-created", "%d", r); if (r == NOSTR_OK) { MC_CHECK(id && strlen(id) == 64 && !rng_failed(), "no-id", "a session is created without an id"); strcpy(M[0].id, id); nm = 1; M[0].alive = 1; M[0].expires = NOW + TIMEOUT; free(id);
        for (int k = 0; k < 2; k++) { fault_arm(); r = nostr_nip47_session_add_permission(M[0].id, k ? "get" : "pay", 100, 1000); fault_disarm(); mc_step(); if (r == NOSTR_OK) { perm *p = &M[0].p[M[0].n++]; strcpy(p->name, k ? "get" : "pay"); p->limit = 100; p->interval = 1000; p->reset = NOW + 1000; } else if (!mc_dev_used()) mc_fail("refused", "%d", r); }
        op_check(0, "pay", 60); op_check(0, "get", 60); op_check(0, "pay", 60); op_check(0, "nothing", 1); op_get(0); op_destroy(0); }
    else { MC_CHECK(!id, "output-on-error", "a failed create hands out an id"); }
    for (int i = 0; i < MS; i++) op_create(i & 1); for (int i = 0; i < nm; i++) if (M[i].alive) op_destroy(i); fault_track(0); if (fault_live()) mc_fail("leak", "%s", fault_live_desc()); mc_conform();
}
static void setup(void) { base_setup(); char *id; nostr_nip47_session_init(); if (nostr_nip47_session_create(URI[0], &id) == NOSTR_OK) { nostr_nip47_session_destroy(id); free(id); } }
static void first(void)   /* the table itself cannot be had */
{
    rng_reset(); fault_reset(); mc_set_dev_bound(1); nm = 0; int init = mc_choose(2); char *id = NULL; fault_arm(); nostr_error_t r = init ? nostr_nip47_session_init() : NOSTR_OK; if (init && r != NOSTR_OK && !mc_dev_used()) mc_fail("init", "%d", r); r = nostr_nip47_session_create(URI[0], &id); fault_disarm(); mc_step(); if (r != NOSTR_OK) { if (!mc_dev_used()) mc_fail("not-created", "%d", r); MC_CHECK(!id, "output-on-error", "an id is handed out"); } struct nwc_connection *c; MC_CHECK(nostr_nip47_session_get_connection("0000000000000000000000000000000000000000000000000000000000000000", &c) != NOSTR_OK, "stranger", "accepted"); if (r == NOSTR_OK) MC_CHECK(id && nostr_nip47_session_get_connection(id, &c) == NOSTR_OK && nostr_nip47_session_destroy(id) == NOSTR_OK, "refused", "the new session is not there"); free(id); op_create(0); op_get(0); mc_conform();
}
static void nothing(void)   /* before there is any session */
{
    int f = mc_choose(5); struct nwc_connection *c; static const char *const Z[] = { "0000000000000000000000000000000000000000000000000000000000000000", "", NULL }; const char *g = Z[mc_choose(3)]; nostr_error_t r = f == 0 ? nostr_nip47_session_check_permission(g, "x", 1) : f == 1 ? nostr_nip47_session_get_connection(g, &c) : f == 2 ? nostr_nip47_session_extend(g, 1) : f == 3 ? nostr_nip47_session_add_permission(g, "x", 1, 1) : nostr_nip47_session_destroy(g); mc_step(); MC_CHECK(r != NOSTR_OK, "stranger", "function %d accepts an id without sessions", f); mc_conform();
}
static void setup_first(void) { mc_fork_each = 1; base_setup(); }
const mc_scenario mc_scenarios[] = {
    { "lives", lives, setup, 3, 0, "all histories of 5 (6) of 17 operations: create, destroy, use, extend, permit, pay, time" },
    { "limits", limits, setup, 3, 0, "0-2 permissions x histories of 4 (5) payments, pauses, further permissions" },
    { "names", names, setup, 3, 0, "8 x 8 permission names x limits x 8 methods" },
    { "amounts", amounts, setup, 3, 0, "limits and amounts around every power of two" },
    { "times", times, setup, 3, 0, "expiry and windows: steps of 1..40 s x windows x extensions" },
    { "sessions", sessions, setup, 3, 0, "sessions at once and in a second" },
    { "strangers", strangers, setup, 3, 0, "ids that are no session's: every prefix, replacement, continuation" },
    { "reconfigured", reconfigured, setup, 3, 0, "the configured number of permissions changes between" },
    { "faults", faults, setup, 3, 0, "one (two) failures of memory or generator" },
    { "first", first, setup_first, 3, 0, "failing allocations at the very first use" },
    { "nothing", nothing, setup_first, 3, 0, "before any session exists" },
    MC_END };
#else
/* ---- threads ---- */
static nostr_error_t R[3]; static char ID[3][80]; static char *NEW[3];
static void *act(void *x)
{
    int v = (int)(long)x, t = v / 64, o = v % 64; struct nwc_connection *c = NULL; mc_step();
    switch (o) { case 0: R[t] = nostr_nip47_session_check_permission(ID[0], "pay", 60); break; case 1: R[t] = nostr_nip47_session_destroy(ID[0]); break; case 2: R[t] = nostr_nip47_session_create(URI[1], &NEW[t]); break; case 3: R[t] = nostr_nip47_session_extend(ID[0], 5); break; case 4: R[t] = nostr_nip47_session_add_permission(ID[0], "get", 10, 5); break; case 5: R[t] = nostr_nip47_session_get_connection(ID[0], &c); break; case 6: R[t] = nostr_nip47_session_extend(ID[1], 500); break; case 7: R[t] = nostr_nip47_session_check_permission(ID[1], "pay", 1); break; case 8: R[t] = nostr_nip47_session_init(); break; case 9: R[t] = nostr_nip47_session_destroy(ID[1]); break; }
    return NULL;
}
static void threads(void)
{
    int three = mc_choose(2), a = mc_choose(three ? 4 : 10), b = mc_choose(three ? 4 : 10), d = three ? mc_choose(4) : -1; if (b < a || (three && d < b)) mc_discard(); int exp = three ? 0 : mc_choose(2); mc_set_dev_bound(mc_thorough() ? (three ? 2 : 4) : three ? 1 : 3); rng_reset(); char *id;
    for (int i = 0; i < 2; i++) { if (nostr_nip47_session_create(URI[0], &id) != NOSTR_OK) mc_fail("not-created", "setup"); strcpy(ID[i], id); free(id); nostr_nip47_session_add_permission(ID[i], "pay", 100, 100000); } NEW[0] = NEW[1] = NEW[2] = NULL; if (exp) NOW += 5000, nostr_nip47_session_extend(ID[0], 6000);     /* the second one has expired */
    int n = three ? 3 : 2, op[3] = { a, b, d }; sched_begin(); pthread_t t[3]; for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, act, (void *)(long)(i * 64 + op[i])); for (int i = 0; i < n; i++) pthread_join(t[i], NULL); sched_end();
    int pay = 0, paid = 0, cre = 0, created = 0, des = 0, gone = 0; for (int i = 0; i < n; i++) { if (op[i] == 0) pay++, paid += R[i] == NOSTR_OK; if (op[i] == 2) cre++, created += R[i] == NOSTR_OK; if (op[i] == 1) des++, gone += R[i] == NOSTR_OK; }
    if (paid > 1) mc_fail("limit-exceeded", "%d payments of 60 pass a limit of 100", paid); if (pay && !des && paid != 1) mc_fail("refused", "none of %d payments passes", pay); if (des && gone != 1) mc_fail("destroyed", "%d of %d destructions succeed", gone, des);
    int room = 1 + exp + des; for (int i = 0; i < n; i++) if (op[i] == 9 || op[i] == 6) room++; if (created > room) mc_fail("created", "%d sessions created in %d places", created, room); if (cre && !created) mc_fail("not-created", "no session created"); for (int i = 0; i < n; i++) if (op[i] == 2 && R[i] == NOSTR_OK) { if (!NEW[i] || strlen(NEW[i]) != 64) mc_fail("session-id", "no id"); for (int j = 0; j < i; j++) if (NEW[j] && !strcmp(NEW[i], NEW[j])) mc_fail("session-id", "two sessions have the same id"); struct nwc_connection *c; if (nostr_nip47_session_get_connection(NEW[i], &c) != NOSTR_OK) mc_fail("refused", "the new session is not there"); }
    struct nwc_connection *c; if ((nostr_nip47_session_get_connection(ID[0], &c) == NOSTR_OK) != !des) mc_fail("dead-session", "after the threads have ended"); if (!des && (nostr_nip47_session_check_permission(ID[0], "pay", 41) == NOSTR_OK) != !pay) mc_fail("limit-exceeded", "the sum is lost"); mc_conform();
}
static void firsts(void) { mc_set_dev_bound(mc_thorough() ? 4 : 3); rng_reset(); int a = mc_choose(2) ? 8 : 2, b = 2; NEW[0] = NEW[1] = NULL; sched_begin(); pthread_t t[2]; pthread_create(&t[0], NULL, act, (void *)(long)a); pthread_create(&t[1], NULL, act, (void *)(long)(64 + b)); pthread_join(t[0], NULL); pthread_join(t[1], NULL); sched_end(); for (int i = 0; i < 2; i++) if (R[i] != NOSTR_OK) mc_fail("not-created", "%d", R[i]); struct nwc_connection *c; for (int i = 0; i < 2; i++) if (NEW[i] && nostr_nip47_session_get_connection(NEW[i], &c) != NOSTR_OK) mc_fail("refused", "a new session is lost"); mc_conform(); }
static void setup(void) { base_setup(); sched_setup(); nostr_nip47_session_init(); }
static void setup1(void) { base_setup(); sched_setup(); }
const mc_scenario mc_scenarios[] = { { "threads", threads, setup, 3, 0, "two threads x 10 operations, three x 4, with a live and an expired session: races, limits, places" }, { "firsts", firsts, setup1, 3, 0, "two first uses at the same time" }, MC_END };
#endif
