/* C42: calls from several threads, each on objects of its own, do not meet.
 *
 * Every pair of functions of the public headers (pubfn.h) runs in two threads of the real library under the
 * controlled scheduler with the happens-before race detector.  Each thread makes its own arguments first; nothing in
 * the process has used the library before (what the arguments need is prepared in a child), or it has been
 * initialized.  Afterwards both results must be the ones each call gives when it runs alone. */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rj.h"
#include "../lib/mcsched.h"
#include "../lib/fault.h"
#include "../lib/party.h"
#include "../lib/noscrypt/noscrypt.h"
#include <nostr_relay_protocol.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define TLS __thread
#include "pubfn.h"
#include "pubfn_reads.h"
/* ---- randomness of a thread depends on the thread only ---- */
static __thread uint64_t rctr;
int __wrap_RAND_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { if (i % 8 == 0) rctr++; uint64_t z = rctr * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; b[i] = (unsigned char)(z >> (8 * (i % 8))); } return 1; }
int __wrap_RAND_priv_bytes(unsigned char *b, int n) { return __wrap_RAND_bytes(b, n); }
int __wrap_mbedtls_ctr_drbg_seed(void *c, void *f, void *pe_, const unsigned char *cu, size_t l) { (void)f; (void)pe_; (void)cu; (void)l; sched_access(c, 8, 1, "generator"); return 0; }
int __wrap_mbedtls_ctr_drbg_random(void *c, unsigned char *b, size_t n) { sched_access(c, 8, 1, "generator"); return __wrap_RAND_bytes(b, (int)n) ? 0 : -1; }
/* the slow key derivations are not what is explored */
static int quick_kdf(const void *p, size_t pn, const void *s, size_t sn, unsigned char *o, size_t on) { uint8_t h[32], b[200]; size_t n = 0; memcpy(b, p, pn = pn > 80 ? 80 : pn); n = pn; memcpy(b + n, s, sn = sn > 80 ? 80 : sn); n += sn; ref_sha256(b, n, h); for (size_t i = 0; i < on; i++) o[i] = h[i & 31] ^ (unsigned char)(i >> 5); return 1; }
int __wrap_EVP_PBE_scrypt(const char *p, size_t pn, const unsigned char *s, size_t sn, uint64_t N, uint64_t r, uint64_t q, uint64_t mm, unsigned char *o, size_t on) { (void)N; (void)r; (void)q; (void)mm; return o ? quick_kdf(p, pn, s, sn, o, on) : 1; }
int __wrap_PKCS5_PBKDF2_HMAC(const char *p, int pn, const unsigned char *s, int sn, int it, const void *md, int on, unsigned char *o) { (void)it; (void)md; return quick_kdf(p, (size_t)pn, s, (size_t)sn, o, (size_t)on); }
/* ---- the calls: arguments first, then the call itself ---- */
static __thread void *pv[8]; static __thread size_t szs[8]; static __thread char *obs[8]; static __thread int variant;
static const char *vary(const char *x) { return variant && (!strcmp(x, "hello") || !strcmp(x, "text") || !strcmp(x, "pw")) ? "another text" : x; }
#define OB(i) (obs[i] = memset(malloc(4096), 'x', 4096))
#define SZ(i) ((size_t)4096)
#define JL(f) strlen(JS(f))
#define TL(n) ((n) == 4 && variant ? strlen("another text") : (size_t)(n))
static unsigned always;
#define A(i, x) (pv[i] = (always >> (i) & 1) ? NULL : (void *)(x))
#define T(i, x) (pv[i] = (always >> (i) & 1) ? NULL : (void *)vary(x))
enum { NF = sizeof F / sizeof *F };
static void prepare(int k)
{
    if (k >= NF) return; const char *f = F[k].f; always = F[k].always; (void)f;
    switch (k) {
#include "pubfn_args.h"
    }
}
#undef A
#undef T
#define A(i, x) ((__typeof__(x))pv[i])
#define T(i, x) ((const char *)pv[i])
#undef OB
#define OB(i) ((char *)0)
/* functions without pointers */
static const char *const MORE[] = { "nostr_init", "nostr_error_string", "nostr_config_get_current", "nostr_kind_is_*", "nostr_config_get_defaults and nostr_config_update" };
static const char *NAME(int k) { return k < NF ? F[k].f : MORE[k - NF]; }
static void run(int k)
{
    if (k >= NF) switch (k - NF) {
    case 0: R = nostr_init(); return;
    case 1: Q = nostr_error_string(NOSTR_ERR_INVALID_KEY); R = (int)strlen(Q); return;
    case 2: { const nostr_config *c = nostr_config_get_current(); Q = c; R = c ? (int)c->max_tags + (int)c->max_content_size : 0; return; }
    case 3: R = nostr_kind_is_replaceable(10002) + 2 * nostr_kind_is_ephemeral(20001) + 4 * nostr_kind_is_addressable(30000); return;
    default: { nostr_config c; nostr_config_get_defaults(&c); R = nostr_config_update(&c); return; }
    }
    const char *f = F[k].f; (void)f;
    switch (k) {
#include "pubfn_calls.h"
    }
}
static int MINE = -1;   /* the function that starts threads of its own (its result may differ: C17, as may a session's name) */
enum { NFN = NF + sizeof MORE / sizeof *MORE };
/* ---- what a call gave, apart from addresses ---- */
static uint64_t digest(void)
{
    uint64_t h = mc_hash_u64(mc_hash_u64(MC_H0, (uint32_t)R), !!Q);
    for (int i = 0; i < 8; i++) { if (po[i]) h = mc_hash(h, po[i], strlen(po[i])); if (obs[i]) h = mc_hash(h, obs[i], strnlen(obs[i], 4096)); h = mc_hash(h, bufs[i], 100); h = mc_hash_u64(h, nums[i]); h = mc_hash(h, sk[i].data, 32); h = mc_hash(h, pk[i].data, 32); }
    if (pe) h = mc_hash_u64(h, refev_hash(pe));
    return h;
}
static void ready(int v) { variant = v; rctr = 1000 * (uint64_t)(v + 1); for (int i = 0; i < 8; i++) { po[i] = NULL; pl[i] = NULL; sk[i] = SK[v]; pk[i] = PK[!v]; obs[i] = NULL; pv[i] = NULL; nums[i] = 0; memset(bufs[i], 0, 200); } pe = NULL; R = 12345; Q = NULL; bufi = 0; }
static int missing(int k) { return k < NF && !there(F[k].f); }
/* every build runs each function with itself; the pairs run in one build each, the thorough tier runs all in all */
#if defined(BUILD_SCHEDM)
static int here(int a, int b) { (void)a; (void)b; return mc_thorough(); }
#elif defined(BUILD_SCHEDNC)
static int special(int k) { if (k < NF) for (int i = 0; i < (int)(sizeof SOME / sizeof *SOME); i++) if (!strcmp(SOME[i].f, F[k].f)) return 1; return 0; }
static int here(int a, int b) { return mc_thorough() || special(a) || special(b); }
#else
static int here(int a, int b) { (void)a; (void)b; return 1; }
#endif
static void own_session(int k) { char *id = NULL; SID[0] = 0; if (k < NF && has(F[k].f, "session") && nostr_nip47_session_create(WURI, &id) == NOSTR_OK) { strcpy(SID, id); nostr_nip47_session_add_permission(SID, "pay", 100000, 1000); } }
/* ---- shared with the children that prepare texts and results ---- */
static struct shared { char npub[100], nsec[100], note[100], enc[400], nprof[400], nev[400], nad[400], nrel[400], jev[3000]; nostr_hd_key hd; uint64_t alone[NFN + 1][2]; int res[NFN + 1][2], ok; } *sh;
static void fresh(void)
{
    nostr_init(); nostr_key_to_bech32(&PK[1], "npub", sh->npub, 100); nostr_privkey_to_bech32(&SK[0], sh->nsec, 100); nostr_event_id_to_bech32(PK[2].data, sh->note, 100); nostr_ncryptsec_encrypt(&SK[0], "pw", 16, sh->enc, 400); uint8_t seed[64] = { 1 }; nostr_hd_key_from_seed(seed, 64, &sh->hd);
    static nostr_nprofile p; p.pubkey = PK[1]; nostr_nprofile_encode(&p, sh->nprof, 400); static nostr_nevent v; memcpy(v.id, PK[2].data, 32); nostr_nevent_encode(&v, sh->nev, 400); static nostr_nrelay r; strcpy(r.url, "wss://r"); nostr_nrelay_encode(&r, sh->nrel, 400); static nostr_naddr a; a.pubkey = PK[1]; a.kind = 30000; strcpy(a.identifier, "d"); nostr_naddr_encode(&a, sh->nad, 400);
    nostr_event *e = event("note"); char *j = NULL; nostr_event_to_json(e, &j); if (j && strlen(j) < 3000) strcpy(sh->jev, j); sh->ok = 1;
}
static void warm_up(void) { nostr_config c; nostr_config_get_defaults(&c); nostr_init_with_config(&c); nostr_init(); }
static void child(void (*f)(int, int), int a, int b) { pid_t c = fork(); if (!c) { f(a, b); _exit(0); } int st; waitpid(c, &st, 0); if (st) { fprintf(stderr, "c42: %s alone ends with %x\n", a >= 0 ? NAME(a) : "preparation", st); _exit(3); } }
static void child_fresh(int a, int b) { (void)a; (void)b; fresh(); }
static void child_alone(int k, int v) { warm_up(); ready(v); own_session(k); prepare(k); run(k); sh->alone[k][v] = digest(); sh->res[k][v] = R; if (getenv("C42_AUDIT")) { FILE *a = fopen(getenv("C42_AUDIT"), "a"); fprintf(a, "%s %d\n", NAME(k), k < NF && F[k].kind == 2 ? !Q : R); fclose(a); } }
static void setup(void)
{
    static int once; sched_setup(); mc_fork_each = 1; if (once) return; once = 1; fault_install(); party_setup();
#ifdef BUILD_SCHEDNC
    NCContext *n = NCGetSharedContext(); uint8_t z[32] = { 1 }; NCInitContext(n, z); { NCPublicKey q; NCSecretKey s; memcpy(s.key, SK[0].data, 32); NCGetPublicKey(n, &s, &q); NCDestroyContext(n); }
#endif
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sprintf(REFA, "30000:%s:d", PKH[1]); sprintf(WURI, "nostr+walletconnect://%s?relay=wss%%3A%%2F%%2Fr.example&secret=%s", PKH[1], SKH[0]); sprintf(WJ, "{\"names\":{\"a\":\"%s\"},\"relays\":{\"%s\":[\"wss://r.example\"]}}", PKH[1], PKH[1]);
    char *c = party_seal44(SK[0].data, PK[1].data, "hello", 5); strcpy(C44, c); c = party_seal04(SK[0].data, PK[1].data, "hello", 5); strcpy(C04, c);
    child(child_fresh, -1, 0); strcpy(NPUB, sh->npub); strcpy(NSEC, sh->nsec); strcpy(NOTE, sh->note); strcpy(ENC, sh->enc); strcpy(NPROF, sh->nprof); strcpy(NEV, sh->nev); strcpy(NAD, sh->nad); strcpy(NREL, sh->nrel); JEV = strdup(sh->jev); HD = sh->hd; if (!sh->ok || !*NPUB || !*NSEC || !*NOTE || !*ENC || !*NPROF || !*NEV || !*NAD || !*JEV) { fprintf(stderr, "c42: setup\n"); abort(); }
    for (int k = 0; k < NF; k++) if (!strcmp(F[k].f, "nostr_nip13_mine_event_threaded")) MINE = k;
    for (int k = 0; k < NFN; k++) for (int v = 0; v < 2 && !missing(k); v++) child(child_alone, k, v);
}
/* ---- two threads ---- */
typedef struct { int k, v, arg; uint64_t h; int r; char sid[80]; } job; static job J[3]; static int nready, nthreads, sharing; static void *object;
static int all_ready(void *a) { (void)a; return nready == nthreads; }
static int have_object(void *a) { (void)a; return !!object; }
static void *worker(void *a)
{
    job *j = a; sched_mute = 1; ready(j->v); strcpy(SID, j->sid); prepare(j->k); sched_mute = 0; if (sharing && j == J) { object = pv[j->arg]; sched_release(&object); } if (++nready == nthreads) { if (mc_choose(2)) sched_yield_point("the start"); } else sched_block(all_ready, NULL, "the start");
    if (sharing && j != J) { sched_block(have_object, NULL, "the object"); sched_acquire(&object); pv[j->arg] = object; }
    run(j->k); sched_mute = 1; j->h = digest(); j->r = R; return NULL;
}
static void threads(int n, int warm)
{
    for (int i = 0; i < n; i++) if (missing(J[i].k)) mc_discard();
    for (int i = 0; i < n; i++) { rctr = 50 + 10 * (uint64_t)i; own_session(J[i].k); strcpy(J[i].sid, SID); } if (warm) warm_up();
    MC_NOTE("%s:", warm ? "initialized" : "first use"); for (int i = 0; i < n; i++) MC_NOTE("  thread %d: %s", i, NAME(J[i].k));
    nready = 0; nthreads = n; fault_reset(); sched_begin(); pthread_t t[3]; for (int i = 1; i < n; i++) pthread_create(&t[i], NULL, worker, &J[i]); worker(&J[0]); for (int i = 1; i < n; i++) pthread_join(t[i], NULL); sched_mute = 0; sched_end(); mc_step();
    for (int i = 0; i < n && warm; i++) if (!(sharing && i) && J[i].k != MINE && !has(NAME(J[i].k), "session_create") && J[i].h != sh->alone[J[i].k][J[i].v]) mc_fail("other-result", "%s gives something else (%d) while %s runs", NAME(J[i].k), J[i].r, NAME(J[!i].k));
    mc_outcome(mc_hash_u64(J[0].h, J[1].h)); mc_conform();
}
static void pair(int dev, int warm, int self)
{
    int a = mc_choose(NFN), b = self ? a : a + mc_choose(NFN - a); if (!self && !here(a, b)) mc_discard(); J[0] = (job){ .k = a, .v = 0 }; J[1] = (job){ .k = b, .v = sh->res[b][0] != sh->res[b][1] ? 0 : 1 }; mc_set_dev_bound(a == MINE || b == MINE ? 0 : dev); threads(2, warm);
}
/* two functions that only read, on one object */
static void shared(void)
{
    int a = mc_choose(sizeof READS / sizeof *READS), b = mc_choose(sizeof READS / sizeof *READS); if (READS[a][2] != READS[b][2] || !here(READS[a][0], READS[b][0])) mc_discard(); J[0] = (job){ .k = READS[a][0], .arg = READS[a][1] }; J[1] = (job){ .k = READS[b][0], .arg = READS[b][1] };
    mc_set_dev_bound(mc_thorough() ? 2 : 1); sharing = 1; object = NULL; MC_NOTE("on one object, arguments %d and %d:", J[0].arg, J[1].arg); threads(2, 1);
}
static void pairs(void) { pair(0, 1, 0); }
static void pairs1(void) { pair(1, mc_choose(2), 0); }
static void same(void) { pair(mc_thorough() ? 2 : 1, mc_choose(2), 1); }
#ifdef BUILD_SCHEDM
#define TIER 2
#else
#define TIER 3
#endif
const mc_scenario mc_scenarios[] = { { "same", same, setup, 3, 0, "every public function in two threads at once" }, { "pairs", pairs, setup, TIER & 1, 0, "all pairs of public functions, either first" }, { "shared", shared, setup, TIER, 0, "all ordered pairs of public functions that only read an object, on one object of each of 23 kinds" }, { "pairs-preempted", pairs1, setup, 2, 0, "all pairs of public functions" }, MC_END };
