/* C17: threaded mining under every schedule (preemption-bounded), thread-creation and allocation failure.
 *
 * The real library runs under lib/mcsched.c: every synchronization operation is a scheduling point and every
 * memory access of the library is checked for happens-before races.  Each attempted nonce is observed where the
 * library asks for the event's id (link seam on nostr_event_compute_id).
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#include "../lib/fault.h"
#include "../lib/mcsched.h"
#include <nostr.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
#include <unistd.h>

static int64_t NOW = 1700000000;
time_t __wrap_time(time_t *t) { if (t) *t = (time_t)NOW; return (time_t)NOW; }
static long NCPU = 2;
long __real_sysconf(int); long __wrap_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN ? NCPU : __real_sysconf(n); }
static int bits(const uint8_t *id) { int n = 0; while (n < 256 && !(id[n / 8] >> (7 - n % 8) & 1)) n++; return n; }

/* observed attempts */
static int attempts, reached, target_now; static uint64_t seen[4096]; static int dupl, observing;
nostr_error_t __real_nostr_event_compute_id(nostr_event *);
nostr_error_t __wrap_nostr_event_compute_id(nostr_event *e)
{
    nostr_error_t r = __real_nostr_event_compute_id(e);
    if (observing && r == NOSTR_OK) {
        uint64_t n = 0; for (size_t i = 0; i < e->tags_count; i++) if (e->tags[i].count >= 2 && !strcmp(e->tags[i].values[0], "nonce")) n = strtoull(e->tags[i].values[1], NULL, 10);
        for (int i = 0; i < attempts && i < 4096; i++) if (seen[i] == n) dupl++;
        if (attempts < 4096) seen[attempts] = n;
        attempts++;
        if (bits(e->id) >= target_now) reached++;
    }
    return r;
}
static void setup(void) { sched_setup(); fault_install(); nostr_init(); }

typedef struct { int threads, ask, target; uint64_t budget; int shape, seed; } prog;
static void note_tags(const nostr_event *e) { for (size_t i = 0; i < e->tags_count; i++) for (size_t j = 0; j < e->tags[i].count; j++) MC_NOTE("   tag %zu[%zu] %s", i, j, mc_q(e->tags[i].values[j])); }
static void program(const prog *p, int faults, int creates)
{
    nostr_event *e = refev_new(); char c[30]; sprintf(c, "mine %d", p->seed); nostr_event_set_content(e, c); memset(e->pubkey.data, 0x33, 32); memset(e->sig, 0x5a, 64);
    refev_tag(e, 2, "p", "nonce", 0, 0);
    if (p->shape == 1) refev_tag(e, 3, "nonce", "5", "1", 0);
    if (p->shape == 2) refev_tag(e, 2, "nonce", "776531", 0, 0);
    refev_tag(e, 1, "nonceless", 0, 0, 0);
    fault_reset(); fault_track(1); sched_create_may_fail = creates; NCPU = p->threads; attempts = reached = dupl = 0; target_now = p->target;
    sched_begin();
    mc_set_dev_bound(mc_thorough() ? 3 : 2);
    long live0 = fault_live(); int mx = sched_live_mutexes(); (void)live0;
    observing = 1; if (faults) fault_arm();
    nostr_error_t r = nostr_nip13_mine_event_threaded(e, p->target, p->ask, p->budget);
    fault_disarm(); observing = 0;
    if (sched_unjoined()) mc_fail("thread-left", "the call returned while %d of its %d threads were not joined", sched_unjoined(), sched_threads_started());
    int inj = fault_injected() + (mc_dev_used() && creates);
    MC_NOTE("%d threads, target %d, budget %llu, shape %d: %d after %d attempts", p->threads, p->target, (unsigned long long)p->budget, p->shape, r, attempts);
    if (mc_verbose) note_tags(e);
    if (sched_live_mutexes() != mx) mc_fail("mutex-left", "the call left a mutex behind");
    int started = sched_threads_started();
    sched_end();
    mc_state(mc_hash_u64(mc_hash(MC_H0, e->id, 32), r));
    /* the event: other tags and content unchanged, at most one nonce tag (exactly one on success) */
    int nonces = 0, others = 0; const char *val = NULL, *tgt = NULL;
    for (size_t i = 0; i < e->tags_count; i++) {
        nostr_tag *t = &e->tags[i];
        if (t->count >= 1 && !strcmp(t->values[0], "nonce")) { nonces++; val = t->count > 1 ? t->values[1] : NULL; tgt = t->count > 2 ? t->values[2] : NULL; continue; }
        if (others == 0 && t->count == 2 && !strcmp(t->values[0], "p") && !strcmp(t->values[1], "nonce")) others++;
        else if (others == 1 && t->count == 1 && !strcmp(t->values[0], "nonceless")) others++;
        else mc_fail("other-tag", "another tag of the event changed");
    }
    if (others != 2) mc_fail("other-tag", "only %d of the 2 other tags are left", others);
    if (strcmp(e->content, c) || e->kind != 1) mc_fail("content", "content or kind changed");
    uint8_t pk[32]; memset(pk, 0x33, 32); if (memcmp(e->pubkey.data, pk, 32)) mc_fail("author", "the author changed");
    if (nonces > 1) mc_fail("nonce-count", "%d nonce tags", nonces);
    uint8_t id[32]; refev_id(e, id);
    if (r == NOSTR_OK) {
        if (nonces != 1 || !val || !*val || strspn(val, "0123456789") != strlen(val)) mc_fail("nonce-tag", "success with nonce %s", mc_q(val));
        if (!tgt || atoi(tgt) != p->target) mc_fail("nonce-target", "success with committed target %s", mc_q(tgt));
        if (memcmp(id, e->id, 32)) mc_fail("id", "success, but the id is not the hash of the event");
        if (bits(id) < p->target) mc_fail("difficulty", "success with %d zero bits for target %d", bits(id), p->target);
        if (nostr_nip13_verify_pow(e, p->target) != NOSTR_OK) mc_fail("verify", "the mined event does not verify");
        if (attempts && !reached) mc_fail("phantom", "success although no attempt reached the target");
        mc_outcome(mc_hash_str(MC_H0, val));
    } else {
        if (reached) mc_fail("lost", "error %d although a thread found a nonce (%d attempts)", r, attempts);
        if (!inj) {
            if (r != NOSTR_ERR_NOT_FOUND) mc_fail("error-code", "error %d without any failure", r);
            if (!p->budget) mc_fail("gave-up", "unlimited search ended without result");
            if (attempts && (uint64_t)(attempts) != (uint64_t)started * p->budget) mc_fail("budget", "%d threads with %llu iterations each made %d attempts", started, (unsigned long long)p->budget, attempts);
            if (memcmp(id, e->id, 32)) mc_fail("stale-id", "nothing found, but the id is not the hash of the event as it was left");
        } else if (!fault_injected() && !mc_dev_used()) mc_fail("error-code", "error %d", r);
        mc_outcome(mc_hash_u64(MC_H0, r));
    }
    if (attempts && p->budget && (uint64_t)attempts > (uint64_t)(started ? started : 1) * p->budget) mc_fail("budget", "%d attempts", attempts);
    if (attempts && dupl) mc_fail("repeat", "a nonce was tried twice (%d attempts)", attempts);
    if (started && started > p->threads) mc_fail("threads", "%d threads for %d", started, p->threads);
    /* still usable */
    if (nostr_event_compute_id(e) != NOSTR_OK) mc_fail("unusable", "the event cannot be hashed afterwards");
    nostr_event_destroy(e);
    mc_conform();
}
static const prog P[] = {
    { 2, 2, 1, 1, 0, 0 }, { 2, 2, 2, 1, 1, 1 }, { 2, 2, 3, 2, 2, 2 }, { 2, 0, 2, 2, 0, 3 }, { 3, 3, 2, 1, 1, 4 }, { 3, 0, 3, 1, 0, 5 }, { 1, 1, 2, 3, 1, 6 }, { 2, 2, 20, 2, 1, 7 },
    { 2, 2, 1, 0, 0, 8 }, { 2, 2, 2, 0, 1, 9 }, { 2, 2, 3, 3, 0, 10 }, { 3, 3, 20, 1, 0, 11 }, { 2, -1, 4, 0, 0, 12 }, { 1, 0, 20, 2, 0, 13 }, { 3, 3, 1, 1, 0, 14 }, { 3, 3, 3, 2, 1, 15 } };
static void schedules(void) { const prog *p = &P[mc_choose(MC_LEN(P))]; prog q = *p; q.seed += 100 * mc_choose(mc_thorough() ? 3 : 2); program(&q, 0, 0); }
static const prog PF[] = { { 2, 2, 1, 1, 0, 0 }, { 2, 2, 2, 2, 1, 1 }, { 3, 3, 2, 1, 0, 2 }, { 2, 2, 20, 1, 1, 3 }, { 3, 3, 20, 1, 0, 4 }, { 1, 1, 3, 0, 0, 5 }, { 3, 3, 1, 2, 2, 6 }, { 2, 0, 2, 1, 2, 7 } };
static void create_failures(void) { const prog *p = &PF[mc_choose(MC_LEN(PF))]; prog q = *p; q.seed += 100 * mc_choose(2); program(&q, 0, 1); }
static void oom(void) { const prog *p = &PF[mc_choose(MC_LEN(PF))]; prog q = *p; q.seed += 100 * mc_choose(mc_thorough() ? 2 : 1); if (!mc_thorough() && q.threads == 3 && q.shape) mc_discard(); program(&q, 1, 0); }
static void longrun(void) { prog q = { 2, 2, mc_choose(2) ? 30 : 12, 1001 + mc_choose(2), mc_choose(2), 7 }; program(&q, 0, 0); }
/* arguments */
static void arguments(void)
{
    int k = mc_choose(4); nostr_event *e = refev_new(); nostr_event_set_content(e, "x"); sched_begin();
    nostr_error_t r = k == 0 ? nostr_nip13_mine_event_threaded(NULL, 1, 2, 1) : nostr_nip13_mine_event_threaded(e, k == 1 ? 0 : k == 2 ? -1 : -2147483647 - 1, 2, 1);
    if (r == NOSTR_OK) mc_fail("arguments", "accepted");
    if (e->tags_count) mc_fail("arguments", "a refused call changed the event");
    if (sched_threads_started()) mc_fail("arguments", "a refused call started threads");
    sched_end(); mc_conform(); mc_step(); mc_outcome(k); MC_NOTE("refused arguments %d", k);
}
const mc_scenario mc_scenarios[] = {
    { "schedules", schedules, setup, 3, 60, "16 mining programs x 2 (3) events under all schedules with up to 2 (3) preemptions" },
    { "create_failures", create_failures, setup, 3, 60, "every thread creation failing, combined with preemptions, 2 (3) deviations" },
    { "oom", oom, setup, 3, 60, "every allocation failing, combined with preemptions, 2 (3) deviations" },
    { "arguments", arguments, setup, 3, 20, "refused arguments start nothing" },
    { "long", longrun, setup, 2, 120, "budgets beyond the 1000-iteration pause" },
    MC_END };
