#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdatomic.h>
#include <setjmp.h>
#include <signal.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/prctl.h>
#include <sys/syscall.h>

#define MAXC      6000
#define MAXJOBS   64
#define MAXVIOL   400
#define STATE_LOG 24
#define OUT_LOG   22
#define NOTE_MAX  16384
#define NSAMPLES  8

typedef struct {
    char key[192];
    char msg[1200];
    int n;
    int choices[MAXC];
    int scenario;
} viol_t;

typedef struct {
    _Atomic uint64_t execs;      /* progress heartbeat */
    volatile int finished;
    volatile int n;              /* choices taken by the running execution */
    volatile int claimed;        /* first choice value claimed, -1 none */
    volatile int resume;         /* resume (advance) from choices[] at start */
    volatile int nontrivial;     /* of the running execution */
    int choices[MAXC];
    int arity[MAXC];
    int limit[MAXC];             /* alternatives at this point that are this worker's to try */
    volatile int prefix_len;     /* choices[0..prefix_len) are imposed */
    volatile int floor;          /* points above it belong to another worker */
    volatile int active;
    _Atomic int lk;
    char note[NOTE_MAX];
    int note_len;
} worker_t;

typedef struct {
    _Atomic int next_first;
    _Atomic uint64_t execs, steps, evals, conf, discarded, nontrivial_execs;
    _Atomic uint64_t nstates, nouts;
    _Atomic int state_overflow;
    _Atomic int lock;
    _Atomic int nviol;
    _Atomic uint64_t nviol_total;
    _Atomic int maxdepth;
    _Atomic int stop;
    viol_t viol[MAXVIOL];
    _Atomic int nsamples;
    char samples[NSAMPLES][4096];
    worker_t w[MAXJOBS];
    _Atomic uint64_t states[1u << STATE_LOG];
    _Atomic uint64_t outs[1u << OUT_LOG];
} shared_t;

static shared_t *S;
static worker_t *W;
/* library seams may replace usleep */
static void nap(long us) { struct timespec t = { 0, us * 1000 }; syscall(SYS_nanosleep, &t, NULL); }
static int scen_idx;
static int replaying;           /* a fixed choice vector is followed */
static int *rep_choices; static int rep_n;
static int pos;
static int dev_bound = 1, dev_used;
static sigjmp_buf jb;
static int in_exec;
static int tier_thorough;
int mc_fork_each;               /* every execution gets a process of its own */
static int child_mode;          /* 1: child of a worker, 2: replay child */
int mc_verbose;
static long max_first = -1;

enum { END_OK = 1, END_FAIL, END_DISCARD, END_NOWORK, END_NONDET };

/* leave the execution from any thread */
static void leave(int how)
{
    if (child_mode) _exit(child_mode == 2 ? 0 : 100 + how);
    siglongjmp(jb, how);
}
int mc_thorough(void) { return tier_thorough; }
int mc_in_execution(void) { return in_exec; }
void mc_set_dev_bound(int b) { dev_bound = b; }
int mc_dev_used(void) { return dev_used; }

static void lock(void) { int z = 0; while (!atomic_compare_exchange_weak(&S->lock, &z, 1)) { z = 0; syscall(SYS_sched_yield); } }
static void unlock(void) { atomic_store(&S->lock, 0); }

int mc_choose(int n)
{
    if (n <= 0) { fprintf(stderr, "mc_choose(%d)\n", n); abort(); }
    if (!in_exec) { fprintf(stderr, "mc_choose outside an execution\n"); abort(); }
    if (pos >= MAXC) mc_fail("horizon", "more than %d choice points in one execution", MAXC);
    int v;
    if (replaying) {
        v = pos < rep_n ? rep_choices[pos] : 0;
        if (v >= n) mc_fail("nondeterminism", "replay diverged: choice %d is %d of only %d", pos, v, n);
    } else if (pos == 0) {
        v = W->claimed;
        if (max_first < 0 || n < max_first) max_first = n;
        if (v >= n) leave(END_NOWORK);
        if (W->prefix_len > 0 && W->arity[0] != n) mc_fail("nondeterminism", "arity of choice 0 changed %d -> %d", W->arity[0], n);
    } else if (pos < W->prefix_len) {
        v = W->choices[pos];
        if (W->arity[pos] != n && pos < W->prefix_len - 1) {
            mc_fail("nondeterminism", "re-executing the same choices gave %d alternatives at point %d, earlier %d", n, pos, W->arity[pos]);
        }
        if (v >= n) mc_fail("nondeterminism", "re-executing the same choices gave %d alternatives at point %d, needed > %d", n, pos, v);
    } else {
        v = 0;
    }
    W->choices[pos] = v;
    W->arity[pos] = n;
    if (!replaying && pos >= W->prefix_len) W->limit[pos] = n;
    pos++;
    W->n = pos;
    return v;
}

int mc_choose_dev(int n)
{
    int avail = (dev_used < dev_bound) ? n : 1;
    int v = mc_choose(avail);
    if (v) dev_used++;
    return v;
}

static int find_viol(const char *key)
{
    for (int i = 0; i < S->nviol; i++)
        if (S->viol[i].scenario == scen_idx && strcmp(S->viol[i].key, key) == 0) return i;
    return -1;
}

static void record(const char *key, const char *msg, int n, const int *choices)
{
    atomic_fetch_add(&S->nviol_total, 1);
    lock();
    if (find_viol(key) < 0 && S->nviol < MAXVIOL) {
        viol_t *v = &S->viol[S->nviol];
        snprintf(v->key, sizeof v->key, "%s", key);
        snprintf(v->msg, sizeof v->msg, "%s", msg);
        v->n = n; v->scenario = scen_idx;
        memcpy(v->choices, choices, sizeof(int) * n);
        atomic_fetch_add(&S->nviol, 1);
    }
    unlock();
}

void mc_report(const char *key, const char *fmt, ...)
{
    char msg[1200];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    if (mc_verbose && find_viol(key) < 0) mc_note("VIOLATED %s: %s", key, msg);
    record(key, msg, pos, W->choices);
}

void mc_fail(const char *key, const char *fmt, ...)
{
    char msg[1200];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    if (!in_exec) { fprintf(stderr, "mc_fail outside an execution: %s: %s\n", key, msg); abort(); }
    if (mc_verbose) mc_note("VIOLATED %s: %s", key, msg);
    record(key, msg, pos, W->choices);
    leave(END_FAIL);
    abort();
}

void mc_discard(void) { leave(END_DISCARD); abort(); }
void mc_stop(void) { leave(END_OK); abort(); }

void mc_step(void) { atomic_fetch_add_explicit(&S->steps, 1, memory_order_relaxed); }
void mc_steps(uint64_t n) { atomic_fetch_add_explicit(&S->steps, n, memory_order_relaxed); }
void mc_eval(uint64_t n) { atomic_fetch_add_explicit(&S->evals, n, memory_order_relaxed); }
void mc_conform(void) { atomic_fetch_add_explicit(&S->conf, 1, memory_order_relaxed); }

static void hs_add(_Atomic uint64_t *t, int lg, _Atomic uint64_t *cnt, uint64_t h)
{
    if (h == 0) h = 0x9e3779b97f4a7c15ull;
    uint64_t mask = (1ull << lg) - 1;
    if (atomic_load_explicit(cnt, memory_order_relaxed) > (mask / 8) * 7) { S->state_overflow = 1; return; }
    uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - lg);
    for (;;) {
        uint64_t cur = atomic_load_explicit(&t[i], memory_order_relaxed);
        if (cur == h) return;
        if (cur == 0) {
            uint64_t z = 0;
            if (atomic_compare_exchange_strong(&t[i], &z, h)) { atomic_fetch_add(cnt, 1); return; }
            if (z == h) return;
        }
        i = (i + 1) & mask;
    }
}
void mc_state(uint64_t h) { hs_add(S->states, STATE_LOG, &S->nstates, h); }
void mc_outcome(uint64_t h) { W->nontrivial = 1; hs_add(S->outs, OUT_LOG, &S->nouts, h); }

void mc_note(const char *fmt, ...)
{
    if (!mc_verbose) return;
    int room = NOTE_MAX - W->note_len;
    if (room < 2) return;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(W->note + W->note_len, room, fmt, ap);
    va_end(ap);
    if (k < 0) return;
    if (k >= room) k = room - 1;
    W->note_len += k;
    if (W->note_len < NOTE_MAX - 1) { W->note[W->note_len++] = '\n'; W->note[W->note_len] = 0; }
}

uint64_t mc_hash(uint64_t h, const void *p, size_t n)
{
    const unsigned char *c = p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
uint64_t mc_hash_str(uint64_t h, const char *s)
{
    if (!s) return mc_hash_u64(h, 0xdeadbeefcafeull);
    return mc_hash(h, s, strlen(s) + 1);
}
uint64_t mc_hash_u64(uint64_t h, uint64_t v) { return mc_hash(h, &v, sizeof v); }

static char *rot(void) { static char b[8][1024]; static int i; return b[i++ & 7]; }
const char *mc_qn(const char *s, size_t n)
{
    char *o = rot(); size_t j = 0;
    if (!s) return "NULL";
    o[j++] = '"';
    for (size_t i = 0; i < n && j < 1000; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o[j++] = '\\'; o[j++] = c; }
        else if (c >= 32 && c < 127) o[j++] = c;
        else j += sprintf(o + j, "\\x%02x", c);
    }
    o[j++] = '"'; o[j] = 0;
    return o;
}
const char *mc_q(const char *s) { return s ? mc_qn(s, strlen(s)) : "NULL"; }
const char *mc_hex(const void *p, size_t n)
{
    char *o = rot(); const unsigned char *c = p; size_t j = 0;
    for (size_t i = 0; i < n && j < 1000; i++) j += sprintf(o + j, "%02x", c[i]);
    o[j] = 0; return o;
}

/* one execution */
static int run_once(const mc_scenario *sc)
{
    pos = 0; dev_used = 0; W->nontrivial = 0;
    W->n = 0; W->note_len = 0; W->note[0] = 0;
    in_exec = 1;
    int r = sigsetjmp(jb, 0);
    if (r == 0) { sc->body(); r = END_OK; }
    in_exec = 0;
    return r;
}

/* the same in a process of its own: library statics, threads and memory start afresh */
static int run_forked(const mc_scenario *sc)
{
    W->n = 0;
    pid_t me = getpid(), p = fork();
    if (p < 0) _exit(3);
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != me) _exit(3);
        child_mode = 1;
        int r = run_once(sc);
        _exit(100 + r);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    pos = W->n;
    if (WIFEXITED(st) && WEXITSTATUS(st) > 100) return WEXITSTATUS(st) - 100;
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 78);
    signal(WTERMSIG(st), SIG_DFL);
    kill(me, WTERMSIG(st));
    _exit(79);
}

static void wlock(worker_t *w) { int z = 0; while (!atomic_compare_exchange_weak(&w->lk, &z, 1)) { z = 0; syscall(SYS_sched_yield); } }
static void wunlock(worker_t *w) { atomic_store(&w->lk, 0); }
static int advance(void)
{
    wlock(W);
    int i = W->n - 1, f = W->floor < 1 ? 1 : W->floor, ok = 0;
    while (i >= f && W->choices[i] + 1 >= W->limit[i]) i--;
    if (i >= f) { W->choices[i]++; W->prefix_len = i + 1; ok = 1; }
    else W->prefix_len = 0;
    wunlock(W);
    return ok;
}
/* take untried alternatives of another worker, the ones nearest to the root first */
static int steal(int wi, int jobs)
{
    for (int k = 1; k < jobs; k++) {
        worker_t *v = &S->w[(wi + k) % jobs];
        if (!v->active) continue;
        wlock(v);
        for (int i = v->floor < 1 ? 1 : v->floor; i < v->prefix_len; i++) {
            int lo = v->choices[i] + 1, hi = v->limit[i];
            if (lo >= hi) continue;
            int mid = lo + (hi - lo) / 2;
            memcpy(W->choices, v->choices, sizeof(int) * i); memcpy(W->arity, v->arity, sizeof(int) * (i + 1)); memcpy(W->limit, v->limit, sizeof(int) * i);
            W->choices[i] = mid; W->limit[i] = hi; v->limit[i] = mid;
            W->floor = i; W->n = i + 1; W->prefix_len = i + 1; W->claimed = W->choices[0];
            wunlock(v);
            return 1;
        }
        wunlock(v);
    }
    return 0;
}
static int njobs;

static void worker(const mc_scenario *sc, int wi)
{
    W = &S->w[wi];
    atomic_store(&W->lk, 0);
    if (sc->setup) sc->setup();
    if (W->resume) {
        W->resume = 0;
        if (!advance()) W->claimed = -1;
    }
    int firsts_left = 1;
    for (;;) {
        if (atomic_load(&S->stop)) break;
        if (W->claimed < 0) {
            if (firsts_left) { W->floor = 1; W->prefix_len = 0; W->claimed = atomic_fetch_add(&S->next_first, 1); W->active = 1; }
            else {
                W->active = 0;
                int others = 0;
                for (int k = 0; k < njobs; k++) others |= S->w[k].active;
                if (!others) break;
                wlock(W); W->n = 0; W->prefix_len = 0; wunlock(W);
                if (!steal(wi, njobs)) { nap(2000); atomic_fetch_add(&W->execs, 1); continue; }
                W->active = 1;
            }
        }
        uint64_t cnt = atomic_load(&S->execs);
        /* sample executions 1,2,4,8,... of the scenario */
        int sample = 0;
        if ((cnt & (cnt - 1)) == 0 && S->nsamples < NSAMPLES && (cnt > 16 || cnt < 3)) sample = 1;
        mc_verbose = sample;
        int r = mc_fork_each ? run_forked(sc) : run_once(sc);
        mc_verbose = 0;
        if (r == END_NOWORK || (pos == 0 && W->claimed > 0)) { firsts_left = 0; W->claimed = -1; W->prefix_len = 0; continue; }   /* no such first alternative */
        if (r == END_DISCARD) atomic_fetch_add(&S->discarded, 1);
        else {
            atomic_fetch_add(&S->execs, 1);
            if (W->nontrivial) atomic_fetch_add(&S->nontrivial_execs, 1);
            if (sample && W->note_len) {
                int k = atomic_fetch_add(&S->nsamples, 1);
                if (k < NSAMPLES) snprintf(S->samples[k], sizeof S->samples[k], "%s", W->note);
            }
        }
        if (pos > S->maxdepth) S->maxdepth = pos;
        atomic_fetch_add(&W->execs, 1);
        if (!advance()) W->claimed = -1;
    }
    W->active = 0;
    W->finished = 1;
}

static char workdir[400] = ".";

static pid_t spawn(const mc_scenario *sc, int wi)
{
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        char path[500];
        snprintf(path, sizeof path, "%s/stderr.%s.%d", workdir, sc->name, wi);
        int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        worker(sc, wi);
        _exit(0);
    }
    return p;
}

static void crash_kind(const mc_scenario *sc, int wi, int status, char *key, size_t kn, char *msg, size_t mn)
{
    char path[500], line[2000];
    snprintf(path, sizeof path, "%s/stderr.%s.%d", workdir, sc->name, wi);
    char kind[80] = "";
    char detail[1100] = "";
    FILE *f = fopen(path, "r");
    if (f) {
        int frames = 0;
        while (fgets(line, sizeof line, f)) {
            char *p;
            if (!kind[0] && (p = strstr(line, "ERROR: AddressSanitizer: "))) {
                sscanf(p + strlen("ERROR: AddressSanitizer: "), "%70[^ \n]", kind);
                strncat(detail, p, sizeof detail - strlen(detail) - 1);
            } else if (!kind[0] && (p = strstr(line, "runtime error: "))) {
                snprintf(kind, sizeof kind, "undefined-behaviour");
                strncat(detail, line, sizeof detail - strlen(detail) - 1);
            } else if (kind[0] && frames < 6 && strstr(line, "    #")) {
                frames++;
                strncat(detail, line, sizeof detail - strlen(detail) - 1);
            } else if (!kind[0] && strstr(line, "Assertion")) {
                snprintf(kind, sizeof kind, "assert");
                strncat(detail, line, sizeof detail - strlen(detail) - 1);
            }
        }
        fclose(f);
    }
    if (!kind[0]) {
        if (WIFSIGNALED(status)) snprintf(kind, sizeof kind, "signal-%d", WTERMSIG(status));
        else snprintf(kind, sizeof kind, "exit-%d", WEXITSTATUS(status));
    }
    snprintf(key, kn, "crash:%s", kind);
    snprintf(msg, mn, "the library crashed: %s %s", kind, detail);
    for (char *c = msg; *c; c++) if (*c == '\n') *c = '|';
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void reset_shared(void)
{
    /* fresh zero pages */
    if (S) munmap(S, sizeof *S);
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); exit(2); }
}

/* explore one scenario with `jobs` workers. */
static void explore(const mc_scenario *sc, int jobs, double time_cap, int *capped, int *crashes)
{
    pid_t pid[MAXJOBS]; uint64_t last[MAXJOBS]; double last_t[MAXJOBS];
    int tmo = sc->exec_timeout_s ? sc->exec_timeout_s : 30;
    int alive = 0;
    *capped = 0; *crashes = 0;
    double t0 = now();
    njobs = jobs;
    for (int i = 0; i < jobs; i++) {
        S->w[i].claimed = -1;
        pid[i] = spawn(sc, i); alive++;
        last[i] = 0; last_t[i] = now();
    }
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int i; for (i = 0; i < jobs && pid[i] != p; i++) ;
            if (i == jobs) continue;
            alive--; pid[i] = 0;
            worker_t *w = &S->w[i];
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && w->finished) continue;
            char key[200], msg[1200];
            W = w;
            crash_kind(sc, i, st, key, sizeof key, msg, sizeof msg);
            record(key, msg, w->n, w->choices);
            atomic_fetch_add(&S->execs, 1);
            (*crashes)++;
            if (*crashes > 40 || w->claimed < 0 || w->n == 0) {
                *capped = 1; atomic_store(&S->stop, 1);
                if (w->n == 0 && *crashes < 3) fprintf(stderr, "worker died before its first choice: %s\n", msg);
                continue;
            }
            w->resume = 1;
            pid[i] = spawn(sc, i); alive++;
            last_t[i] = now();
            continue;
        }
        nap(2000);
        double t = now();
        for (int i = 0; i < jobs; i++) if (pid[i]) {
            uint64_t e = S->w[i].execs;
            if (e != last[i]) { last[i] = e; last_t[i] = t; }
            else if (t - last_t[i] > tmo) {
                /* hang: kill, record, continue behind it (the reporter replays it with a longer limit) */
                kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0);
                worker_t *w = &S->w[i];
                W = w;
                char msg[200]; snprintf(msg, sizeof msg, "one execution did not finish within %d s", tmo);
                record("hang", msg, w->n, w->choices);
                (*crashes)++;
                if (*crashes > 3 || w->claimed < 0 || w->n == 0) { pid[i] = 0; alive--; *capped = 1; atomic_store(&S->stop, 1); continue; }
                w->resume = 1;
                pid[i] = spawn(sc, i); last_t[i] = t;
            }
        }
        if (t - t0 > time_cap) { *capped = 1; atomic_store(&S->stop, 1); }
    }
}

/* replay: returns 1 when key reproduced; the note text is left in S->w[0].note */
static int replay(const mc_scenario *sc, const int *choices, int n, const char *key, char *gotkey, size_t gn, int tmo)
{
    worker_t *w = &S->w[0];
    int before = S->nviol;
    (void)before;
    int save_nviol = S->nviol;
    S->nviol = 0;           /* collect separately: place behind */
    viol_t *save = malloc(sizeof(viol_t) * (save_nviol ? save_nviol : 1));
    memcpy(save, S->viol, sizeof(viol_t) * save_nviol);
    gotkey[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        char path[500];
        snprintf(path, sizeof path, "%s/stderr.%s.%d", workdir, sc->name, 0);
        int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        W = w;
        replaying = 1; rep_choices = (int *)choices; rep_n = n;
        if (sc->setup) sc->setup();
        mc_verbose = 1;
        if (mc_fork_each) child_mode = 2;
        run_once(sc);
        _exit(0);
    }
    int st; double t0 = now(); int hung = 0;
    while (waitpid(p, &st, WNOHANG) == 0) {
        nap(1000);
        if (now() - t0 > tmo) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = 1; break; }
    }
    int ok = 0;
    if (hung) { snprintf(gotkey, gn, "hang"); ok = strcmp(key, "hang") == 0; }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        char k[200], m[1200];
        crash_kind(sc, 0, st, k, sizeof k, m, sizeof m);
        snprintf(gotkey, gn, "%s", k);
        ok = strcmp(key, k) == 0;
    }
    for (int i = 0; i < S->nviol; i++) {
        if (!gotkey[0]) snprintf(gotkey, gn, "%s", S->viol[i].key);
        if (strcmp(S->viol[i].key, key) == 0) { ok = 1; snprintf(gotkey, gn, "%s", key); }
    }
    S->nviol = save_nviol;
    memcpy(S->viol, save, sizeof(viol_t) * save_nviol);
    free(save);
    return ok;
}

int main(int argc, char **argv)
{
    const char *only = NULL, *out = NULL, *rep = NULL;
    int jobs = 8; double cap = 1e9; int list = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--scenario")) only = argv[++i];
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--thorough")) tier_thorough = 1;
        else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
        else if (!strcmp(argv[i], "--cap")) cap = atof(argv[++i]);
        else if (!strcmp(argv[i], "--workdir")) snprintf(workdir, sizeof workdir, "%s", argv[++i]);
        else if (!strcmp(argv[i], "--list")) list = 1;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if (jobs > MAXJOBS) jobs = MAXJOBS;
    if (list) {
        for (int i = 0; mc_scenarios[i].name; i++) printf("%s %d %s\n", mc_scenarios[i].name, mc_scenarios[i].tiers, mc_scenarios[i].desc ? mc_scenarios[i].desc : "");
        return 0;
    }
    if (rep) {
        for (scen_idx = 0; mc_scenarios[scen_idx].name; scen_idx++)
            if (!only || !strcmp(mc_scenarios[scen_idx].name, only)) break;
        const mc_scenario *sc = &mc_scenarios[scen_idx];
        if (!sc->name) { fprintf(stderr, "no scenario %s\n", only); return 2; }
        int *ch = calloc(MAXC, sizeof *ch); int n = 0;
        char *dup = strdup(rep);
        for (char *t = strtok(dup, ","); t && n < MAXC; t = strtok(NULL, ",")) ch[n++] = atoi(t);
        reset_shared();
        char got[200];
        replay(sc, ch, n, "", got, sizeof got, 300);
        printf("scenario %s, %d choices\n%s", sc->name, n, S->w[0].note);
        if (got[0]) { printf("RESULT violation %s\n", got); return 1; }
        printf("RESULT ok\n");
        return 0;
    }
    FILE *f = out ? fopen(out, "w") : stdout;
    if (!f) { perror(out); return 2; }
    fprintf(f, "[");
    int first = 1, worst = 0, hung = 0;
    for (scen_idx = 0; mc_scenarios[scen_idx].name; scen_idx++) {
        const mc_scenario *sc = &mc_scenarios[scen_idx];
        if (only && strcmp(only, sc->name)) continue;
        if (!only && !(sc->tiers & (tier_thorough ? 2 : 1))) continue;
        if (hung) break; /* a confirmed hang: the other scenarios would spend their time waiting for it, too */
        reset_shared();
        int capped, crashes; double t0 = now();
        explore(sc, jobs, cap, &capped, &crashes);
        double wall = now() - t0;
        fprintf(f, "%s{\"scenario\":", first ? "" : ",\n"); first = 0;
        jstr(f, sc->name);
        fprintf(f, ",\"desc\":"); jstr(f, sc->desc ? sc->desc : "");
        fprintf(f, ",\"executions\":%llu,\"transitions\":%llu,\"inner_evals\":%llu,\"conformance_traces\":%llu,\"states\":%llu,\"outcomes\":%llu,\"nontrivial_executions\":%llu,\"discarded\":%llu,\"max_choice_depth\":%d,\"capped\":%s,\"state_table_full\":%s,\"crashes\":%d,\"violations_seen\":%llu,\"wall_s\":%.2f,\"samples\":[",
                (unsigned long long)S->execs, (unsigned long long)S->steps, (unsigned long long)S->evals, (unsigned long long)S->conf,
                (unsigned long long)S->nstates, (unsigned long long)S->nouts, (unsigned long long)S->nontrivial_execs, (unsigned long long)S->discarded,
                S->maxdepth, capped ? "true" : "false", S->state_overflow ? "true" : "false", crashes, (unsigned long long)S->nviol_total, wall);
        int ns = S->nsamples < NSAMPLES ? S->nsamples : NSAMPLES;
        for (int i = 0; i < ns; i++) { if (i) fputc(',', f); jstr(f, S->samples[i]); }
        fprintf(f, "],\"violations\":[");
        int tmo = (sc->exec_timeout_s ? sc->exec_timeout_s : 30) * 2;
        for (int i = 0; i < S->nviol; i++) {
            viol_t *v = &S->viol[i];
            char g1[200] = "", g2[200] = "";
            int r1 = replay(sc, v->choices, v->n, v->key, g1, sizeof g1, tmo);
            int r2 = (strcmp(v->key, "hang") == 0) ? r1 : replay(sc, v->choices, v->n, v->key, g2, sizeof g2, tmo);
            if (r1 && strcmp(v->key, "hang") == 0) hung = 1;
            if (i) fputc(',', f);
            fprintf(f, "\n {\"key\":"); jstr(f, v->key);
            fprintf(f, ",\"msg\":"); jstr(f, v->msg);
            fprintf(f, ",\"replayed\":%s,\"replay_key\":", (r1 && r2) ? "true" : "false"); jstr(f, g1);
            fprintf(f, ",\"choices\":\"");
            for (int k = 0; k < v->n; k++) fprintf(f, "%s%d", k ? "," : "", v->choices[k]);
            fprintf(f, "\",\"trace\":"); jstr(f, S->w[0].note);
            fprintf(f, "}");
            worst = 1;
        }
        fprintf(f, "]}");
        fflush(f);
    }
    fprintf(f, "]\n");
    if (out) fclose(f);
    return worst;
}
