#define _GNU_SOURCE
#include "mcsched.h"
#include "mc.h"
#include "fault.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <elf.h>
#include <malloc.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <openssl/rand.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>

#define NT 8
typedef struct { uint32_t c[NT]; } vc_t;
enum { T_FREE, T_READY, T_BLOCKED, T_DONE };
typedef struct {
    int st, yielded, joined, detached, used;
    vc_t vc;
    sem_t sem;
    pthread_t real;
    void *(*fn)(void *); void *arg, *ret;
    int (*ready)(void *); void *rarg; const char *what;
    uint32_t born;
    int serial;
} thr_t;
static thr_t T[NT];
static int active;
static __thread int self_id;
static int started, yields;
int sched_create_may_fail, sched_report_races_only;
void (*sched_on_idle)(void);

static int self(void) { return self_id; }
int sched_self(void) { return self_id; }
int sched_threads_started(void) { return started; }

static void vc_join(vc_t *a, const vc_t *b) { for (int i = 0; i < NT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

/* ---------------- symbols ---------------- */
typedef struct { uint64_t a, n; const char *s; } sym_t;
static sym_t *syms; static int nsyms;
static int symcmp(const void *a, const void *b) { const sym_t *x = a, *y = b; return x->a < y->a ? -1 : x->a > y->a; }
static uint64_t load_base;
extern char __executable_start[];
static void load_syms(void)
{
    int fd = open("/proc/self/exe", O_RDONLY); struct stat st;
    if (fd < 0 || fstat(fd, &st)) return;
    char *m = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    if (m == MAP_FAILED) return;
    Elf64_Ehdr *e = (void *)m;
    load_base = e->e_type == ET_DYN ? (uint64_t)__executable_start : 0;
    Elf64_Shdr *sh = (void *)(m + e->e_shoff);
    for (int i = 0; i < e->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
        Elf64_Sym *y = (void *)(m + sh[i].sh_offset); int n = sh[i].sh_size / sizeof *y;
        const char *str = m + sh[sh[i].sh_link].sh_offset;
        syms = malloc(sizeof *syms * n);
        for (int k = 0; k < n; k++) if (ELF64_ST_TYPE(y[k].st_info) == STT_FUNC && y[k].st_size)
            syms[nsyms++] = (sym_t){ y[k].st_value, y[k].st_size, str + y[k].st_name };
        qsort(syms, nsyms, sizeof *syms, symcmp);
    }
}
static const char *fname(uint64_t pc)
{
    static char raw[32];
    pc -= load_base;
    int lo = 0, hi = nsyms;
    while (lo < hi) { int m = (lo + hi) / 2; if (syms[m].a <= pc) lo = m + 1; else hi = m; }
    if (lo > 0 && pc < syms[lo - 1].a + syms[lo - 1].n) return syms[lo - 1].s;
    snprintf(raw, sizeof raw, "0x%llx", (unsigned long long)pc);
    return raw;
}

/* ---------------- shadow memory ---------------- */
/* sites: a pc of instrumented code, or a name given by the harness */
typedef struct { uint32_t wclk; uint8_t wtid, freed; uint32_t rclk[NT]; uint64_t wsite, rsite[NT]; } sh_t;
typedef struct { uintptr_t page; sh_t *s; } pg_t;
#define NPG 16384
static pg_t pgs[NPG];
static sh_t *shadow(uintptr_t a, int create)
{
    uintptr_t pg = a >> 10; size_t i = (pg * 0x9E3779B97F4A7C15ull) >> 50;
    while (pgs[i].s) { if (pgs[i].page == pg) return &pgs[i].s[a & 1023]; i = (i + 1) % NPG; }
    if (!create) return NULL;
    pgs[i].page = pg;
    pgs[i].s = mmap(0, sizeof(sh_t) * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (pgs[i].s == MAP_FAILED) { fprintf(stderr, "shadow: out of memory\n"); _exit(3); }
    return &pgs[i].s[a & 1023];
}
int __real_strcmp(const char *, const char *);
#define NAMED (1ull << 63)
static const char *names[256]; static int nnames;
static uint64_t site_of(const char *who)
{
    for (int i = 0; i < nnames; i++) if (names[i] == who || !__real_strcmp(names[i], who)) return NAMED | i;
    if (nnames == 256) return NAMED | 255;
    names[nnames] = who; return NAMED | nnames++;
}
static const char *site_name(uint64_t s) { return s & NAMED ? names[s & 255] : fname(s); }

static void race(uint64_t s1, const char *k1, uint64_t s2, const char *k2, const void *p)
{
    char a[100], b[100], key[220];
    snprintf(a, sizeof a, "%s", site_name(s1)); snprintf(b, sizeof b, "%s", site_name(s2));
    if (__real_strcmp(a, b) > 0) { char t[100]; memcpy(t, a, 100); memcpy(a, b, 100); memcpy(b, t, 100); }
    snprintf(key, sizeof key, "race:%s/%s", a, b);
    const char *w = "", *x = "";
    static char l1[300], l2[300];
    if (mc_verbose) for (int i = 0; i < 2; i++) {
        uint64_t s = i ? s2 : s1; char *o = i ? l2 : l1, cmd[200]; o[0] = 0;
        if (s & NAMED) continue;
        char exe[200]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
        if (n <= 0) continue;
        exe[n] = 0;
        snprintf(cmd, sizeof cmd, "addr2line -s -e %s 0x%llx", exe, (unsigned long long)(s - load_base - 1));
        FILE *f = popen(cmd, "r"); if (f) { if (fgets(o, 300, f)) o[strcspn(o, "\n")] = 0; pclose(f); }
        w = l1; x = l2;
    }
    if (sched_report_races_only) mc_report(key, "unsynchronized %s by %s %s and %s by %s %s of the same memory", k1, site_name(s1), w, k2, site_name(s2), x);
    else mc_fail(key, "unsynchronized %s by %s %s and %s by %s %s of the same memory", k1, site_name(s1), w, k2, site_name(s2), x);
}

static void access_(uintptr_t a, size_t n, int write, uint64_t site)
{
    if (!active || started == 0) return;
    int me = self(); vc_t *v = &T[me].vc;
    for (size_t k = 0; k < n; k++) {
        sh_t *s = shadow(a + k, 1);
        if (s->freed) mc_fail("use-after-free", "%s %s memory freed earlier by %s", site_name(site), write ? "writes" : "reads", site_name(s->wsite));
        if (s->wclk && s->wtid != me && s->wclk > v->c[s->wtid]) { race(s->wsite, "write", site, write ? "write" : "read", (void *)a); s->wclk = 0; }
        if (write) {
            for (int t = 0; t < NT; t++) if (t != me && s->rclk[t] > v->c[t]) { race(s->rsite[t], "read", site, "write", (void *)a); s->rclk[t] = 0; }
            s->wclk = v->c[me]; s->wtid = me; s->wsite = site;
        } else { s->rclk[me] = v->c[me]; s->rsite[me] = site; }
    }
}
void sched_access(const void *p, size_t n, int write, const char *who) { access_((uintptr_t)p, n, write, site_of(who)); }
static void sched_freed_by(const void *p, size_t n, const char *who)
{
    if (!active) return;
    access_((uintptr_t)p, n, 1, site_of(who));
    for (size_t k = 0; k < n; k++) shadow((uintptr_t)p + k, 1)->freed = 1;
}
void sched_freed(const void *p, size_t n) { sched_freed_by(p, n, "free"); }

/* ---------------- synchronization objects ---------------- */
typedef struct { const void *p; vc_t vc; int owner, count, kind, inited, destroyed; int readers; } obj_t;
enum { O_ANY, O_MUTEX, O_RMUTEX, O_RW, O_COND, O_ONCE };
#define NO 512
static obj_t O[NO]; static int nO;
static obj_t *obj(const void *p)
{
    for (int i = 0; i < nO; i++) if (O[i].p == p && !O[i].destroyed) return &O[i];
    if (nO == NO) { fprintf(stderr, "sched: too many objects\n"); _exit(3); }
    O[nO] = (obj_t){ .p = p, .owner = -1 };
    return &O[nO++];
}
void sched_acquire(const void *p) { if (active) vc_join(&T[self()].vc, &obj(p)->vc); }
void sched_release(const void *p) { if (active) { int me = self(); vc_join(&obj(p)->vc, &T[me].vc); T[me].vc.c[me]++; } }

/* ---------------- scheduling ---------------- */
static int ready(int t) { return T[t].st == T_READY || (T[t].st == T_BLOCKED && T[t].ready(T[t].rarg)); }
static void wait_turn(int me) { while (sem_wait(&T[me].sem) && errno == EINTR) ; }
static void run(int t) { T[t].st = T_READY; sem_post(&T[t].sem); }

static void dead(void)
{
    char b[500]; int j = 0;
    for (int t = 0; t < NT; t++) if (T[t].st == T_BLOCKED || T[t].st == T_READY)
        j += snprintf(b + j, sizeof b - j, "thread %d waits for %s; ", t, T[t].what ? T[t].what : "?");
    mc_fail("deadlock", "no thread can run: %s", b);
}

/* the calling thread is `me` (it may be blocked or done); choose who runs next */
static void reschedule(int me, int yielding, const char *what)
{
    int cand[NT], n = 0;
    mc_step();
    T[me].yielded = yielding;
    if (yielding && ++yields > 400) mc_fail("livelock", "no progress after %d waits (%s)", yields, what);
    for (;;) {
        if (ready(me) && !yielding) cand[n++] = me;
        for (int t = 0; t < NT; t++) if (t != me && ready(t) && !T[t].yielded) cand[n++] = t;
        if (!yielding) for (int t = 0; t < NT; t++) if (t != me && ready(t) && T[t].yielded) cand[n++] = t;
        /* all others wait or sleep: the sleeping ones in turn, this one last */
        if (n == 0) for (int k = 1; k <= NT; k++) { int t = (me + k) % NT; if (ready(t)) { cand[n++] = t; break; } }
        if (n) break;
        int any = 0; for (int t = 0; t < NT; t++) any |= T[t].st == T_BLOCKED || T[t].st == T_READY;
        if (!any) return;
        if (sched_on_idle) { sched_on_idle(); int r = 0; for (int t = 0; t < NT; t++) r |= ready(t); if (r) continue; }
        dead();
    }
    int c = 0;
    if (n > 1) c = (ready(me) && !yielding) ? mc_choose_dev(n) : mc_choose(n);
    int t = cand[c];
    T[t].yielded = 0;
    if (t == me) { T[me].st = T_READY; return; }
    MC_NOTE("  [%s: thread %d -> %d]", what, T[me].serial, T[t].serial);
    int done = T[me].st == T_DONE;
    run(t);
    if (!done) wait_turn(me);
}
__thread int sched_mute;
void sched_point(const char *what) { if (!active || sched_mute) return; if (started) { T[self()].what = what; reschedule(self(), 0, what); } }
void sched_yield_point(const char *what) { if (!active) return; T[self()].what = what; reschedule(self(), 1, what); }
void sched_block(int (*rd)(void *), void *arg, const char *what)
{
    if (!active) { if (!rd(arg)) mc_fail("deadlock", "the only thread waits for %s", what); return; }
    int me = self();
    while (!rd(arg)) { T[me].st = T_BLOCKED; T[me].ready = rd; T[me].rarg = arg; T[me].what = what; reschedule(me, 0, what); }
    T[me].st = T_READY;
}

/* what happened to these addresses before concerns another block */
static void forget(void *p, size_t n) { for (size_t k = 0; k < n; k++) { sh_t *s = shadow((uintptr_t)p + k, 0); if (s) memset(s, 0, sizeof *s); } }
static void on_alloc(void *p, size_t n) { if (active) forget(p, n); }
static int on_free(void *p, size_t n)
{
    if (!active) return n != (size_t)-1;
    if (n == (size_t)-1) {
        sh_t *s = shadow((uintptr_t)p, 0);
        if (s && s->freed) mc_fail("double-free", "memory is freed twice");
        /* a block made before the exploration or by another library: it goes back to the allocator */
        size_t u = malloc_usable_size(p); access_((uintptr_t)p, u, 1, site_of("free")); forget(p, u);
        return 0;
    }
    sched_freed_by(p, n, "free");
    return 1;
}
void sched_setup(void)
{
    fault_on_free = on_free; fault_on_alloc = on_alloc;
    mc_fork_each = 1;
    load_syms();
    /* one-time initializations of libc and libcrypto are not what is explored (and cost much in every child) */
    mallopt(M_ARENA_MAX, 1);
    unsigned char d[64]; unsigned n; EVP_Digest("x", 1, d, &n, EVP_sha256(), NULL); SHA256((unsigned char *)"x", 1, d); RAND_bytes(d, 8);
}
void sched_begin(void)
{
    memset(T, 0, sizeof T);
    self_id = 0; T[0].st = T_READY; T[0].used = 1; T[0].vc.c[0] = 1; sem_init(&T[0].sem, 0, 0);
    active = 1; started = 0; yields = 0;
    fault_track(1);
}
int sched_unjoined(void)
{
    int n = 0;
    for (int t = 1; t < NT; t++) if (T[t].used && !T[t].joined && !T[t].detached) n++;
    return n;
}
int sched_live_mutexes(void) { int n = 0; for (int i = 0; i < nO; i++) n += O[i].inited && !O[i].destroyed; return n; }
void sched_end(void)
{
    if (sched_unjoined()) mc_fail("thread-leak", "%d of %d threads were not joined", sched_unjoined(), started);
    for (int i = 0; i < nO; i++) if ((O[i].kind == O_MUTEX || O[i].kind == O_RMUTEX) && O[i].owner >= 0)
        mc_fail("mutex-held", "a mutex is still locked at the end");
    active = 0;
}

/* ---------------- threads ---------------- */
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
static void *tramp(void *a)
{
    int me = (int)(intptr_t)a;
    self_id = me;
    wait_turn(me);
    T[me].ret = T[me].fn(T[me].arg);
    T[me].vc.c[me]++;
    T[me].st = T_DONE;
    reschedule(me, 0, "thread end");
    return NULL;
}
int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    if (!active) return EAGAIN;
    int me = self();
    started++;              /* accesses count from here on */
    sched_point("pthread_create");
    if (sched_create_may_fail && mc_choose_dev(2)) { MC_NOTE("  thread creation fails"); return EAGAIN; }
    int t; for (t = 1; t < NT && T[t].used && !((T[t].joined || T[t].detached) && T[t].st == T_DONE); t++) ;
    if (t == NT) { fprintf(stderr, "sched: too many threads\n"); _exit(3); }
    vc_t old = T[t].vc;
    memset(&T[t], 0, sizeof T[t]);
    T[t].vc = T[me].vc; T[t].vc.c[t] = old.c[t] + 1;
    T[me].vc.c[me]++;
    T[t].fn = fn; T[t].arg = arg; T[t].used = 1; T[t].serial = started; T[t].born = started;
    int det = 0; if (at) { pthread_attr_getdetachstate(at, &det); }
    T[t].detached = det == PTHREAD_CREATE_DETACHED;
    sem_init(&T[t].sem, 0, 0);
    pthread_attr_t ra; pthread_attr_init(&ra);
    size_t ss = 1 << 20; void *st = mmap(0, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_setstack(&ra, st, ss);
    if (__real_pthread_create(&T[t].real, &ra, tramp, (void *)(intptr_t)t)) { fprintf(stderr, "sched: pthread_create failed\n"); _exit(3); }
    T[t].st = T_READY;
    access_((uintptr_t)out, sizeof *out, 1, site_of("pthread_create"));
    *out = T[t].real;
    MC_NOTE("  thread %d created", T[t].serial);
    return 0;
}
static int t_done(void *p) { return ((thr_t *)p)->st == T_DONE; }
int __wrap_pthread_join(pthread_t th, void **ret)
{
    if (!active) return ESRCH;
    int me = self(), t;
    sched_point("pthread_join");
    int best = -1;
    for (t = 1; t < NT; t++) if (T[t].used && pthread_equal(T[t].real, th) && (best < 0 || !T[t].joined)) best = t;
    t = best;
    if (t < 0) mc_fail("join-unknown", "pthread_join of something that is no thread");
    if (T[t].joined || T[t].detached) mc_fail("join-twice", "pthread_join of a thread that was joined or detached already");
    if (t == me) mc_fail("deadlock:self-join", "a thread joins itself");
    sched_block(t_done, &T[t], "pthread_join");
    vc_join(&T[me].vc, &T[t].vc);
    T[t].joined = 1;
    if (ret) *ret = T[t].ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t th)
{
    for (int t = 1; t < NT; t++) if (T[t].used && pthread_equal(T[t].real, th)) T[t].detached = 1;
    return 0;
}
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) { return active && self_id ? T[self_id].real : __real_pthread_self(); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }

/* ---------------- mutexes ---------------- */
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    if (!active) return 0;
    obj_t *o = obj(m);
    if (o->inited) mc_fail("mutex-reinit", "a live mutex is initialized again");
    access_((uintptr_t)m, sizeof *m, 1, site_of("pthread_mutex_init"));
    int ty = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &ty);
    o->kind = ty == PTHREAD_MUTEX_RECURSIVE ? O_RMUTEX : O_MUTEX; o->inited = 1;
    memset(m, 0, sizeof *m);
    return 0;
}
static int m_free(void *p) { return ((obj_t *)p)->owner < 0 && ((obj_t *)p)->readers == 0; }
static int m_lock(pthread_mutex_t *m, int try)
{
    if (!active) return 0;
    sched_point(try ? "pthread_mutex_trylock" : "pthread_mutex_lock");
    access_((uintptr_t)m, 1, 0, site_of("pthread_mutex_lock"));
    obj_t *o = obj(m); int me = self();
    if (o->kind == O_ANY) o->kind = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP ? O_RMUTEX : O_MUTEX;
    if (o->owner == me) {
        if (o->kind == O_RMUTEX) { o->count++; return 0; }
        if (try) return EBUSY;
        mc_fail("deadlock:relock", "a thread locks a mutex it already holds");
    }
    if (try && !m_free(o)) return EBUSY;
    sched_block(m_free, o, "a mutex");
    o->owner = me; o->count = 1;
    vc_join(&T[me].vc, &o->vc);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return m_lock(m, 0); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return m_lock(m, 1); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!active) return 0;
    access_((uintptr_t)m, 1, 0, site_of("pthread_mutex_unlock"));
    obj_t *o = obj(m); int me = self();
    if (o->owner != me) mc_fail("unlock-not-owner", "a thread unlocks a mutex it does not hold");
    if (--o->count) return 0;
    o->owner = -1;
    vc_join(&o->vc, &T[me].vc); T[me].vc.c[me]++;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (!active) return 0;
    access_((uintptr_t)m, sizeof *m, 1, site_of("pthread_mutex_destroy"));
    obj_t *o = obj(m);
    if (o->owner >= 0) mc_fail("mutex-destroy-locked", "a locked mutex is destroyed");
    for (int t = 0; t < NT; t++) if (T[t].st == T_BLOCKED && T[t].rarg == o) mc_fail("mutex-destroy-waited", "a mutex is destroyed while a thread waits for it");
    o->destroyed = 1;
    return 0;
}
/* condition variables: signal wakes one waiter (chosen), wait may not wake spuriously */
typedef struct { obj_t *c; int woken; } cw_t;
static struct { pthread_cond_t *c; int *woken; } cq[64]; static int ncq;
static int c_ready(void *p) { return *(int *)p; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!active) mc_fail("deadlock", "waiting on a condition with a single thread");
    int woken = 0;
    cq[ncq].c = c; cq[ncq].woken = &woken; ncq++;
    __wrap_pthread_mutex_unlock(m);
    sched_block(c_ready, &woken, "a condition");
    vc_join(&T[self()].vc, &obj(c)->vc);
    return m_lock(m, 0);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    (void)ts; __wrap_pthread_mutex_unlock(m); sched_yield_point("pthread_cond_timedwait"); m_lock(m, 0); return ETIMEDOUT;
}
static void c_wake(pthread_cond_t *c, int all)
{
    sched_point("pthread_cond_signal"); sched_release(c);
    int idx[64], n = 0;
    for (int i = 0; i < ncq; i++) if (cq[i].c == c) idx[n++] = i;
    if (!n) return;
    if (!all) { int k = n > 1 ? mc_choose(n) : 0; idx[0] = idx[k]; n = 1; }
    for (int i = n - 1; i >= 0; i--) { *cq[idx[i]].woken = 1; memmove(&cq[idx[i]], &cq[idx[i] + 1], sizeof cq[0] * (--ncq - idx[i])); }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (active) c_wake(c, 0); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (active) c_wake(c, 1); return 0; }
/* read-write locks */
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const void *a) { (void)a; memset(m, 0, sizeof *m); if (active) { obj(m)->kind = O_RW; obj(m)->inited = 1; } return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { if (active) { access_((uintptr_t)m, sizeof *m, 1, site_of("pthread_rwlock_destroy")); obj(m)->destroyed = 1; } return 0; }
static int r_free(void *p) { return ((obj_t *)p)->owner < 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!active) return 0;
    sched_point("pthread_rwlock_rdlock"); obj_t *o = obj(m);
    if (o->owner == self()) mc_fail("deadlock:relock", "a thread read-locks a lock it holds for writing");
    sched_block(r_free, o, "a read lock"); o->readers++; vc_join(&T[self()].vc, &o->vc); return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!active) return 0;
    sched_point("pthread_rwlock_wrlock"); obj_t *o = obj(m);
    if (o->owner == self()) mc_fail("deadlock:relock", "a thread write-locks a lock it holds");
    sched_block(m_free, o, "a write lock"); o->owner = self(); vc_join(&T[self()].vc, &o->vc); return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (!active) return 0;
    obj_t *o = obj(m); int me = self();
    if (o->owner == me) o->owner = -1; else if (o->readers > 0) o->readers--; else mc_fail("unlock-not-owner", "unlock of a lock that is not held");
    vc_join(&o->vc, &T[me].vc); T[me].vc.c[me]++; return 0;
}
int __wrap_pthread_spin_init(pthread_spinlock_t *s, int p) { (void)p; (void)s; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *s) { (void)s; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *s)
{
    if (!active) return 0;
    sched_point("pthread_spin_lock"); obj_t *o = obj((void *)s);
    if (o->owner == self()) mc_fail("deadlock:relock", "a thread locks a spin lock it holds");
    sched_block(m_free, o, "a spin lock"); o->owner = self(); vc_join(&T[self()].vc, &o->vc); return 0;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t *s)
{
    if (!active) return 0;
    obj_t *o = obj((void *)s); int me = self(); o->owner = -1; vc_join(&o->vc, &T[me].vc); T[me].vc.c[me]++; return 0;
}
static int once_done(void *p) { return ((obj_t *)p)->count == 2; }
int __wrap_pthread_once(pthread_once_t *k, void (*fn)(void))
{
    if (!active) { static pthread_once_t *done[64]; static int nd; for (int i = 0; i < nd; i++) if (done[i] == k) return 0; done[nd++] = k; fn(); return 0; }
    sched_point("pthread_once"); obj_t *o = obj(k);
    if (o->count == 0) { o->count = 1; fn(); o->count = 2; sched_release(k); return 0; }
    sched_block(once_done, o, "pthread_once"); sched_acquire(k); return 0;
}
/* sleeping is a yield */
int __wrap_usleep(unsigned us) { (void)us; if (active) sched_yield_point("usleep"); return 0; }
unsigned __wrap_sleep(unsigned s) { (void)s; if (active) sched_yield_point("sleep"); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; if (active) sched_yield_point("nanosleep"); return 0; }
int __wrap_sched_yield(void) { if (active) sched_yield_point("sched_yield"); return 0; }

/* ---------------- uninstrumented libc on shared memory ---------------- */
#define RD(p, n, w) access_((uintptr_t)(p), (n), 0, site_of(w))
#define WR(p, n, w) access_((uintptr_t)(p), (n), 1, site_of(w))
size_t __real_strlen(const char *); int __real_strcmp(const char *, const char *); int __real_strncmp(const char *, const char *, size_t);
char *__real_strcpy(char *, const char *); char *__real_strncpy(char *, const char *, size_t); char *__real_strcat(char *, const char *);
char *__real_strchr(const char *, int); char *__real_strrchr(const char *, int); char *__real_strstr(const char *, const char *);
int __real_memcmp(const void *, const void *, size_t);
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (active) RD(s, n + 1, "strlen"); return n; }
int __wrap_strcmp(const char *a, const char *b) { if (active) { RD(a, __real_strlen(a) + 1, "strcmp"); RD(b, __real_strlen(b) + 1, "strcmp"); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { if (active) { size_t x = strnlen(a, n), y = strnlen(b, n); RD(a, x < n ? x + 1 : n, "strncmp"); RD(b, y < n ? y + 1 : n, "strncmp"); } return __real_strncmp(a, b, n); }
char *__wrap_strcpy(char *d, const char *s) { if (active) { size_t n = __real_strlen(s) + 1; RD(s, n, "strcpy"); WR(d, n, "strcpy"); } return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { if (active) { size_t x = strnlen(s, n); RD(s, x < n ? x + 1 : n, "strncpy"); WR(d, n, "strncpy"); } return __real_strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { if (active) { size_t n = __real_strlen(s) + 1, m = __real_strlen(d); RD(s, n, "strcat"); RD(d, m, "strcat"); WR(d + m, n, "strcat"); } return __real_strcat(d, s); }
char *__wrap_strchr(const char *s, int c) { if (active) RD(s, __real_strlen(s) + 1, "strchr"); return __real_strchr(s, c); }
char *__wrap_strrchr(const char *s, int c) { if (active) RD(s, __real_strlen(s) + 1, "strrchr"); return __real_strrchr(s, c); }
char *__wrap_strstr(const char *a, const char *b) { if (active) RD(a, __real_strlen(a) + 1, "strstr"); return __real_strstr(a, b); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (active) { RD(a, n, "memcmp"); RD(b, n, "memcmp"); } return __real_memcmp(a, b, n); }

/* ---------------- the instrumentation's callbacks ---------------- */
#define PC ((uint64_t)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define ACC(n) \
    void __tsan_read##n(void *a) { access_((uintptr_t)a, n, 0, PC); } \
    void __tsan_write##n(void *a) { access_((uintptr_t)a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void *a) { access_((uintptr_t)a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void *a) { access_((uintptr_t)a, n, 1, PC); } \
    void __tsan_read_write##n(void *a) { access_((uintptr_t)a, n, 1, PC); } \
    void __tsan_unaligned_read_write##n(void *a) { access_((uintptr_t)a, n, 1, PC); } \
    void __tsan_volatile_read##n(void *a) { access_((uintptr_t)a, n, 0, PC); } \
    void __tsan_volatile_write##n(void *a) { access_((uintptr_t)a, n, 1, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, size_t n) { access_((uintptr_t)a, n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { access_((uintptr_t)a, n, 1, PC); }
void __tsan_vptr_update(void **a, void *b) { (void)b; access_((uintptr_t)a, 8, 1, PC); }
void __tsan_vptr_read(void **a) { access_((uintptr_t)a, 8, 0, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, 0, PC); access_((uintptr_t)d, n, 1, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, 0, PC); access_((uintptr_t)d, n, 1, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_((uintptr_t)d, n, 1, PC); return memset(d, c, n); }

/* atomics: scheduling points with sequentially consistent order; freed memory is still checked */
static void at(const void *a, size_t n)
{
    if (!active || !started) return;
    sched_point("atomic");
    for (size_t k = 0; k < n; k++) { sh_t *s = shadow((uintptr_t)a + k, 0); if (s && s->freed) mc_fail("use-after-free", "atomic access to freed memory"); }
    /* a non-atomic access elsewhere still races with it */
    int me = self(); vc_t *v = &T[me].vc;
    sched_acquire(a);
    for (size_t k = 0; k < n; k++) { sh_t *s = shadow((uintptr_t)a + k, 0);
        if (s && s->wclk && s->wtid != me && s->wclk > v->c[s->wtid]) race(s->wsite, "write", site_of("atomic"), "atomic access", a); }
    sched_release(a);
}
#define ATOM(b, ty) \
    ty __tsan_atomic##b##_load(const volatile ty *a, int o) { (void)o; at((void *)a, sizeof *a); return *a; } \
    void __tsan_atomic##b##_store(volatile ty *a, ty v, int o) { (void)o; at((void *)a, sizeof *a); *a = v; } \
    ty __tsan_atomic##b##_exchange(volatile ty *a, ty v, int o) { (void)o; at((void *)a, sizeof *a); ty x = *a; *a = v; return x; } \
    ty __tsan_atomic##b##_fetch_add(volatile ty *a, ty v, int o) { (void)o; at((void *)a, sizeof *a); ty x = *a; *a = x + v; return x; } \
    ty __tsan_atomic##b##_fetch_sub(volatile ty *a, ty v, int o) { (void)o; at((void *)a, sizeof *a); ty x = *a; *a = x - v; return x; } \
    ty __tsan_atomic##b##_fetch_and(volatile ty *a, ty v, int o) { (void)o; at((void *)a, sizeof *a); ty x = *a; *a = x & v; return x; } \
    ty __tsan_atomic##b##_fetch_or(volatile ty *a, ty v, int o) { (void)o; at((void *)a, sizeof *a); ty x = *a; *a = x | v; return x; } \
    ty __tsan_atomic##b##_fetch_xor(volatile ty *a, ty v, int o) { (void)o; at((void *)a, sizeof *a); ty x = *a; *a = x ^ v; return x; } \
    ty __tsan_atomic##b##_fetch_nand(volatile ty *a, ty v, int o) { (void)o; at((void *)a, sizeof *a); ty x = *a; *a = ~(x & v); return x; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int o, int f) { (void)o; (void)f; at((void *)a, sizeof *a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, o, f); } \
    ty __tsan_atomic##b##_compare_exchange_val(volatile ty *a, ty e, ty v, int o, int f) { (void)o; (void)f; at((void *)a, sizeof *a); ty x = *a; if (x == e) *a = v; return x; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }
