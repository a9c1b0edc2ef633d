#define _GNU_SOURCE
#include "mocklws.h"
#include "mc.h"
#ifdef BUILD_SCHED
#include "mcsched.h"
#endif
#include <libwebsockets.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
struct mock_cfg mk; mock_conn mock_last; int mock_write_failures, mock_slow_joins;

/* ---------------- objects ---------------- */
enum { W_CONNECTING, W_OPEN, W_DEAD };
enum { E_EST, E_ERR, E_CLOSED, E_RX, E_NOISE };
typedef struct { int kind, first, final; char *p; size_t n; } ev_t;
#define NEV 20000
struct mwsi { uint32_t magic; int st, in_rx, first, final, want_write; size_t remaining; void *opaque, *user; struct mctx *ctx; const struct lws_protocols *prot; };
struct mctx { uint32_t magic; int dead, cancelled, servicing; long by; const struct lws_protocols *prot; void *user; ev_t *ev; int h, t; struct mwsi *wsi; };
#define NOBJ 64
static struct mctx *ctxs[NOBJ]; static int nctx; static struct mwsi *wsis[NOBJ]; static int nwsi;
static struct { char *s; int text; } sent[256]; static int nsent;
int mock_sent_n(void) { return nsent; }
const char *mock_sent(int i) { return sent[i].s; }
int mock_sent_text(int i) { return sent[i].text; }

/* ---------------- threads ---------------- */
#ifdef BUILD_SCHED
void mock_fail(const char *key, const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); mc_fail(key, "%s", b); }
int mock_on_service(void) { return sched_self() != 0; }
static long tid(void) { return sched_self(); }
static int ctx_ready(void *p) { struct mctx *c = p; return c->cancelled || c->h < c->t || c->dead; }
static int idle(void *p) { (void)p; return !mock_pending(); }
static void ctx_wait(struct mctx *c) { sched_point("lws_service"); sched_block(ctx_ready, c, "network events"); }
void mock_pump(void) { sched_block(idle, NULL, "the network to settle"); }
#define ACQ(o) sched_acquire(o)
#define REL(o) sched_release(o)
#else
#define ACQ(o) ((void)0)
#define REL(o) ((void)0)
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_destroy(pthread_mutex_t *);
#define NTH 32
static struct thr { int used, done, joined, die, timeout; pthread_t id; sem_t sem; void *(*fn)(void *); void *arg; struct mctx *in; } th[NTH]; static int nth;
static sem_t main_sem; static __thread struct thr *me; static int sem_ready; static long live_mutexes;
static char bad_key[100], bad_msg[600]; static int bad;
int mock_on_service(void) { return me != NULL; }
static long tid(void) { return me ? 1 + (me - th) : 0; }
static void park(void) { sem_post(&main_sem); while (sem_wait(&me->sem) && errno == EINTR) ; if (me->die) pthread_exit(NULL); }
void mock_fail(const char *key, const char *fmt, ...)
{
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!me) mc_fail(key, "%s", b);
    if (!bad) { bad = 1; snprintf(bad_key, sizeof bad_key, "%s", key); memcpy(bad_msg, b, sizeof b); }
    for (;;) park();
}
static void hand(struct thr *t) { t->timeout = 0; sem_post(&t->sem); while (sem_wait(&main_sem) && errno == EINTR) ; if (bad) mc_fail(bad_key, "%s", bad_msg); }
void mock_pump(void) { for (int i = 0; i < nth; i++) if (!th[i].done && !th[i].joined) hand(&th[i]); }
static void ctx_wait(struct mctx *c)
{
    if (!me) mock_fail("service-thread", "lws_service called by the application's thread");
    me->in = c;
    while (!c->dead && !c->cancelled && c->h == c->t) { park(); if (me->timeout) { me->timeout = 0; return; } }
}
static void *tramp(void *a) { me = a; while (sem_wait(&me->sem) && errno == EINTR) ; if (me->die) return NULL; me->fn(me->arg); me->done = 1; sem_post(&main_sem); return NULL; }
int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    (void)at; if (mk.fail_thread) { MC_NOTE("thread creation fails"); return EAGAIN; }
    if (nth == NTH) mock_fail("threads", "more than %d threads", NTH);
    struct thr *t = &th[nth++]; memset(t, 0, sizeof *t); t->used = 1; t->fn = fn; t->arg = arg; sem_init(&t->sem, 0, 0);
    pthread_attr_t ra; pthread_attr_init(&ra); pthread_attr_setstacksize(&ra, 512 * 1024);
    if (__real_pthread_create(&t->id, &ra, tramp, t)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
    pthread_attr_destroy(&ra); *out = t->id; return 0;
}
int __wrap_pthread_join(pthread_t id, void **ret)
{
    struct thr *t = NULL; for (int i = 0; i < nth; i++) if (!th[i].joined && pthread_equal(th[i].id, id)) t = &th[i];
    if (!t) mock_fail("join-unknown", "pthread_join of something that is no live thread");
    if (t == me) mock_fail("self-join", "the service thread joins itself");
    if (me) mock_fail("join-on-service", "a service thread waits for another");
    for (int k = 0; !t->done; k++) {
        struct mctx *c = t->in; if (c && !c->dead && !c->cancelled && c->h == c->t) { mock_slow_joins++; }
        if (k == 4) mock_fail("join-hangs", "the service thread does not end");
        t->timeout = 0; sem_post(&t->sem); while (sem_wait(&main_sem) && errno == EINTR) ;
        if (bad) mc_fail(bad_key, "%s", bad_msg);
        if (!t->done) { t->timeout = 1; sem_post(&t->sem); while (sem_wait(&main_sem) && errno == EINTR) ; if (bad) mc_fail(bad_key, "%s", bad_msg); }
    }
    __real_pthread_join(id, ret); t->joined = 1; sem_destroy(&t->sem); return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (mk.fail_mutex && --mk.fail_mutex == 0) { MC_NOTE("mutex creation fails"); return ENOMEM; } live_mutexes++; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { live_mutexes--; return __real_pthread_mutex_destroy(m); }
#endif

void mock_reset(void)
{
    memset(&mk, 0, sizeof mk); memset(&mock_last, 0, sizeof mock_last); mock_write_failures = mock_slow_joins = 0;
#ifndef BUILD_SCHED
    for (int i = 0; i < nth; i++) if (!th[i].joined) { th[i].die = 1; if (!th[i].done) sem_post(&th[i].sem); __real_pthread_join(th[i].id, NULL); sem_destroy(&th[i].sem); }
    nth = 0; bad = 0; live_mutexes = 0; if (sem_ready) sem_destroy(&main_sem); sem_init(&main_sem, 0, 0); sem_ready = 1;
#endif
    for (int i = 0; i < nctx; i++) { for (int k = ctxs[i]->h; k < ctxs[i]->t; k++) __real_free(ctxs[i]->ev[k].p); __real_free(ctxs[i]->ev); __real_free(ctxs[i]); }
    for (int i = 0; i < nwsi; i++) { __real_free(wsis[i]->user); __real_free(wsis[i]); }
    for (int i = 0; i < nsent; i++) __real_free(sent[i].s);
    nctx = nwsi = nsent = 0;
}
int mock_contexts_live(void) { int n = 0; for (int i = 0; i < nctx; i++) n += !ctxs[i]->dead; return n; }
int mock_wsi_live(void) { int n = 0; for (int i = 0; i < nwsi; i++) n += wsis[i]->st != W_DEAD; return n; }
int mock_wsi_established(void) { int n = 0; for (int i = 0; i < nwsi; i++) n += wsis[i]->st == W_OPEN; return n; }
void mock_end(void)
{
    if (mock_contexts_live()) mock_fail("context-leak", "%d lws contexts are left", mock_contexts_live());
#ifndef BUILD_SCHED
    for (int i = 0; i < nth; i++) if (!th[i].joined) mock_fail("thread-leak", "a service thread was not joined");
    if (live_mutexes) mock_fail("mutex-leak", "%ld mutexes %s", live_mutexes, live_mutexes > 0 ? "are left" : "too many destroyed");
#else
    if (sched_live_mutexes()) mock_fail("mutex-leak", "%d mutexes are left", sched_live_mutexes());
#endif
}

/* ---------------- the network ---------------- */
static struct mctx *newest(void) { for (int i = nwsi; i--; ) if (wsis[i]->st != W_DEAD) return wsis[i]->ctx; return NULL; }
static void push(int kind, const void *p, size_t n, int first, int final)
{
    struct mctx *c = newest(); if (!c) return;
    if (c->t == NEV) { fprintf(stderr, "mock: too many events\n"); _exit(3); }
    char *q = NULL; if (kind == E_RX) { q = __real_malloc(n ? n : 1); memcpy(q, p, n); }
    c->ev[c->t++] = (ev_t){ kind, first, final, q, n };
}
void mock_established(void) { push(E_EST, NULL, 0, 0, 0); }
void mock_error(void) { push(E_ERR, NULL, 0, 0, 0); }
void mock_closed(void) { push(E_CLOSED, NULL, 0, 0, 0); }
void mock_noise(void) { push(E_NOISE, NULL, 0, 0, 0); }
void mock_rx(const void *p, size_t n, int first, int final) { push(E_RX, p, n, first, final); }
int mock_pending(void) { int n = 0; for (int i = 0; i < nctx; i++) if (!ctxs[i]->dead) n += ctxs[i]->t - ctxs[i]->h + ctxs[i]->servicing; return n; }

#define MW 0x15a1u
#define MC 0xc0c0u
static struct mctx *C(struct lws_context *p, const char *who) { struct mctx *c = (void *)p; if (!c || c->magic != MC) mock_fail("bad-context", "%s of something that is no context", who); if (c->dead) mock_fail("dead-context", "%s of a destroyed context", who); return c; }
static struct mwsi *Wx(struct lws *p, const char *who) { struct mwsi *w = (void *)p; if (!w || w->magic != MW) mock_fail("bad-wsi", "%s of something that is no connection", who); if (w->st == W_DEAD) mock_fail("dead-wsi", "%s of a connection that lws has freed", who); return w; }
static int call(struct mwsi *w, enum lws_callback_reasons r, void *in, size_t len) { ACQ(w->ctx); int x = w->prot->callback((struct lws *)w, r, w->user, in, len); REL(w->ctx); return x; }
/* poll-set bookkeeping: lws announces it with any change */
static void polls(struct mwsi *w) { struct lws_pollargs pa; memset(&pa, 0, sizeof pa); call(w, LWS_CALLBACK_LOCK_POLL, &pa, 0); call(w, LWS_CALLBACK_CHANGE_MODE_POLL_FD, &pa, 0); call(w, LWS_CALLBACK_UNLOCK_POLL, &pa, 0); }
static struct mwsi *wsi_new(struct mctx *c) { if (nwsi == NOBJ) mock_fail("connections", "too many connections"); struct mwsi *w = __real_calloc(1, sizeof *w); w->magic = MW; w->ctx = c; w->prot = c->prot; wsis[nwsi++] = w; if (c->prot->per_session_data_size) w->user = __real_calloc(1, c->prot->per_session_data_size); return w; }
static void wsi_end(struct mwsi *w, int error)
{
    int was = w->st;
    if (was == W_CONNECTING && error) call(w, LWS_CALLBACK_CLIENT_CONNECTION_ERROR, "refused", 7);
    if (was == W_OPEN) { call(w, LWS_CALLBACK_WS_CLIENT_DROP_PROTOCOL, NULL, 0); polls(w); call(w, LWS_CALLBACK_CLIENT_CLOSED, NULL, 0); }
    else { call(w, LWS_CALLBACK_CLIENT_HTTP_DROP_PROTOCOL, NULL, 0); if (!error) call(w, LWS_CALLBACK_CLOSED_CLIENT_HTTP, NULL, 0); }
    polls(w); call(w, LWS_CALLBACK_WSI_DESTROY, NULL, 0);
    w->st = W_DEAD; if (w->ctx->wsi == w) w->ctx->wsi = NULL;
#ifdef BUILD_SCHED
    if (w->user) sched_freed(w->user, 1);
#endif
}
struct lws_context *__wrap_lws_create_context(const struct lws_context_creation_info *i)
{
    if (!i->protocols || !i->protocols[0].callback) mock_fail("no-protocols", "a context without protocols");
    if (mk.fail_context) { MC_NOTE("no context"); return NULL; }
    if (nctx == NOBJ) mock_fail("contexts", "too many contexts");
    struct mctx *c = __real_calloc(1, sizeof *c); c->magic = MC; c->prot = i->protocols; c->user = i->user; c->ev = __real_calloc(NEV, sizeof *c->ev); ctxs[nctx++] = c;
    struct mwsi fake = { .magic = MW, .ctx = c, .prot = c->prot }; char u[64] = { 0 }; fake.user = u;
    call(&fake, LWS_CALLBACK_OPENSSL_LOAD_EXTRA_CLIENT_VERIFY_CERTS, NULL, 0); call(&fake, LWS_CALLBACK_PROTOCOL_INIT, NULL, 0);
    return (struct lws_context *)c;
}
void __wrap_lws_context_destroy(struct lws_context *p)
{
    if (!p) return;
    struct mctx *c = C(p, "lws_context_destroy");
    if (c->servicing) mock_fail("destroy-in-service", "a context is destroyed while %s", c->by == tid() ? "one of its callbacks runs" : "its service thread is inside lws_service");
    if (c->wsi) wsi_end(c->wsi, 0);
    struct mwsi fake = { .magic = MW, .ctx = c, .prot = c->prot }; call(&fake, LWS_CALLBACK_PROTOCOL_DESTROY, NULL, 0);
    c->dead = 1;
#ifndef BUILD_SCHED
    for (int i = 0; i < nth; i++) if (!th[i].done && !th[i].joined && th[i].in == c) mock_fail("destroy-in-service", "a context is destroyed while its service thread is inside lws_service");
#endif
}
static void cpy(char *d, const char *s) { snprintf(d, 300, "%s", s ? s : ""); }
struct lws *__wrap_lws_client_connect_via_info(const struct lws_client_connect_info *i)
{
    struct mctx *c = C(i->context, "lws_client_connect_via_info");
    mock_last.n++; cpy(mock_last.address, i->address); cpy(mock_last.host, i->host); cpy(mock_last.origin, i->origin); cpy(mock_last.path, i->path); snprintf(mock_last.protocol, 64, "%s", i->protocol ? i->protocol : ""); mock_last.port = i->port; mock_last.ssl = i->ssl_connection;
    struct mwsi *w = wsi_new(c); w->opaque = i->opaque_user_data; if (i->userdata) { __real_free(w->user); w->user = NULL; }
    call(w, LWS_CALLBACK_CLIENT_HTTP_BIND_PROTOCOL, NULL, 0); polls(w); call(w, LWS_CALLBACK_PROTOCOL_INIT, NULL, 0); polls(w); 
    if (mk.connect != MK_OK) { MC_NOTE("lws refuses the attempt%s", mk.connect == MK_NULL_CB ? " after a connection error callback" : ""); if (mk.connect == MK_NULL_CB) wsi_end(w, 1); w->st = W_DEAD; if (i->pwsi) *i->pwsi = NULL; return NULL; }
    if (c->wsi) mock_fail("two-connections", "two connections on one context");
    c->wsi = w; if (i->pwsi) *i->pwsi = (struct lws *)w;
    return (struct lws *)w;
}
int __wrap_lws_service(struct lws_context *p, int t)
{
    (void)t; struct mctx *c = C(p, "lws_service");
    if (c->servicing) mock_fail("service-twice", "lws_service entered %s", c->by == tid() ? "from a callback" : "by two threads");
    ctx_wait(c);
    if (c->dead) mock_fail("destroy-in-service", "a context is destroyed while its service thread is inside lws_service");
    c->servicing = 1; c->by = tid();
    if (c->cancelled) { c->cancelled = 0; struct mwsi fake = { .magic = MW, .ctx = c, .prot = c->prot }; call(&fake, LWS_CALLBACK_EVENT_WAIT_CANCELLED, NULL, 0); c->servicing = 0; return 0; }
    struct mwsi *w = c->wsi; int close = 0;
    if (w && w->want_write && w->st == W_OPEN) { w->want_write = 0; close = call(w, LWS_CALLBACK_CLIENT_WRITEABLE, NULL, 0) != 0; }
    if (!close && c->h < c->t) {
        ev_t e = c->ev[c->h++]; if (c->h == c->t) c->h = c->t = 0;
        if (w) switch (e.kind) {
        case E_EST: if (w->st != W_CONNECTING) break; MC_NOTE("<network: established>"); polls(w); call(w, LWS_CALLBACK_CLIENT_HTTP_BIND_PROTOCOL, NULL, 0); call(w, LWS_CALLBACK_ESTABLISHED_CLIENT_HTTP, NULL, 0); w->st = W_OPEN; call(w, LWS_CALLBACK_CLIENT_FILTER_PRE_ESTABLISH, NULL, 0); close = call(w, LWS_CALLBACK_CLIENT_ESTABLISHED, NULL, 0) != 0; break;
        case E_ERR: if (w->st != W_CONNECTING) break; MC_NOTE("<network: connection error>"); wsi_end(w, 1); break;
        case E_CLOSED: MC_NOTE("<network: closed>"); if (w->st == W_OPEN) call(w, LWS_CALLBACK_WS_PEER_INITIATED_CLOSE, "\x03\xe8", 2); wsi_end(w, 1); break;
        case E_RX: if (w->st != W_OPEN) break;
            { size_t o = 0, step = 65536; int first = e.first; do { size_t k = e.n - o < step ? e.n - o : step; char *x = __real_malloc(k ? k : 1); memcpy(x, e.p + o, k); w->in_rx = 1; w->first = first; w->remaining = e.n - o - k; w->final = e.final && !w->remaining;
                close = call(w, LWS_CALLBACK_CLIENT_RECEIVE, x, k) != 0; w->in_rx = 0; __real_free(x); o += k; first = 0; } while (o < e.n && !close); } break;
        case E_NOISE: polls(w); call(w, LWS_CALLBACK_CLIENT_RECEIVE_PONG, NULL, 0); break;
        }
        __real_free(e.p);
    }
    if (close && w && w->st != W_DEAD) wsi_end(w, 1);
    c->servicing = 0;
    return 0;
}
int __wrap_lws_write(struct lws *p, unsigned char *buf, size_t len, enum lws_write_protocol prot)
{
#ifdef BUILD_SCHED
    sched_point("lws_write");
#endif
    struct mwsi *w = Wx(p, "lws_write");
    if (w->st != W_OPEN) mock_fail("write-early", "lws_write on a connection that is not established");
    for (int i = 1; i <= LWS_PRE; i++) ((volatile unsigned char *)buf)[-i] = 0xEE;   /* lws builds the frame header there */
    if (mk.write_may_fail && mc_choose_dev(2)) { mock_write_failures++; MC_NOTE("write fails"); return -1; }
    if (nsent == 256) mock_fail("too-many-writes", "more than 256 writes");
    char *s = __real_malloc(len + 1); memcpy(s, buf, len); s[len] = 0; if (strlen(s) != len) mock_fail("sent-nul", "a message with a NUL byte is sent"); sent[nsent].text = prot == LWS_WRITE_TEXT; sent[nsent++].s = s;
    MC_NOTE("sent: %s", mc_q(s));
    return (int)len;
}
void __wrap_lws_close_reason(struct lws *p, enum lws_close_status st, unsigned char *b, size_t n) { (void)st; (void)b; (void)n; Wx(p, "lws_close_reason"); }
void __wrap_lws_set_opaque_user_data(struct lws *p, void *d) { Wx(p, "lws_set_opaque_user_data")->opaque = d; }
void *__wrap_lws_get_opaque_user_data(const struct lws *p) { return Wx((struct lws *)p, "lws_get_opaque_user_data")->opaque; }
static struct mwsi *RX(struct lws *p, const char *who) { struct mwsi *w = Wx(p, who); if (!w->in_rx) mock_fail("rx-only", "%s outside a receive callback", who); return w; }
int __wrap_lws_is_final_fragment(struct lws *p) { return RX(p, "lws_is_final_fragment")->final; }
int __wrap_lws_is_first_fragment(struct lws *p) { return RX(p, "lws_is_first_fragment")->first; }
size_t __wrap_lws_remaining_packet_payload(struct lws *p) { return RX(p, "lws_remaining_packet_payload")->remaining; }
void __wrap_lws_cancel_service(struct lws_context *p) { struct mctx *c = C(p, "lws_cancel_service"); c->cancelled = 1; }
void __wrap_lws_cancel_service_pt(struct lws *p) { Wx(p, "lws_cancel_service_pt")->ctx->cancelled = 1; }
int __wrap_lws_callback_on_writable(struct lws *p) { Wx(p, "lws_callback_on_writable")->want_write = 1; return 1; }
void *__wrap_lws_context_user(struct lws_context *p) { return C(p, "lws_context_user")->user; }
struct lws_context *__wrap_lws_get_context(const struct lws *p) { return (struct lws_context *)Wx((struct lws *)p, "lws_get_context")->ctx; }
const struct lws_protocols *__wrap_lws_get_protocol(struct lws *p) { return Wx(p, "lws_get_protocol")->prot; }
void *__wrap_lws_wsi_user(struct lws *p) { return Wx(p, "lws_wsi_user")->user; }
void __wrap_lws_set_timeout(struct lws *p, enum pending_timeout r, int s) { (void)r; (void)s; Wx(p, "lws_set_timeout"); }
int __wrap_lws_rx_flow_control(struct lws *p, int e) { (void)e; Wx(p, "lws_rx_flow_control"); return 0; }
int __wrap_lws_frame_is_binary(struct lws *p) { RX(p, "lws_frame_is_binary"); return 0; }
int __wrap_lws_send_pipe_choked(struct lws *p) { Wx(p, "lws_send_pipe_choked"); return 0; }
