/* A network in place of libwebsockets: linked with --wrap for every lws function a client of this kind uses, so that
 * connection attempts, their outcome, incoming fragments, closing and failing writes are chosen by the harness.  What
 * the mock calls back, in which order and with which arguments follows traces recorded from libwebsockets 4.3.3
 * against a local server (see DESIGN.md).  It also checks what its user may do: no use of a connection or context after
 * lws has freed it, writes only on an established connection with LWS_PRE bytes of room in front, no destruction of a
 * context while it is being serviced.
 *
 * The service thread: under the controlled scheduler (BUILD_SCHED) it is scheduled like any thread.  Otherwise it is a
 * real thread that runs only while the harness lets it (mock_pump, pthread_join), so that executions are deterministic. */
#ifndef MOCKLWS_H
#define MOCKLWS_H
#include <stddef.h>
#include <stdint.h>
enum { MK_OK, MK_NULL, MK_NULL_CB };        /* lws_client_connect_via_info: works; refuses; refuses after a callback */
extern struct mock_cfg { int fail_context, connect, fail_thread, fail_mutex; int write_may_fail; int chunk; } mk;
void mock_reset(void);
void mock_end(void);                        /* nothing of lws, no thread and no mutex may be left */
/* the network's events, for the newest live connection; delivered when the service thread runs */
void mock_established(void);
void mock_error(void);                      /* the attempt fails                            */
void mock_closed(void);                     /* the other side closes                        */
void mock_rx(const void *p, size_t n, int first, int final);   /* one piece of a message   */
void mock_noise(void);                      /* an event that means nothing                  */
void mock_pump(void);                       /* let the service threads work until they wait */
int  mock_pending(void);
int  mock_wsi_live(void), mock_wsi_established(void), mock_contexts_live(void);
int  mock_on_service(void);                 /* the caller is on a service thread            */
void mock_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));   /* from any thread */
/* what was asked of lws */
typedef struct { char address[300], host[300], origin[300], path[300], protocol[64]; int port, ssl, n; } mock_conn;
extern mock_conn mock_last;
int mock_sent_n(void); const char *mock_sent(int i); int mock_sent_text(int i);
extern int mock_write_failures;
extern int mock_slow_joins;                 /* joins of a thread that nothing had woken     */
#endif
