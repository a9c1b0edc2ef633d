/* sched: a controlled scheduler and happens-before race detector for the real library code.
 *
 * The library's sources are compiled with -fsanitize=thread, but the callbacks that instrumentation calls are
 * ours (no TSan runtime is linked): every memory access is checked against per-byte shadow state with vector
 * clocks.  pthread operations are replaced at link time (--wrap): the real threads exist, but exactly one runs
 * at a time and which one is a choice point of the explorer at every synchronization operation.  Switching away
 * from a thread that could go on (a preemption) is a deviation (mc_set_dev_bound); switching at a blocking
 * operation, at a thread's end or at a yield (usleep and friends) is free.
 */
#ifndef SCHED_H
#define SCHED_H
#include <stddef.h>
#include <stdint.h>
void sched_setup(void);                 /* in the scenario's setup(): fork-per-execution, memory quarantine */
void sched_begin(void);                 /* the calling thread becomes thread 0 and threads may be started   */
void sched_end(void);                   /* every started thread must have been joined                       */
void sched_point(const char *what);     /* an explicit scheduling point                                     */
extern __thread int sched_mute;        /* the calling thread is not switched away from while it could go on     */
void sched_yield_point(const char *what);  /* the thread has nothing to do: others go first                 */
void sched_block(int (*ready)(void *), void *arg, const char *what);   /* wait until ready(arg)             */
void sched_access(const void *p, size_t n, int write, const char *who);
void sched_acquire(const void *obj);    /* happens-before edge from the last release of obj                 */
void sched_release(const void *obj);
void sched_freed(const void *p, size_t n);   /* later accesses are uses of freed memory                     */
int  sched_self(void);
int  sched_unjoined(void);              /* threads started and neither joined nor detached                  */
int  sched_live_mutexes(void);          /* initialized with pthread_mutex_init and not destroyed            */
int  sched_threads_started(void);
extern int sched_create_may_fail;       /* pthread_create may fail (a deviation)                            */
extern void (*sched_on_idle)(void);     /* called when no thread can run, before a deadlock is declared     */
/* sets the key prefix under which a race between two code sites is reported: "race:a/b" (sorted)           */
extern int sched_report_races_only;     /* record races but let the execution go on                         */
#endif
