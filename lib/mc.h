/* mc: a stateless, exhaustive choice-tree explorer.
 *
 * A scenario is a C function.  Every point at which the environment or the driver may
 * behave in more than one way is a call to mc_choose().  The explorer runs the scenario
 * once for every path of the choice tree (depth-first, nothing sampled), each execution
 * inside a forked worker so that a crash / sanitizer report is itself an observed outcome,
 * attributed to the exact choice sequence that produced it.
 */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>

#ifdef __cplusplus
extern "C" {
#endif

/* ---- choice points ---- */
int  mc_choose(int n);              /* one of 0..n-1, all explored                          */
int  mc_choose_dev(int n);          /* 0 is the default; any other value costs a deviation; */
                                    /* explored only while the deviation budget lasts       */
void mc_set_dev_bound(int bound);   /* deviation budget of one execution (default 1)        */
int  mc_dev_used(void);
#define MC_PICK(arr) ((arr)[mc_choose((int)(sizeof(arr)/sizeof((arr)[0])))])
#define MC_LEN(arr) ((int)(sizeof(arr)/sizeof((arr)[0])))

/* ---- verdicts ---- */
/* record a violation identified by `key` and end this execution */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
/* same, but the execution goes on (used in tight inner enumerations) */
void mc_report(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* the execution is outside the property's domain: drop it silently (not counted) */
void mc_discard(void) __attribute__((noreturn));
/* end this execution without a verdict (counted) */
void mc_stop(void) __attribute__((noreturn));
#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc_fail((key), __VA_ARGS__); } while (0)

/* ---- bookkeeping ---- */
void mc_step(void);                 /* one transition (operation / event / fault) applied      */
void mc_steps(uint64_t n);
void mc_eval(uint64_t n);           /* n inner cases evaluated against the oracle              */
void mc_state(uint64_t hash);       /* a state of the (reference) model was reached            */
void mc_outcome(uint64_t hash);     /* a non-trivial observed outcome (distinct ones counted)  */
void mc_conform(void);              /* one complete trace compared with the reference          */
extern int mc_verbose;              /* the execution is being replayed/sampled: write notes    */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_NOTE(...) do { if (mc_verbose) mc_note(__VA_ARGS__); } while (0)
int  mc_thorough(void);             /* tier                                                    */
int  mc_in_execution(void);
extern int mc_fork_each;            /* set by a scenario's setup(): one process per execution; mc_fail and
                                       friends may then be called from any thread                 */

/* FNV-1a helpers */
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
uint64_t mc_hash_str(uint64_t h, const char *s);
uint64_t mc_hash_u64(uint64_t h, uint64_t v);
#define MC_H0 1469598103934665603ull

/* printable rendering of bytes into a rotating static buffer */
const char *mc_q(const char *s);
const char *mc_qn(const char *s, size_t n);
const char *mc_hex(const void *p, size_t n);

/* ---- scenario registration ---- */
typedef struct mc_scenario {
    const char *name;
    void (*body)(void);
    void (*setup)(void);    /* once per worker process, before exploring */
    int tiers;              /* 1 quick, 2 thorough, 3 both               */
    int exec_timeout_s;     /* 0: default                                */
    const char *desc;
} mc_scenario;
extern const mc_scenario mc_scenarios[];   /* defined by each check, terminated by {0} */
#define MC_END {0}

#ifdef __cplusplus
}
#endif
#endif
