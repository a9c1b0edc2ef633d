#define _GNU_SOURCE
#include "fault.h"
#include "mc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <cjson/cJSON.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

static int armed, injected, tracking;
static uint64_t seen;
int fault_realloc_moves;
int (*fault_on_free)(void *, size_t);
void (*fault_on_alloc)(void *, size_t);

#define TN 65536
typedef struct { void *p; size_t n; uint64_t serial; } tab_t;
static tab_t tab[TN];
static long live, used; static uint64_t serial;   /* used: live entries and the graves of former ones */

static void t_rebuild(void)
{
    if (live > TN / 2) { fprintf(stderr, "fault: more than %d live blocks\n", TN / 2); _exit(3); }
    tab_t *old = __real_malloc(sizeof tab); if (!old) _exit(3);
    memcpy(old, tab, sizeof tab); memset(tab, 0, sizeof tab); used = live;
    for (size_t k = 0; k < TN; k++) if (old[k].p && old[k].p != (void *)-1) { size_t i = ((uintptr_t)old[k].p >> 4) % TN; while (tab[i].p) i = (i + 1) % TN; tab[i] = old[k]; }
    __real_free(old);
}

static void t_add(void *p, size_t n)
{
    if (fault_on_alloc && p) fault_on_alloc(p, n);
    if (!tracking || !p) return;
    if (used > TN / 4 * 3) t_rebuild();
    size_t i = ((uintptr_t)p >> 4) % TN;
    while (tab[i].p && tab[i].p != (void *)-1) i = (i + 1) % TN;
    if (!tab[i].p) used++;
    tab[i].p = p; tab[i].n = n; tab[i].serial = serial++; live++;
}
static int t_del(void *p)
{
    if (!p || live == 0) return 0;
    size_t i = ((uintptr_t)p >> 4) % TN;
    while (tab[i].p) { if (tab[i].p == p) { tab[i].p = (void *)-1; live--; return 1; } i = (i + 1) % TN; }
    return 0;
}
static size_t t_size(void *p)
{
    size_t i = ((uintptr_t)p >> 4) % TN;
    while (tab[i].p) { if (tab[i].p == p) return tab[i].n; i = (i + 1) % TN; }
    return (size_t)-1;
}
static int fail_now(size_t n)
{
    (void)n;
    if (!armed || !mc_in_execution()) return 0;
    seen++;
    if (mc_choose_dev(2)) { injected++; MC_NOTE("allocation #%llu (%zu bytes) fails", (unsigned long long)seen, n); return 1; }
    return 0;
}
void *__wrap_malloc(size_t n) { if (fail_now(n)) return NULL; void *p = __real_malloc(n); t_add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (fail_now(a * b)) return NULL; void *p = __real_calloc(a, b); t_add(p, a * b); return p; }
void *__wrap_realloc(void *o, size_t n)
{
    if (fail_now(n)) return NULL;
    if ((fault_realloc_moves || fault_on_free) && o) {
        size_t os = t_size(o);
        if (os != (size_t)-1) {
            void *p = __real_malloc(n);
            if (!p) return NULL;
            memcpy(p, o, os < n ? os : n);
            t_del(o);
            if (!fault_on_free || !fault_on_free(o, os)) __real_free(o);
            t_add(p, n);
            return p;
        }
    }
    int had = t_del(o);
    if (fault_on_free && o) fault_on_free(o, (size_t)-1);
    void *p = __real_realloc(o, n);
    if (p && (had || !o || tracking)) t_add(p, n); else if (p && fault_on_alloc) fault_on_alloc(p, n);
    return p;
}
void __wrap_free(void *p)
{
    if (fault_on_free && p) { size_t n = t_size(p); t_del(p); if (fault_on_free(p, n)) return; }
    t_del(p); __real_free(p);
}
char *__wrap_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    if (fail_now(n)) return NULL;
    char *p = __real_malloc(n); if (p) { memcpy(p, s, n); t_add(p, n); }
    return p;
}
char *__wrap_strndup(const char *s, size_t m)
{
    size_t n = strnlen(s, m);
    if (fail_now(n + 1)) return NULL;
    char *p = __real_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; t_add(p, n + 1); }
    return p;
}
/* glibc may redirect strdup/strndup */
char *__wrap___strdup(const char *s) { return __wrap_strdup(s); }

static void *h_malloc(size_t n) { return __wrap_malloc(n); }
static void h_free(void *p) { __wrap_free(p); }
void fault_install(void)
{
    cJSON_Hooks h = { h_malloc, h_free };
    cJSON_InitHooks(&h);
}
void fault_reset(void)
{
    armed = 0; injected = 0; seen = 0; tracking = 0;
    if (serial) memset(tab, 0, sizeof tab);
    live = used = 0; serial = 0;
}
void fault_arm(void) { armed = 1; }
void fault_disarm(void) { armed = 0; }
int fault_injected(void) { return injected; }
uint64_t fault_allocs(void) { return seen; }
void fault_track(int on) { tracking = on; }
int fault_pause(void) { int s = armed | tracking << 1; armed = tracking = 0; return s; }
void fault_resume(int s) { armed = s & 1; tracking = s >> 1; }
long fault_live(void) { return live; }
const char *fault_live_desc(void)
{
    static char b[400]; size_t j = 0; b[0] = 0; int k = 0;
    for (size_t i = 0; i < TN && k < 4; i++)
        if (tab[i].p && tab[i].p != (void *)-1) {
            j += snprintf(b + j, sizeof b - j, "[alloc #%llu, %zu bytes] ", (unsigned long long)tab[i].serial, tab[i].n); k++;
        }
    return b;
}

/* ---- allocations of OpenSSL itself ---- */
extern int CRYPTO_set_mem_functions(void *(*)(size_t, const char *, int), void *(*)(void *, size_t, const char *, int), void (*)(void *, const char *, int)) __attribute__((weak));
static int ossl_armed;
static int ossl_fail(size_t n)
{
    if (!ossl_armed || !armed || !mc_in_execution()) return 0;
    if (seen >= 300) return 0; /* key stretching allocates thousands of times */
    seen++;
    if (mc_choose_dev(2)) { injected++; MC_NOTE("allocation #%llu (%zu bytes, inside OpenSSL) fails", (unsigned long long)seen, n); return 1; }
    return 0;
}
static void *o_malloc(size_t n, const char *f, int l) { (void)f; (void)l; if (!n || ossl_fail(n)) return NULL; return __real_malloc(n); }
static void *o_realloc(void *p, size_t n, const char *f, int l) { (void)f; (void)l; if (!p) return o_malloc(n, f, l); if (!n) { __real_free(p); return NULL; } if (ossl_fail(n)) return NULL; return __real_realloc(p, n); }
static void o_free(void *p, const char *f, int l) { (void)f; (void)l; __real_free(p); }
int fault_openssl(void) { return CRYPTO_set_mem_functions && CRYPTO_set_mem_functions(o_malloc, o_realloc, o_free); }
void fault_openssl_arm(int on) { ossl_armed = on; }
