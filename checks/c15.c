/* C15: the active configuration is always a whole, valid configuration. */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/refev.h"
#ifdef BUILD_SCHED
#include "../lib/mcsched.h"
#include "../lib/fault.h"
#include <pthread.h>
#endif
#include <nostr.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <limits.h>

/* ---- the documented ranges ---- */
typedef struct { const char *name, *env; size_t off; int is_int; long long lo, hi, def; } field;
#define F(n, e, i, lo, hi, d) { #n, e, offsetof(nostr_config, n), i, lo, hi, d }
static const field FLD[] = {
    F(nip44_min_plaintext_size, "NOSTR_NIP44_MIN_SIZE", 0, 1, 65535, 1), F(nip44_max_plaintext_size, "NOSTR_NIP44_MAX_SIZE", 0, 1, 65535, 65535),
    F(max_sessions, "NOSTR_MAX_SESSIONS", 0, 1, 10000, 100), F(session_timeout_secs, "NOSTR_SESSION_TIMEOUT", 0, 60, 86400, 3600), F(max_permissions, "NOSTR_MAX_PERMISSIONS", 0, 1, 1000, 32),
    F(max_content_size, "NOSTR_MAX_CONTENT_SIZE", 0, 1024, 1048576, 65536), F(max_tags, "NOSTR_MAX_TAGS", 0, 1, 1000, 100), F(max_tag_values, "NOSTR_MAX_TAG_VALUES", 0, 1, 1000, 50),
    F(relay_connect_timeout_ms, "NOSTR_RELAY_CONNECT_TIMEOUT", 0, 1000, 300000, 30000), F(relay_response_timeout_ms, "NOSTR_RELAY_RESPONSE_TIMEOUT", 0, 1000, 300000, 10000),
    F(encryption_default_nip, "NOSTR_ENCRYPTION_DEFAULT", 1, 4, 44, 44), F(secure_memory_lock, "NOSTR_SECURE_MEMORY_LOCK", 1, 0, 1, 0), F(debug_mode, "NOSTR_DEBUG", 1, 0, 1, 0) };
#define NF MC_LEN(FLD)
static void set(nostr_config *c, int f, long long v) { if (FLD[f].is_int) *(int *)((char *)c + FLD[f].off) = (int)v; else *(uint32_t *)((char *)c + FLD[f].off) = (uint32_t)v; }
static long long get(const nostr_config *c, int f) { return FLD[f].is_int ? (long long)*(const int *)((const char *)c + FLD[f].off) : (long long)*(const uint32_t *)((const char *)c + FLD[f].off); }
static int in_range(int f, long long v) { return f == 10 ? v == 4 || v == 44 : v >= FLD[f].lo && v <= FLD[f].hi; }
static int ok(const nostr_config *c) { for (int f = 0; f < NF; f++) if (!in_range(f, get(c, f))) return 0; return get(c, 0) <= get(c, 1); }
static void defaults(nostr_config *c) { memset(c, 0, sizeof *c); for (int f = 0; f < NF; f++) set(c, f, FLD[f].def); }
static int same(const nostr_config *a, const nostr_config *b) { for (int f = 0; f < NF; f++) if (get(a, f) != get(b, f)) return 0; return 1; }
static const char *show(const nostr_config *c) { static char b[2][400]; static int k; char *o = b[k ^= 1]; int j = 0; for (int f = 0; f < NF; f++) j += sprintf(o + j, "%s%lld", f ? "," : "", get(c, f)); return o; }
static void judge_validate(const nostr_config *c) { nostr_error_t r = nostr_config_validate(c); if ((r == NOSTR_OK) != ok(c)) mc_fail("validate", "%s is %s (%d)", show(c), r ? "refused" : "accepted", r); if (r && r != NOSTR_ERR_INVALID_PARAM) mc_fail("validate-code", "%s refused with %d", show(c), r); }

/* distinct valid configurations: every field differs where it can; 0 = defaults, 5 = defaults + environment 1 */
#define NCFG 6
static nostr_config CFG[NCFG]; static nostr_config BADC[3];
static void configs(void)
{
    for (int i = 0; i < NCFG; i++) { defaults(&CFG[i]); if (i == 0) continue; if (i == 5) { set(&CFG[5], 2, 7); set(&CFG[5], 12, 1); continue; }
        for (int f = 0; f < 10; f++) set(&CFG[i], f, FLD[f].lo + (f == 1 ? 200 : 0) + 10 * i + f); set(&CFG[i], 10, i & 1 ? 4 : 44); set(&CFG[i], 11, i & 1); set(&CFG[i], 12, i >> 1 & 1); }
    for (int i = 0; i < 3; i++) BADC[i] = CFG[3];
    set(&BADC[0], 12, 2); set(&BADC[1], 0, 0); set(&BADC[2], 7, 1001);
}
static int which(const nostr_config *c) { if (!c) return -1; for (int i = 0; i < NCFG; i++) if (same(c, &CFG[i])) return i; return -2; }
/* ---- callbacks ---- */
typedef struct { int cb, old_, new_; } note_t;
#ifdef BUILD_SCHED
#define LOG (logs[sched_self()])
static struct { note_t n[40]; int k; } logs[8];
#else
#define LOG logs
static struct { note_t n[40]; int k; } logs;
#endif
static int reenter, depth; static int cbdata[3];
static void callback(int id, const nostr_config *o, const nostr_config *n, void *u)
{
    if (u != &cbdata[id]) mc_fail("user-data", "callback %d gets another callback's user data", id);
    if (!o || !n) mc_fail("callback-null", "callback without configurations");
    nostr_config a = *o, b = *n; note_t t = { id, which(&a), which(&b) }; if (LOG.k < 40) LOG.n[LOG.k++] = t;
    if (t.old_ < 0 || t.new_ < 0) mc_fail("torn", "a callback sees %s -> %s", show(&a), show(&b));
#ifdef BUILD_SCHED
    sched_point("callback");
    if (!same(&a, o) || !same(&b, n)) mc_fail("callback-changed", "the configurations change under a running callback");
#endif
    if (reenter && depth == 0) {
        depth++;
        if (reenter == 1) { const nostr_config *c = nostr_config_get_current(); if (which(c) != t.new_) mc_fail("callback-current", "the callback for %d sees %d as current", t.new_, which(c)); }
        if (reenter == 2) nostr_config_set_callback(NULL, NULL);
        if (reenter == 3) { nostr_error_t r = nostr_config_update(&CFG[4]); if (r) mc_fail("nested", "an update from the callback fails with %d", r); }
        if (reenter == 4) { nostr_error_t r = nostr_config_update(&BADC[0]); if (r != NOSTR_ERR_INVALID_PARAM) mc_fail("nested", "a bad update from the callback: %d", r); r = nostr_init_with_config(NULL); if (r) mc_fail("nested", "init from the callback: %d", r); }
        if (!same(&a, o) || !same(&b, n)) mc_fail("callback-changed", "the configurations given to a running callback change");
        depth--;
    }
}
static void cb1(const nostr_config *o, const nostr_config *n, void *u) { callback(1, o, n, u); }
static void cb2(const nostr_config *o, const nostr_config *n, void *u) { callback(2, o, n, u); }
/* ---- environment ---- */
static void env(int k) { for (int f = 0; f < NF; f++) unsetenv(FLD[f].env); if (k == 1) { setenv("NOSTR_MAX_SESSIONS", "7", 1); setenv("NOSTR_DEBUG", "1", 1); } if (k == 2) { setenv("NOSTR_MAX_SESSIONS", "7", 1); setenv("NOSTR_MAX_TAGS", "0", 1); } }

/* ---- the model ---- */
typedef struct { int cfg, cb; } model;              /* cfg -1: none */
enum { I_1, I_2, I_BAD, I_NULL, I_ENV, I_ENVBAD, U_1, U_2, U_3, U_0, U_BAD, U_BAD1, U_BAD2, U_NULL, CB_1, CB_2, CB_0, GET, CLEAN, NINIT, NOP };
static const char *const NM[] = { "init(1)", "init(2)", "init(bad)", "init(defaults)", "init(environment)", "init(bad environment)", "update(1)", "update(2)", "update(3)", "update(0)", "update(bad)", "update(bad1)", "update(bad2)", "update(NULL)", "callback 1", "callback 2", "no callback", "read", "cleanup", "nostr_init" };
typedef struct { nostr_error_t r; int val; int n; note_t note[2]; } res;
static res step(model *m, int o)
{
    res x = { NOSTR_OK, -9, 0, { { 0 } } }; int c = -1;
    switch (o) {
    case I_1: case I_2: case I_NULL: case I_ENV: if (m->cfg < 0) m->cfg = o == I_1 ? 1 : o == I_2 ? 2 : o == I_NULL ? 0 : 5; break;
    case I_BAD: case I_ENVBAD: if (m->cfg < 0) x.r = NOSTR_ERR_INVALID_PARAM; break;
    case U_1: c = 1; break; case U_2: c = 2; break; case U_3: c = 3; break; case U_0: c = 0; break;
    case U_BAD: case U_BAD1: case U_BAD2: x.r = m->cfg < 0 ? NOSTR_ERR_NOT_FOUND : NOSTR_ERR_INVALID_PARAM; break;
    case U_NULL: x.r = NOSTR_ERR_INVALID_PARAM; break;
    case CB_1: m->cb = 1; break; case CB_2: m->cb = 2; break; case CB_0: m->cb = 0; break;
    case GET: x.val = m->cfg; break;
    }
    if (c >= 0) { if (m->cfg < 0) x.r = NOSTR_ERR_NOT_FOUND; else { if (m->cb) { x.n = 1; x.note[0] = (note_t){ m->cb, m->cfg, c }; } m->cfg = c; } }
    return x;
}
static res real(int o)
{
    res x = { NOSTR_OK, -9, 0, { { 0 } } }; int k0 = LOG.k; nostr_config c;
    switch (o) {
    case I_1: case I_2: c = CFG[o - I_1 + 1]; x.r = nostr_init_with_config(&c); break;
    case I_BAD: c = BADC[0]; x.r = nostr_init_with_config(&c); break;
    case I_NULL: env(0); x.r = nostr_init_with_config(NULL); break;
    case I_ENV: env(1); x.r = nostr_init_with_config(NULL); env(0); break;
    case I_ENVBAD: env(2); x.r = nostr_init_with_config(NULL); env(0); break;
    case U_1: case U_2: case U_3: c = CFG[o - U_1 + 1]; x.r = nostr_config_update(&c); break;
    case U_0: c = CFG[0]; x.r = nostr_config_update(&c); break;
    case U_BAD: case U_BAD1: case U_BAD2: c = BADC[o - U_BAD]; x.r = nostr_config_update(&c); break;
    case U_NULL: x.r = nostr_config_update(NULL); break;
    case CB_1: x.r = nostr_config_set_callback(cb1, &cbdata[1]); break; case CB_2: x.r = nostr_config_set_callback(cb2, &cbdata[2]); break; case CB_0: x.r = nostr_config_set_callback(NULL, NULL); break;
    case GET: { const nostr_config *p = nostr_config_get_current(); x.val = which(p);
#ifdef BUILD_SCHED
        /* what was read stays readable while other threads go on */
        if (p) { sched_point("reading"); for (int i = 0; i < (int)sizeof *p; i += 8) sched_access((const char *)p + i, 8, 0, "reading the configuration"); if (x.val >= 0 && which(p) != x.val) mc_fail("read-changed", "the configuration a reader holds changes from %d to %d (%s)", x.val, which(p), show(p)); }
#endif
        if (x.val == -2) mc_fail("torn", "a reader sees %s", show(p)); break; }
    case CLEAN: nostr_cleanup(); break;
    case NINIT: x.r = nostr_init(); break;
    }
    memset(&c, 0x77, sizeof c);
    for (; k0 < LOG.k; k0++) { if (x.n < 2) x.note[x.n] = LOG.n[k0]; x.n++; }
    return x;
}
static int eq(const res *a, const res *b) { if (a->r != b->r || a->val != b->val || a->n != b->n) return 0; for (int i = 0; i < a->n && i < 2; i++) if (memcmp(&a->note[i], &b->note[i], sizeof(note_t))) return 0; return 1; }
static const char *rs(const res *x) { static char b[4][120]; static int k; char *o = b[k = (k + 1) & 3]; int j = sprintf(o, "result %d", x->r); if (x->val != -9) j += sprintf(o + j, ", configuration %d", x->val); for (int i = 0; i < x->n && i < 2; i++) j += sprintf(o + j, ", callback %d(%d->%d)", x->note[i].cb, x->note[i].old_, x->note[i].new_); if (!x->n) sprintf(o + j, ", no callback"); return o; }

#ifndef BUILD_SCHED
static void setup(void) { configs(); env(0); }
static void fsetup(void) { configs(); env(0); mc_fork_each = 1; }
/* ---- validation: every value of every field ---- */
static void values(void)
{
    int f = mc_choose(NF), b = mc_choose(16); nostr_config c; long n = mc_thorough() ? 4400000 : 1100000; long lo = n / 16 * b;
    for (int base = 0; base < 3; base++) { defaults(&c); if (base == 1) c = CFG[3]; if (base == 2) { set(&c, 0, 65535); }
        for (long v = lo; v < lo + n / 16 + 1; v++) { set(&c, f, v); judge_validate(&c); if (FLD[f].is_int || v) { set(&c, f, -v); judge_validate(&c); } }
        mc_eval(2 * (n / 16)); }
    mc_step(); mc_conform(); mc_outcome(f); MC_NOTE("%s: %ld..", FLD[f].name, lo);
}
static int bound(int f, int k) { switch (k) { case 0: return (int)FLD[f].lo - 1; case 1: return (int)FLD[f].lo; case 2: return (int)FLD[f].hi; case 3: return (int)FLD[f].hi + 1; case 4: return (int)FLD[f].def; case 5: return INT_MAX; case 6: return INT_MIN; default: return (int)((FLD[f].lo + FLD[f].hi) / 2); } }
static void triples(void)
{
    int f = mc_choose(NF), g = mc_choose(NF); if (g <= f) mc_discard(); nostr_config c;
    for (int h = g + 1; h <= NF; h++) for (int k = 0; k < 512; k++) { defaults(&c); set(&c, f, bound(f, k & 7)); set(&c, g, bound(g, k >> 3 & 7)); if (h < NF) set(&c, h, bound(h, k >> 6)); judge_validate(&c); mc_eval(1); }
    mc_step(); mc_conform(); mc_outcome(f * 100 + g); MC_NOTE("%s, %s and a third", FLD[f].name, FLD[g].name);
}
static void twosizes(void) { int b = mc_choose(64); static const int V[] = { 0, 1, 2, 100, 1000, 32767, 32768, 65534, 65535, 65536, 70000 }; nostr_config c; for (int i = 0; i < 1025; i++) for (int k = 0; k < MC_LEN(V); k++) { defaults(&c); set(&c, 0, b * 1024 + i); set(&c, 1, V[k]); judge_validate(&c); defaults(&c); set(&c, 1, b * 1024 + i); set(&c, 0, V[k]); judge_validate(&c); mc_eval(2); } mc_step(); mc_conform(); mc_outcome(b); MC_NOTE("sizes %d..", b * 1024); }
/* ---- environment: every text of up to 4 (5) characters of 9, and numbers around the limits ---- */
static void judge_env(int f, const char *t, long long before)
{
    nostr_config c; defaults(&c); set(&c, f, before); setenv(FLD[f].env, t, 1);
    nostr_config want = c; nostr_error_t r = nostr_config_load_env(&c); mc_eval(1);
    if (r != NOSTR_OK) mc_fail("env-result", "%s=%s: %d", FLD[f].env, mc_q(t), r);
    /* is t plainly a number?  [-]digits */
    const char *p = t; int neg = *p == '-'; p += neg; int nd = 0, all = 1; unsigned __int128 v = 0; const char *q = p; for (; *q; q++) { if (*q < '0' || *q > '9') { all = 0; break; } nd++; if (v < ((unsigned __int128)1 << 100)) v = v * 10 + (*q - '0'); }
    int plain = all && nd; long long val = 0; int fits = 0, loose = 0;
    if (plain) { if (FLD[f].is_int) { fits = neg ? v <= (unsigned)INT_MAX + 1u : v <= INT_MAX; val = neg ? -(long long)v : (long long)v; } else { fits = !neg && v <= UINT32_MAX; val = (long long)v; if (neg && v == 0) loose = 1; } }
    if (!plain) { const char *s = t; while (*s == ' ' || *s == '\t' || *s == '\n') s++; if (*s == '+') s++; if (s != t) { int d = 0; unsigned long long w = 0; const char *z = s; int ng = *z == '-' && (FLD[f].is_int) && (s == t || s[-1] != '+'); z += ng; for (; *z >= '0' && *z <= '9'; z++) { d++; if (w < 1ull << 40) w = w * 10 + (*z - '0'); } if (!*z && d && w <= UINT32_MAX) { loose = 1; val = ng ? -(long long)w : (long long)w; } } }
    if (fits) set(&want, f, val);
    int alt = 0; if (loose) { nostr_config w2 = want; set(&w2, f, val); alt = same(&c, &w2); }
    if (!same(&c, &want) && !alt) mc_fail("env-value", "%s=%s over %lld gives %lld", FLD[f].env, mc_q(t), before, get(&c, f));
    unsetenv(FLD[f].env);
}
static const char EA[] = "0179-+ x.";
static void envtexts(void)
{
    int f = (int[]){ 2, 12, 10, 5 }[mc_choose(4)], a = mc_choose(10), b = a ? mc_choose(10) : 0, n = mc_thorough() ? 3 : 2; char t[12]; int k = 0; if (a) { t[k++] = EA[a - 1]; if (b) t[k++] = EA[b - 1]; } t[k] = 0; judge_env(f, t, FLD[f].def); judge_env(f, t, 9);
    if (a && b) for (int m = 1; m <= n; m++) { int tot = 1; for (int i = 0; i < m; i++) tot *= 9; for (int x = 0; x < tot; x++) { int y = x; for (int i = 0; i < m; i++) { t[2 + i] = EA[y % 9]; y /= 9; } t[2 + m] = 0; judge_env(f, t, FLD[f].def); } }
    mc_step(); mc_conform(); mc_outcome(mc_hash_u64(f, a * 10 + b)); MC_NOTE("%s=%s...", FLD[f].env, mc_q(t));
}
static const char *const EN[] = { "", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "-1", "-4294967295", "18446744073709551615", "18446744073709551616", "18446744073709551617", "-18446744073709551615", "-18446744073709551611", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999", "-99999999999999999999999999", "0x10", "1e3", "007", "12 ", " 12", "12\n", "1,000", "true", "50", "44", "1" };
static void envnumbers(void)
{
    int f = mc_choose(NF), k = mc_choose(MC_LEN(EN)), b = mc_choose(NF + 1);
    if (b == NF) { judge_env(f, EN[k], FLD[f].def); judge_env(f, EN[k], 5); }
    else { /* every byte before, after and instead */ for (int c = 1; c < 256; c++) { char t[80]; if (b == 0) sprintf(t, "%c%s", c, EN[k]); else if (b == 1) sprintf(t, "%s%c", EN[k], c); else if (b == 2 && strlen(EN[k]) > 1) { strcpy(t, EN[k]); t[1] = (char)c; } else continue; if (c < 32 && c != '\n' && c != '\t') { if (b != 1) continue; } judge_env(f, t, FLD[f].def); } if (b > 2) mc_discard(); }
    mc_step(); mc_conform(); mc_outcome(mc_hash_u64(f, k)); MC_NOTE("%s=%s", FLD[f].env, mc_q(EN[k]));
}
/* several variables together */
static void envmany(void)
{
    int x = mc_choose(8192); nostr_config c, w; defaults(&c); w = c; env(0);
    for (int f = 0; f < NF; f++) { char t[20]; if (x >> f & 1) { sprintf(t, "%lld", FLD[f].lo + 1); set(&w, f, FLD[f].lo + 1); setenv(FLD[f].env, t, 1); } else if (x * 7 + f & 4) setenv(FLD[f].env, "none", 1); }
    nostr_config_load_env(&c); if (!same(&c, &w)) mc_fail("env-many", "%s instead of %s", show(&c), show(&w)); env(0); mc_step(); mc_eval(1); mc_conform(); mc_outcome(x); MC_NOTE("subset %x", x);
    if (nostr_config_load_env(NULL) == NOSTR_OK || nostr_config_get_defaults(NULL) == NOSTR_OK || nostr_config_validate(NULL) == NOSTR_OK) mc_fail("null", "NULL accepted"); nostr_config d; memset(&d, 0x55, sizeof d); nostr_config_get_defaults(&d); if (!same(&d, &CFG[0])) mc_fail("defaults", "defaults are %s", show(&d));
}
/* ---- histories, each in a fresh process ---- */
static void histories(void)
{
    int n = mc_thorough() ? 5 : 4; model m = { -1, 0 }; uint64_t h = MC_H0;
    const nostr_config *kept = NULL; (void)kept;
    for (int i = 0; i < n; i++) {
        int o = mc_choose(NOP); if (o == GET || o == U_BAD1 || o == U_BAD2) mc_discard();
        res w = step(&m, o), g = real(o); mc_step(); mc_eval(1); MC_NOTE("%s: %s", NM[o], rs(&g));
        if (!eq(&w, &g)) mc_fail("history", "step %d, %s: %s, expected %s", i, NM[o], rs(&g), rs(&w));
        const nostr_config *c = nostr_config_get_current(); if (which(c) != m.cfg) mc_fail("active", "after %s: active is %s, expected configuration %d", NM[o], c ? show(c) : "none", m.cfg);
        mc_state(mc_hash_u64(m.cfg, m.cb)); h = mc_hash_u64(h, mc_hash_u64(o, g.r));
    }
    mc_outcome(h); mc_conform();
}
/* rejected and accepted updates over the whole boundary space, one long history per first choice */
static void updates(void)
{
    int f = mc_choose(NF), g = mc_choose(NF); if (g == f) mc_discard(); nostr_config act = CFG[2]; if (nostr_init_with_config(&act)) mc_fail("init", "refused"); nostr_config_set_callback(NULL, NULL);
    for (int k = 0; k < 64; k++) { nostr_config c = act; set(&c, f, bound(f, k & 7)); set(&c, g, bound(g, k >> 3)); int good = ok(&c); nostr_error_t r = nostr_config_update(&c); if ((r == NOSTR_OK) != good) mc_fail("update", "%s: %d", show(&c), r); if (good) act = c; const nostr_config *p = nostr_config_get_current(); if (!p || !same(p, &act)) mc_fail("active", "after %s active is %s", show(&c), p ? show(p) : "none"); mc_eval(1); }
    mc_step(); mc_conform(); mc_outcome(f * 20 + g);
}
/* the limits bind what follows */
static const int TL[] = { 1, 2, 3, 7, 99, 100, 101, 1000 };
static void limits(void)
{
    int first = mc_choose(2), t = MC_PICK(TL), cs = (int[]){ 1024, 1025, 4096, 65536, 1048576 }[mc_choose(5)]; nostr_config c = CFG[0]; set(&c, 6, t); set(&c, 5, cs);
    if (first) { if (nostr_init_with_config(&c)) mc_fail("init", "refused"); } else { if (nostr_init_with_config(NULL) || nostr_config_update(&c)) mc_fail("update", "refused"); }
    nostr_event *e = refev_new(); const char *v[2] = { "t", "x" };
    for (int i = 0; i < t + 2; i++) { nostr_error_t r = nostr_event_add_tag(e, v, 2); if ((r == NOSTR_OK) != (i < t)) mc_fail("limit-tags", "limit %d: adding tag %d: %d", t, i + 1, r); mc_eval(1); }
    nostr_event_destroy(e);
    for (int n = t - 1; n <= t + 1; n++) { ref_buf b = { 0 }; char h[129]; memset(h, 'a', 128); h[128] = 0; rb_fmt(&b, "{\"id\":\"%.64s\",\"pubkey\":\"%.64s\",\"created_at\":1,\"kind\":1,\"tags\":[", h, h); for (int i = 0; i < n; i++) rb_put(&b, i ? ",[\"t\",\"x\"]" : "[\"t\",\"x\"]"); rb_fmt(&b, "],\"content\":\"c\",\"sig\":\"%s\"}", h); nostr_event *p = NULL; nostr_error_t r = nostr_event_from_json(b.s, &p); if ((r == NOSTR_OK) != (n <= t)) mc_fail("limit-tags", "limit %d: reading an event with %d tags: %d", t, n, r); if (p) nostr_event_destroy(p); rb_free(&b); mc_eval(1); }
    for (int d = -1; d <= 1; d++) { ref_buf b = { 0 }; char h[129]; memset(h, 'a', 128); h[128] = 0; rb_fmt(&b, "{\"id\":\"%.64s\",\"pubkey\":\"%.64s\",\"created_at\":1,\"kind\":1,\"tags\":[],\"content\":\"", h, h); char *x = malloc(cs + 2); memset(x, 'y', cs + 1); x[cs + d] = 0; rb_put(&b, x); free(x); rb_fmt(&b, "\",\"sig\":\"%s\"}", h); nostr_event *p = NULL; nostr_error_t r = nostr_event_from_json(b.s, &p); if ((r == NOSTR_OK) != (d <= 0)) mc_fail("limit-content", "limit %d: reading %d bytes of content: %d", cs, cs + d, r); if (p) nostr_event_destroy(p); rb_free(&b); mc_eval(1); }
    mc_step(); mc_conform(); mc_outcome(mc_hash_u64(t, cs)); MC_NOTE("%d tags, %d bytes", t, cs);
}
const mc_scenario mc_scenarios[] = {
    { "values", values, setup, 3, 120, "every field at every value to 1.1 (4.4) million, both signs, on three bases" }, { "triples", triples, setup, 3, 60, "all triples of fields at 8 boundary values each" }, { "twosizes", twosizes, setup, 3, 60, "minimum against maximum plaintext size" },
    { "envtexts", envtexts, setup, 3, 60, "environment texts of up to 4 (5) characters over 9" }, { "envnumbers", envnumbers, setup, 3, 60, "32 numbers at the limits x 13 variables, every byte before, after, inside" }, { "envmany", envmany, setup, 3, 60, "all subsets of variables" },
    { "histories", histories, fsetup, 3, 60, "all sequences of 4 (5) of 17 operations in a fresh process" }, { "updates", updates, fsetup, 3, 60, "chains of 64 boundary updates for every pair of fields" }, { "limits", limits, fsetup, 3, 60, "tag and content limits" }, MC_END };
#else
static void ssetup(void) { sched_setup(); fault_install(); configs(); env(0); }
/* a callback that uses the configuration interface */
static void reentry(void)
{
    fault_reset(); sched_begin(); reenter = 1 + mc_choose(4); memset(logs, 0, sizeof logs); depth = 0;
    if (nostr_init_with_config(&CFG[1])) mc_fail("init", "refused"); nostr_config_set_callback(cb1, &cbdata[1]);
    nostr_error_t r = nostr_config_update(&CFG[2]); if (r) mc_fail("update", "%d", r);
    int last = reenter == 3 ? 4 : 2, n = reenter == 3 ? 2 : 1;
    if (LOG.k != n || LOG.n[0].old_ != 1 || LOG.n[0].new_ != 2 || (n == 2 && (LOG.n[1].old_ != 2 || LOG.n[1].new_ != 4))) mc_fail("notifications", "%d notifications", LOG.k);
    if (which(nostr_config_get_current()) != last) mc_fail("active", "active is %d", which(nostr_config_get_current()));
    r = nostr_config_update(&CFG[3]); if (r || LOG.k != n + (reenter == 2 ? 0 : reenter == 3 ? 2 : 1)) mc_fail("notifications", "second update: %d, %d notifications", r, LOG.k);
    sched_end(); mc_step(); mc_conform(); mc_outcome(reenter); MC_NOTE("reentry %d", reenter); reenter = 0;
}
typedef struct { int o[2]; res r[2]; long t0[2], t1[2]; } job; static job J[3]; static long now;
static void *worker(void *a) { job *j = a; for (int i = 0; i < 2 && j->o[i] >= 0; i++) { j->t0[i] = ++now; j->r[i] = real(j->o[i]); j->t1[i] = ++now; } return NULL; }
/* is there a sequential order of all operations, keeping non-overlapping ones in place, with these results? */
static int linear(model m, int nt, int *pos, int want)
{
    int done = 1, any = 0;
    for (int t = 0; t < nt; t++) if (pos[t] < 2 && J[t].o[pos[t]] >= 0) done = 0;
    if (done) return m.cfg == want;
    for (int t = 0; t < nt; t++) { if (pos[t] > 1 || J[t].o[pos[t]] < 0) continue;
        int late = 0; for (int u = 0; u < nt; u++) if (u != t && pos[u] < 2 && J[u].o[pos[u]] >= 0 && J[u].t1[pos[u]] < J[t].t0[pos[t]]) late = 1;
        if (late) continue;
        model x = m; res w = step(&x, J[t].o[pos[t]]); if (!eq(&w, &J[t].r[pos[t]])) continue;
        pos[t]++; any = linear(x, nt, pos, want); pos[t]--; if (any) return 1; }
    return 0;
}
static void go(int nt, int start)
{
    model m = { -1, 0 }; memset(logs, 0, sizeof logs); now = 0; fault_reset();
    if (start) { real(I_1); real(CB_1); m = (model){ 1, 1 }; }
    sched_begin(); pthread_t th[3];
    for (int t = 1; t < nt; t++) pthread_create(&th[t], NULL, worker, &J[t]);
    worker(&J[0]); for (int t = 1; t < nt; t++) pthread_join(th[t], NULL);
    sched_end();
    uint64_t h = MC_H0; for (int t = 0; t < nt; t++) for (int i = 0; i < 2 && J[t].o[i] >= 0; i++) { MC_NOTE("thread %d: %s: %s", t, NM[J[t].o[i]], rs(&J[t].r[i])); h = mc_hash_u64(h, mc_hash_str(J[t].o[i], rs(&J[t].r[i]))); }
    int fin = which(nostr_config_get_current()); if (fin == -2) mc_fail("torn", "the final configuration is %s", show(nostr_config_get_current()));
    int pos[3] = { 0 }; if (!linear(m, nt, pos, fin)) mc_fail("order", "no sequential order of the calls explains the results and the final configuration %d", fin);
    mc_conform(); mc_outcome(mc_hash_u64(h, fin)); mc_state(mc_hash_u64(MC_H0, fin));
}
static const int AL[] = { I_1, I_NULL, I_BAD, U_2, U_3, U_BAD, GET, CB_2, CB_0 };
static void two(void)
{
    int start = mc_choose(2), four = mc_thorough(); mc_set_dev_bound(mc_thorough() ? 3 : 2);
    J[0].o[0] = MC_PICK(AL); J[0].o[1] = MC_PICK(AL); J[1].o[0] = MC_PICK(AL); J[1].o[1] = four ? MC_PICK(AL) : -1; go(2, start);
}
static void four(void)
{
    static const int A4[] = { U_2, U_3, GET, CB_2 }; int start = mc_choose(2); mc_set_dev_bound(2); for (int t = 0; t < 2; t++) for (int i = 0; i < 2; i++) J[t].o[i] = MC_PICK(A4); go(2, start);
}
static void three(void)
{
    int start = mc_choose(2), a = mc_choose(9), b = mc_choose(9), c = mc_choose(9); if (b < a || c < b) mc_discard(); mc_set_dev_bound(2);
    int x[3] = { a, b, c }; for (int t = 0; t < 3; t++) { J[t].o[0] = AL[x[t]]; J[t].o[1] = -1; } go(3, start);
}
const mc_scenario mc_scenarios[] = {
    { "reentry", reentry, ssetup, 3, 20, "callbacks that read, update and unregister" }, { "two", two, ssetup, 3, 30, "two threads, two operations against one (two) of 9" },
    { "four", four, ssetup, 3, 30, "two threads with two operations each of 4" }, { "three", three, ssetup, 3, 30, "three threads, one operation each of 9" }, MC_END };
#endif
