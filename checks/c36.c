/* C36: the library describes itself truthfully: features, version, error texts. */
#include "../lib/mc.h"
#include <nostr.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <limits.h>
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
#include <nostr_relay_protocol.h>
#endif
#ifdef BUILD_SCHED
#include "../lib/mcsched.h"
#include <pthread.h>
#endif
static const struct { int nip, on; } NIP[] = {
#ifdef NOSTR_FEATURE_NIP04
    { 4, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP05
    { 5, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP10
    { 10, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP13
    { 13, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP17
    { 17, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP18
    { 18, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP25
    { 25, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP26
    { 26, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP44
    { 44, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP46
    { 46, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP47
    { 47, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP49
    { 49, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP51
    { 51, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP57
    { 57, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP59
    { 59, 1 },
#endif
#ifdef NOSTR_FEATURE_NIP65
    { 65, 1 },
#endif
    { -1, 0 } };
static int has(int n) { for (int i = 0; NIP[i].on; i++) if (NIP[i].nip == n) return 1; return 0; }
static const char *const OTHER[] = { "std", "events", "keys", "encoding",
#ifdef NOSTR_FEATURE_RELAY
    "relay",
#endif
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
    "relay-protocol",
#endif
#ifdef NOSTR_FEATURE_HD_KEYS
    "hd-keys",
#endif
#ifdef NOSTR_FEATURE_JSON_ENHANCED
    "json-enhanced",
#endif
#ifdef NOSTR_FEATURE_THREADING
    "threading",
#endif
};
/* NIP-01, 19 and 21 are part of the core without a switch of their own: either answer */
static int core(int n) { return n == 1 || n == 6 || n == 9 || n == 11 || n == 16 || n == 19 || n == 20 || n == 21 || n == 33 || n == 40 || n == 45 || n == 50; }
static void one(int n) { int r = nostr_feature_nip_supported(n); mc_eval(1); if (core(n) && !has(n)) return; if ((r != 0) != has(n)) mc_report("nip", "NIP-%d is %ssupported, the answer is %d", n, has(n) ? "" : "not ", r); else if (r != 0 && r != 1) mc_report("nip", "the answer for %d is %d", n, r); }
static void nips(void)
{
    int k = mc_choose(8); if (k < 6) { for (long n = -70000 + k * 140000l / 6; n <= -70000 + (k + 1) * 140000l / 6; n++) one((int)n); }
    else if (k == 6) for (int b = 0; b < 32; b++) for (int d = -70; d <= 70; d++) one((int)((1u << b) + (unsigned)d)); else for (int i = 0; NIP[i].on; i++) for (int b = 7; b < 32; b++) for (unsigned m = 1; m < 4; m++) one((int)((unsigned)NIP[i].nip + (m << b)));
    mc_conform();
}
static void check_list(const char *l)
{
    if (!l) mc_fail("list", "no list"); char t[40]; int seen = 0, want = MC_LEN(OTHER); for (int i = 0; NIP[i].on; i++) want++;
    size_t len = strlen(l); if (len > 2000) mc_fail("list", "%zu characters", len); char dup[64][40]; int nd = 0;
    for (const char *p = l; ; ) { const char *e = strchr(p, ','); size_t n = e ? (size_t)(e - p) : strlen(p); if (n == 0 || n > 30) mc_fail("list", "empty or odd name in %s", l); memcpy(t, p, n); t[n] = 0;
        for (int i = 0; i < nd; i++) if (!strcmp(dup[i], t)) mc_fail("list", "%s twice in %s", t, l);
        if (nd < 64) strcpy(dup[nd++], t);
        int ok = 0, nip; char c; for (int i = 0; i < MC_LEN(OTHER); i++) if (!strcmp(t, OTHER[i])) ok = 1;
        if (sscanf(t, "nip%d%c", &nip, &c) == 1) { char f[40]; snprintf(f, sizeof f, "nip%02d", nip); ok = has(nip) ? !strcmp(f, t) : 2 * core(nip); if (!nostr_feature_nip_supported(nip)) mc_fail("list", "%s is listed but not reported as supported", t); }
        if (!ok) mc_fail("list", "%s is listed but not part of this build", t); if (ok == 1) seen++;
        if (!e) break; p = e + 1; }
    if (seen != want) mc_fail("list", "%d of %d enabled features listed: %s", seen, want, l);
}
static void list(void)
{
    int n = 1 + mc_choose(3); const char *first = NULL; char copy[2100]; for (int i = 0; i < n; i++) { const char *l = nostr_feature_list_enabled(); mc_step(); check_list(l); if (first && (strcmp(first, l) || strcmp(copy, first))) mc_fail("list", "it changed between two calls"); if (!first) { first = l; strcpy(copy, l); } }
    mc_conform();
}
static void groups(void)
{
    int on[4] = { 0 }; mc_step();
#ifdef NOSTR_FEATURE_RELAY
    on[0] = 1;
#endif
#ifdef NOSTR_FEATURE_HD_KEYS
    on[1] = 1;
#endif
#ifdef NOSTR_FEATURE_JSON_ENHANCED
    on[2] = 1;
#endif
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
    on[3] = 1;
#endif
    int r[4] = { nostr_feature_relay_available(), nostr_feature_hd_keys_available(), nostr_feature_json_enhanced_available(), nostr_feature_relay_protocol_available() }; for (int i = 0; i < 4; i++) MC_CHECK(r[i] == on[i], "group", "feature group %d: %d, built: %d", i, r[i], on[i]);
    const char *b = nostr_feature_crypto_backend_info(); MC_CHECK(b, "backend", "no text"); int nc = 0, se = 0;
#ifdef HAVE_NOSCRYPT
    nc = 1;
#elif defined(HAVE_SECP256K1)
    se = 1;
#endif
    MC_CHECK((strstr(b, "noscrypt") != NULL) == nc && (strstr(b, "secp256k1") != NULL) == se, "backend", "%s", b);
#if !defined(HAVE_NOSCRYPT) && defined(HAVE_SCHNORRSIG_SIGN32)
    MC_CHECK(!strstr(b, "limited") && !strstr(b, "no schnorr"), "backend", "%s", b);
#endif
    mc_conform();
}
static void version(void)       /* the released version, as the build description states it */
{
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
    mc_step(); char line[300], v[40] = ""; FILE *f = fopen(MC_REPO "/CMakeLists.txt", "r"); if (!f) mc_discard(); while (fgets(line, sizeof line, f)) { char *p = strstr(line, "project("); if (p && (p = strstr(p, "VERSION ")) && sscanf(p, "VERSION %39[0-9.]", v) == 1) break; } fclose(f); if (!v[0]) mc_discard();
    const char *w = nostr_version(); MC_CHECK(w && !strcmp(w, v), "version", "nostr_version() is %s, the project is %s", w ? w : "NULL", v); mc_conform();
#endif
}
static void texts(int lo, int hi, const char *(*f)(int), const char *what)
{
    const char *unknown = f(hi + 1000); if (!unknown || !*unknown) mc_fail("text", "%s: no text for an unknown code", what);
    for (int c = -70000; c <= 70000; c++) { const char *t = f(c); mc_eval(1); if (!t || !*t) { mc_report("text", "%s: no text for code %d", what, c); return; } if (c >= lo && c <= hi) { if (!strcmp(t, unknown)) mc_report("text", "%s: code %d is described as %s", what, c, t); for (int d = lo; d < c; d++) if (!strcmp(f(d), t)) mc_report("text", "%s: codes %d and %d are both described as %s", what, d, c, t); } else if (c < lo - 1 || c > hi) { for (int d = lo; d <= hi; d++) if (!strcmp(f(d), t)) mc_report("text", "%s: code %d is described as %s", what, c, t); } }
    (void)f(INT_MIN); (void)f(INT_MAX);
}
static const char *f1(int c) { return nostr_error_string((nostr_error_t)c); }
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
static const char *f2(int c) { return nostr_relay_error_string((nostr_relay_error_t)c); }
#endif
static void errors(void)
{
    int k = mc_choose(2); mc_step(); if (!k) { texts(NOSTR_OK, NOSTR_ERR_NOT_SUPPORTED, f1, "nostr_error_string"); static const struct { int c; const char *w; } M[] = { { NOSTR_ERR_INVALID_KEY, "key" }, { NOSTR_ERR_INVALID_EVENT, "event" }, { NOSTR_ERR_INVALID_SIGNATURE, "signature" }, { NOSTR_ERR_MEMORY, "emory" }, { NOSTR_ERR_JSON_PARSE, "JSON" }, { NOSTR_ERR_ENCODING, "ncoding" }, { NOSTR_ERR_CONNECTION, "onnection" }, { NOSTR_ERR_PROTOCOL, "rotocol" }, { NOSTR_ERR_NOT_FOUND, "found" }, { NOSTR_ERR_TIMEOUT, "ime" }, { NOSTR_ERR_INVALID_PARAM, "arameter" }, { NOSTR_ERR_NOT_SUPPORTED, "upported" }, { NOSTR_OK, "ucc" } }; for (int i = 0; i < MC_LEN(M); i++) if (!strstr(f1(M[i].c), M[i].w)) mc_report("meaning", "code %d is described as %s", M[i].c, f1(M[i].c)); }
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
    else { texts(NOSTR_RELAY_OK, NOSTR_RELAY_ERR_STORAGE, f2, "nostr_relay_error_string"); static const struct { int c; const char *w; } M[] = { { NOSTR_RELAY_ERR_INVALID_JSON, "JSON" }, { NOSTR_RELAY_ERR_MISSING_FIELD, "field" }, { NOSTR_RELAY_ERR_INVALID_ID, "ID" }, { NOSTR_RELAY_ERR_INVALID_PUBKEY, "pubkey" }, { NOSTR_RELAY_ERR_INVALID_SIG, "signature" }, { NOSTR_RELAY_ERR_INVALID_CREATED_AT, "created_at" }, { NOSTR_RELAY_ERR_INVALID_KIND, "kind" }, { NOSTR_RELAY_ERR_INVALID_TAGS, "tag" }, { NOSTR_RELAY_ERR_INVALID_CONTENT, "content" }, { NOSTR_RELAY_ERR_ID_MISMATCH, "mismatch" }, { NOSTR_RELAY_ERR_SIG_MISMATCH, "signature" }, { NOSTR_RELAY_ERR_FUTURE_EVENT, "future" }, { NOSTR_RELAY_ERR_EXPIRED_EVENT, "expired" }, { NOSTR_RELAY_ERR_INVALID_SUBSCRIPTION_ID, "subscription" }, { NOSTR_RELAY_ERR_TOO_MANY_FILTERS, "filters" }, { NOSTR_RELAY_ERR_BUFFER_TOO_SMALL, "buffer" }, { NOSTR_RELAY_ERR_MEMORY, "memory" }, { NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE, "message" }, { NOSTR_RELAY_ERR_STORAGE, "storage" } }; for (int i = 0; i < MC_LEN(M); i++) if (!strstr(f2(M[i].c), M[i].w)) mc_report("meaning", "code %d is described as %s", M[i].c, f2(M[i].c)); }
#endif
    mc_conform();
}
#ifdef BUILD_SCHED
static void touch(const char *s) { if (s) sched_access(s, strlen(s) + 1, 0, "the caller reading the text"); }
static void ask(int k) { switch (k) { case 0: { const char *l = nostr_feature_list_enabled(); touch(l); check_list(l); sched_point("between"); touch(l); check_list(l); break; } case 1: touch(nostr_error_string(NOSTR_ERR_MEMORY)); break; case 2: touch(nostr_relay_error_string((nostr_relay_error_t)99)); break; case 3: one(44); break; case 4: touch(nostr_feature_crypto_backend_info()); break; default: touch(nostr_version()); } mc_step(); }
static void *run(void *a) { int v = (int)(long)a; ask(v % 8); ask(v / 8); return NULL; }
static void threads(void)
{
    mc_set_dev_bound(mc_thorough() ? 4 : 2); int v[3], n = 2 + mc_choose(2); for (int i = 0; i < n; i++) v[i] = mc_choose(n == 2 ? 6 : 2) + 8 * mc_choose(n == 2 ? 6 : 2); sched_begin(); pthread_t t[3]; for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, run, (void *)(long)v[i]); for (int i = 0; i < n; i++) pthread_join(t[i], NULL); sched_end(); mc_conform();
}
const mc_scenario mc_scenarios[] = { { "threads", threads, sched_setup, 3, 0, "two or three threads, two questions each, up to 2 (4) preemptions: no races, whole answers" }, MC_END };
#else
const mc_scenario mc_scenarios[] = {
    { "nips", nips, NULL, 3, 0, "every NIP number from -70000 to 70000, around every power of two and every alias of a supported number" },
    { "list", list, NULL, 3, 0, "the feature list names exactly the enabled features, each once, on repeated calls" },
    { "groups", groups, NULL, 3, 0, "feature groups and cryptography backend" },
    { "version", version, NULL, 3, 0, "the version string is the project's" },
    { "errors", errors, NULL, 3, 0, "every error code, and every other number to 70000, has a text; codes have texts of their own" },
    MC_END };
#endif
