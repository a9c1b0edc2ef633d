/* C01: event id == SHA-256(NIP-01 canonical serialization), for every event in the bounded alphabet. */
#include "refev.h"
#include <nostr_relay_protocol.h>

static void judge(nostr_event *e, const char *what)
{
    uint8_t want[32]; refev_id(e, want);
    uint64_t before; { uint8_t sv[32]; memcpy(sv, e->id, 32); memset(e->id, 0, 32); before = refev_hash(e); memcpy(e->id, sv, 32); }
    mc_step();
    nostr_error_t r = nostr_event_compute_id(e);
    MC_CHECK(r == NOSTR_OK, "compute_id:error", "%s: compute_id returned %d", what, r);
    if (memcmp(e->id, want, 32)) {
        ref_buf b = {0}; refev_canonical(&b, e);
        char buf[4096]; size_t n = 0; nostr_event_serialize_canonical(e, buf, sizeof buf, &n);
        mc_report("compute_id:wrong", "%s: id is not the hash of %s (library canonical form: %s)", what, mc_q(b.s), mc_qn(buf, n < 300 ? n : 300));
        rb_free(&b);
    }
    uint64_t after; { uint8_t sv[32]; memcpy(sv, e->id, 32); memset(e->id, 0, 32); after = refev_hash(e); memcpy(e->id, sv, 32); }
    MC_CHECK(before == after, "compute_id:side-effect", "%s: computing the id changed another field", what);
    mc_state(before); mc_outcome(mc_hash(MC_H0, e->id, 32)); mc_eval(1);
}
static void canon(nostr_event *e, const char *what)
{
    ref_buf b = {0}; refev_canonical(&b, e);
    char *buf = malloc(b.n + 1); size_t n = 12345;
    nostr_relay_error_t r = nostr_event_serialize_canonical(e, buf, b.n + 1, &n);
    mc_step();
    if (r != NOSTR_RELAY_OK || n != b.n || memcmp(buf, b.s, b.n + 1)) mc_report("canonical:wrong", "%s: got %d len %zu %s want %s", what, r, n, r == NOSTR_RELAY_OK ? mc_q(buf) : "-", mc_q(b.s));
    free(buf); rb_free(&b);
}
static void put(nostr_event *e, int where, const char *s)
{
    switch (where) {
    case 0: nostr_event_set_content(e, s); break;
    case 1: refev_tag(e, 1, s, 0, 0, 0); break;
    case 2: refev_tag(e, 2, "t", s, 0, 0); break;
    case 3: refev_tag(e, 2, s, "v", 0, 0); refev_tag(e, 3, "p", "", s, 0); break;
    }
}
static void one_byte(void)
{
    int c = mc_choose(255 * 4); int where = c % 4; char s[2] = { (char)(c / 4 + 1), 0 };
    nostr_event *e = refev_new(); put(e, where, s);
    MC_NOTE("byte 0x%02x at place %d", c / 4 + 1, where);
    judge(e, "one byte"); canon(e, "one byte");
    nostr_event_destroy(e); mc_conform();
}
static void two_bytes(void)
{
    int c = mc_choose(255 * 2); int where = (c % 2) * 2; char s[3] = { (char)(c / 2 + 1), 0, 0 };
    for (int b = 1; b < 256; b++) {
        s[1] = (char)b; nostr_event *e = refev_new(); put(e, where, s); judge(e, "two bytes"); nostr_event_destroy(e);
    }
    MC_NOTE("all byte pairs starting 0x%02x at place %d", c / 2 + 1, where);
    mc_conform();
}
static const char *const CH[] = { "\"", "\\", "\n", "\r", "\t", "\b", "\f", "/", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "\xff", "u0041", "a", " " };
static void strings(void)
{
    int d = mc_thorough() ? 4 : 3; char s[64] = ""; int where = mc_choose(2) * 2;
    for (int i = 0; i < d; i++) strcat(s, MC_PICK(CH));
    nostr_event *e = refev_new(); put(e, where, s); judge(e, "string"); canon(e, "string");
    MC_NOTE("%s at place %d", mc_q(s), where);
    nostr_event_destroy(e); mc_conform();
}
static const int64_t TS[] = { 0, 1, 9, 10, 99, 100, 65535, 65536, 1700000000, 2147483646, 2147483647, 2147483648LL, 2147483649LL, 4294967295LL, 4294967296LL,
    999999999999LL, 1000000000000LL, 1700000000000LL, 99999999999999LL, 100000000000000LL, 123456789012345LL, 999999999999999LL, 1000000000000000LL, 1000000000000001LL, 1700000000000000LL, 1700000000123456LL, 9007199254740991LL, 9007199254740992LL,
    9007199254740993LL, 1234567890123456789LL, 9223372036854775806LL, 9223372036854775807LL, -1, -2147483648LL, -2147483649LL, -1000000000000000LL, INT64_MIN + 1, INT64_MIN };
static const int KINDS[] = { 0, 1, 9, 10, 255, 256, 1000, 9999, 10000, 30023, 32767, 32768, 65534, 65535 };
static void integers(void)
{
    int64_t t = MC_PICK(TS); int k = MC_PICK(KINDS);
    nostr_event *e = refev_new(); e->created_at = t; e->kind = k;
    MC_NOTE("created_at=%" PRId64 " kind=%d", t, k);
    judge(e, "integers"); canon(e, "integers"); nostr_event_destroy(e); mc_conform();
}
static void powers(void)
{
    /* every 10^k, 2^k and neighbours; every kind */
    int which = mc_choose(2);
    if (which == 0) {
        int k = mc_choose(64); int64_t base = k < 63 ? (int64_t)1 << k : INT64_MAX; int64_t ten = 1; for (int i = 0; i < k && i < 18; i++) ten *= 10;
        int64_t v[] = { base, base - 1, base - 2, -base, ten, ten - 1, ten + 1, ten * 9, -ten, ten + ten / 3 };
        for (int i = 0; i < MC_LEN(v); i++) { nostr_event *e = refev_new(); e->created_at = v[i]; judge(e, "power"); nostr_event_destroy(e); }
    } else {
        int hi = mc_choose(256);
        for (int lo = 0; lo < 256; lo++) { nostr_event *e = refev_new(); e->kind = hi * 256 + lo; judge(e, "kind"); nostr_event_destroy(e); }
    }
    mc_conform();
}
static const char *const V[] = { "", "a", "\"", "\xc3\xa9\n" };
static void shapes(void)
{
    int nt = mc_choose(mc_thorough() ? 4 : 3) + 0, nv = mc_thorough() ? 4 : 4;
    nostr_event *e = refev_new(); char d[200] = "";
    for (int i = 0; i < nt; i++) {
        int n = 1 + mc_choose(nt == 3 ? 2 : 3); const char *v[3];
        for (int j = 0; j < n; j++) v[j] = V[mc_choose(nt == 3 ? 3 : nv)];
        nostr_event_add_tag(e, v, n); sprintf(d + strlen(d), "[%d]", n);
    }
    int c = mc_choose(2); if (c) nostr_event_set_content(e, "x,]\"");
    MC_NOTE("tags %s content %d", d, c);
    judge(e, "shape"); canon(e, "shape"); nostr_event_destroy(e); mc_conform();
}
static void pubkey_bytes(void)
{
    int pos = mc_choose(32); 
    for (int v = 0; v < 256; v++) { nostr_event *e = refev_new(); e->pubkey.data[pos] = v; judge(e, "pubkey"); if (v % 16 == 0) canon(e, "pubkey"); nostr_event_destroy(e); }
    mc_conform();
}
static void sizes(void)
{
    /* content/tag lengths around buffer boundaries */
    static const int L[] = { 0, 1, 55, 56, 63, 64, 127, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 4095, 4096, 8191, 16384, 65535, 65536, 70000, 200000 };
    int n = MC_PICK(L), where = mc_choose(3), ch = mc_choose(3);
    char *s = malloc(n * 2 + 1); int k = 0; for (int i = 0; i < n; i++) s[k++] = ch == 0 ? 'a' : ch == 1 ? '"' : (i % 7 ? 'b' : '\n'); s[k] = 0;
    nostr_event *e = refev_new(); put(e, where, s); judge(e, "size"); canon(e, "size");
    MC_NOTE("%d bytes of class %d at %d", n, ch, where);
    nostr_event_destroy(e); free(s); mc_conform();
}
static void many_tags(void)
{
    static const int N[] = { 0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100 };
    int n = MC_PICK(N), vals = 1 + mc_choose(12);
    nostr_event *e = refev_new();
    for (int i = 0; i < n; i++) { char b[12][24]; const char *v[12]; for (int j = 0; j < vals; j++) { sprintf(b[j], "v%d-%d", i, j); v[j] = b[j]; } nostr_event_add_tag(e, v, vals); }
    judge(e, "many tags"); canon(e, "many tags"); nostr_event_destroy(e); mc_conform();
}
/* canonical text into every buffer size */
static void buffers(void)
{
    int shape = mc_choose(3), sz = mc_choose(260);
    nostr_event *e = refev_new();
    if (shape >= 1) nostr_event_set_content(e, "say \"hi\"\n");
    if (shape >= 2) refev_tag(e, 3, "e", "\\", "\x01", 0);
    ref_buf b = {0}; refev_canonical(&b, e);
    char *buf = malloc(sz ? sz : 1); if (sz) memset(buf, '#', sz); size_t n = 0;
    nostr_relay_error_t r = nostr_event_serialize_canonical(e, buf, sz, &n);
    mc_step();
    if ((size_t)sz > b.n) MC_CHECK(r == NOSTR_RELAY_OK && n == b.n && !strcmp(buf, b.s), "canonical:buffer", "size %d of %zu: %d %s", sz, b.n, r, mc_q(buf));
    else MC_CHECK(r != NOSTR_RELAY_OK, "canonical:buffer-small-accepted", "size %d of %zu accepted", sz, b.n);
    if (sz && (size_t)sz <= b.n) MC_CHECK(r == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL, "canonical:buffer-error", "size %d of %zu: error %d", sz, b.n, r);
    mc_outcome(mc_hash_u64(MC_H0, shape * 1000 + sz)); free(buf); rb_free(&b); nostr_event_destroy(e); mc_conform();
}
/* histories: two events, mutate/compute in any order; the id is a function of the current fields only */
static void histories(void)
{
    nostr_event *e[2] = { refev_new(), refev_new() };
    int depth = mc_thorough() ? 6 : 5;
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(9); nostr_event *x = e[d & 1 && op < 4 ? 1 : 0];
        MC_NOTE("op %d", op);
        switch (op) {
        case 0: nostr_event_set_content(x, "A"); break;
        case 1: nostr_event_set_content(x, "B\""); break;
        case 2: refev_tag(x, 2, "t", "x", 0, 0); break;
        case 3: x->kind ^= 2; break;
        case 4: x->created_at++; break;
        case 5: x->pubkey.data[31] ^= 1; memset(x->sig, 0x5a, 64); break;
        case 6: judge(e[1], "history"); break;
        case 7: judge(e[0], "history"); break;
        case 8: memset(x->id, 0xff, 32); canon(x, "history"); break;
        }
    }
    judge(e[0], "history end"); judge(e[1], "history end");
    nostr_event_destroy(e[0]); nostr_event_destroy(e[1]); mc_conform();
}
static void bigconfig(void) { nostr_config c; nostr_config_get_defaults(&c); nostr_init(); }
const mc_scenario mc_scenarios[] = {
    {"one_byte", one_byte, bigconfig, 3, 0, "every byte 1..255 in content, tag name, tag value"},
    {"two_bytes", two_bytes, bigconfig, 3, 0, "every pair of bytes in content and tag value"},
    {"strings", strings, bigconfig, 3, 0, "all strings of 3 (4) elements of an alphabet of 18 escape/UTF-8 classes"},
    {"integers", integers, bigconfig, 3, 0, "38 timestamps x 14 kinds incl. extremes"},
    {"powers", powers, bigconfig, 3, 0, "all powers of two and ten with neighbours; all 65536 kinds"},
    {"shapes", shapes, bigconfig, 3, 0, "all tag lists up to 2 (3) tags of 1-3 values over 4 strings"},
    {"pubkey_bytes", pubkey_bytes, bigconfig, 3, 0, "every byte value at every pubkey position"},
    {"sizes", sizes, bigconfig, 3, 0, "24 lengths x place x escape density"},
    {"many_tags", many_tags, bigconfig, 3, 0, "up to 100 tags of up to 12 values"},
    {"buffers", buffers, bigconfig, 3, 0, "canonical text into every buffer size 0..259"},
    {"histories", histories, bigconfig, 3, 0, "all mutate/compute sequences of length 5 (6) on two events"},
    MC_END
};
