/* C28: NIP-05 identifiers, the well-known URL, and the response document.
 *
 * Reference for documents: lib/rj (an independent RFC 8259 reader).  A document that is no JSON value never
 * resolves; otherwise the answer is looked up in the top-level "names" and "relays" objects alone.  Duplicate
 * members, escaped keys and very deep documents leave more than one answer open.
 */
#include "../lib/mc.h"
#include "../lib/ref.h"
#include "../lib/rj.h"
#include "../lib/guard.h"
#include "../lib/fault.h"
#include <nostr.h>
#include <stdio.h>

#define K1 "aaaa1111bbbb2222cccc3333dddd4444eeee5555ffff6666aaaa7777bbbb8888"
#define K1U "AAAA1111BBBB2222CCCC3333DDDD4444EEEE5555FFFF6666AAAA7777BBBB8888"
#define K2 "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
static void setup(void) { fault_install(); }

/* ---------- identifiers ---------- */
static int lp(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.'; }
/* 1 valid, 0 invalid, 2 open */
static int ref_ident(const char *s, size_t *at)
{
    const char *a = strchr(s, '@'); if (!a || strchr(a + 1, '@')) return 0; size_t n = a - s, d = strlen(a + 1); *at = n; int open = 0;
    if (!n || !d) return 0; for (size_t i = 0; i < n; i++) if (!lp((unsigned char)s[i])) return 0;
    const char *p = a + 1; size_t lab = 0, dots = 0; for (size_t i = 0; i < d; i++) { unsigned char c = (unsigned char)p[i]; if (c == '.') { if (!lab) return 0; if (p[i - 1] == '-') open = 1; lab = 0; dots++; continue; } if (!lp(c) || c == '_') return 0; if (!lab && c == '-') open = 1; lab++; if (lab > 63) open = 1; }
    if (!lab || !dots) return 0; if (p[d - 1] == '-') open = 1; size_t last = d - lab; if (p[last] >= '0' && p[last] <= '9') open = 1; if (n > 64 || d > 253) open = 2;
    return open ? 2 : 1;
}
static void low(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]; d[n] = 0; }
static void ident(const char *s, size_t ns, size_t ds)
{
    size_t at = 0; int v = ref_ident(s, &at); size_t len = strlen(s); const char *in = guard_copy(0, s, len + 1); char *n = guard_buf(1, ns), *d = guard_buf(2, ds); mc_eval(1);
    nostr_error_t r = nostr_nip05_parse(in, n, ns, d, ds); if (guard_under(n) || guard_under(d)) mc_report("underflow", "%s wrote before a buffer", mc_q(s));
    if (!v) { if (r == NOSTR_OK) mc_report("accepted", "%s accepted as %s / %s", mc_q(s), mc_qn(n, strnlen(n, ns)), mc_qn(d, strnlen(d, ds))); return; }
    int fits = at < ns && len - at - 1 < ds; if (r != NOSTR_OK) { if (v == 1 && fits && ns >= 2 && ds >= 4) mc_report("refused", "%s refused with buffers of %zu and %zu: %d", mc_q(s), ns, ds, r); return; }
    if (!fits) { mc_report("too-small", "%s accepted with buffers of %zu and %zu", mc_q(s), ns, ds); return; }
    char en[600], ed[600]; low(en, s, at); low(ed, s + at + 1, len - at - 1); if (strcmp(n, en) || strcmp(d, ed)) { mc_report("split", "%s split into %s / %s", mc_q(s), mc_q(n), mc_q(d)); return; }
    char u[1400]; snprintf(u, sizeof u, "https://%s/.well-known/nostr.json?name=%s", ed, en); size_t need = strlen(u) + 1; if (at > 64) return; mc_outcome(mc_hash_str(MC_H0, u));
    for (size_t sz = need - 2; sz <= need + 1; sz++) { char *b = guard_buf(3, sz); nostr_error_t q = nostr_nip05_build_url(n, d, b, sz); if (guard_under(b) || (q == NOSTR_OK) != (sz >= need) || (q == NOSTR_OK && strcmp(b, u))) { mc_report("url", "url of %s in %zu bytes: %d %s", mc_q(s), sz, q, q == NOSTR_OK ? mc_q(b) : ""); return; } }
}
static void sc_identifiers(void)
{
    static const char al[] = "aZ9-.@_/"; int L = mc_thorough() ? 8 : 7; char s[16]; int a = mc_choose(8), b = mc_choose(8); s[0] = al[a]; s[1] = al[b]; s[2] = 0; mc_step();
    if (!b) { char one[2] = { al[a], 0 }; ident(one, 80, 80); if (!a) ident("", 80, 80); } ident(s, 80, 80);
    for (int n = 3; n <= L; n++) { uint64_t tot = 1; for (int i = 2; i < n; i++) tot *= 8; for (uint64_t x = 0; x < tot; x++) { uint64_t y = x; int ats = (s[0] == '@') + (s[1] == '@'); for (int i = 2; i < n; i++) { s[i] = al[y & 7]; y >>= 3; ats += s[i] == '@'; } s[n] = 0; if (n > 5 && ats != 1) { size_t at; if (ref_ident(s, &at)) mc_fail("harness", "x"); char nb[16], db[16]; mc_eval(1); if (nostr_nip05_parse(s, nb, 16, db, 16) == NOSTR_OK) mc_report("accepted", "%s accepted", mc_q(s)); } else ident(s, 16, 16); } }
    mc_conform();
}
static void sc_bytes(void)
{
    static const char *const base[] = { "ab@c.de", "_@example.com", "b.o-b@a-b.c1.example" }; const char *s0 = MC_PICK(base); size_t n = strlen(s0); int pos = mc_choose(24), ins = mc_choose(2); if ((size_t)pos >= n + (size_t)ins) mc_discard(); char s[64]; mc_step();
    for (int c = 1; c < 256; c++) { memcpy(s, s0, pos); s[pos] = (char)c; strcpy(s + pos + 1, s0 + pos + (ins ? 0 : 1)); ident(s, 80, 80); } memcpy(s, s0, pos); strcpy(s + pos, s0 + pos + (pos < (int)n)); ident(s, 80, 80); mc_conform();
}
static void sc_lengths(void)
{
    int nl = mc_choose(71); static const int dl[] = { 0, 1, 2, 3, 4, 5, 10, 63, 100, 252, 253, 254, 255, 256, 257, 300, 500 }; int d = MC_PICK(dl); char s[700]; size_t n = 0; mc_step();
    for (int i = 0; i < nl; i++) s[n++] = (char)('a' + i % 26); s[n++] = '@'; for (int i = 0; i < d; i++) { s[n++] = (char)((i % 40 == 39 || i == d - 2) && i && i < d - 1 && s[n - 1] != '.' ? '.' : 'a' + i % 20); } s[n] = 0;
    static const int delta[] = { -2, -1, 0, 1, 2 }; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { int ns = nl + delta[i], ds = d + delta[j]; if (ns >= 0 && ds >= 0) ident(s, (size_t)ns, (size_t)ds); } for (int z = 0; z < 6; z++) { ident(s, (size_t)z, 300); ident(s, 80, (size_t)z); } ident(s, 600, 600); ident(s, 65, 257); mc_conform();
}

/* ---------- response documents ---------- */
static int depth_of(const rj *v) { int m = 0; for (const rj *c = v->child; c; c = c->next) { int d = depth_of(c); if (d > m) m = d; } return m + 1; }
static int hex64(const rj *v) { return v && v->t == RJ_STR && v->n == 64 && ref_is_hex(v->s, 64); }
static int listed(const rj *v, int i, const char *s) { const rj *e = rj_at(v, i); return rj_is(e, s); }
static int plain(const rj *e) { for (size_t i = 0; i < e->n; i++) if ((unsigned char)e->s[i] <= ' ' || (unsigned char)e->s[i] > '~' || e->s[i] == '\\' || e->s[i] == '"') return 0; return 1; }
static int wsurl(const rj *e) { return e->t == RJ_STR && (!strncmp(e->s, "ws://", 5) || !strncmp(e->s, "wss://", 6)); }
/* what must / may a well-behaved reader answer?  returns 1 must be *key, 0 must fail, 2 may be any of keys[] or fail */
static int ref_names(const rj *root, const char *name, char keys[8][65], int *nk, int relaxed)
{
    *nk = 0; int nm = 0, sure = 0, total = 0; if (!root || root->t != RJ_OBJ) return 0;
    for (const rj *m = root->child; m; m = m->next) { if (m->kn != 5 || memcmp(m->key, "names", 5)) continue; nm++; if (m->t != RJ_OBJ) continue; for (const rj *e = m->child; e; e = e->next) { if (e->kn != strlen(name) || memcmp(e->key, name, e->kn)) continue; total++; if (hex64(e) && *nk < 8) { low(keys[(*nk)++], e->s, 64); int up = 0; for (int i = 0; i < 64; i++) up |= e->s[i] >= 'A' && e->s[i] <= 'F'; sure = !up; } } }
    if (!*nk) return 0; return nm == 1 && total == 1 && sure && !relaxed ? 1 : 2;
}
static void judge(const char *doc, size_t dl, const char *name, const char *what)
{
    rj_reset(); rj *strict = rj_parse(doc, dl, 0), *root = strict ? strict : rj_parse(doc, dl, 1); int relaxed = !strict || memchr(doc, '\\', dl) != NULL || dl > 1024 * 1024 || strlen(name) > 64; if (root && depth_of(root) > 20) relaxed = 1;
    if (relaxed && strict && !strstr(doc, "\\u") && !strstr(doc, "\\\"") && dl <= 1024 * 1024 && strlen(name) <= 64 && depth_of(root) <= 20) relaxed = 0; /* only \/ and the like */
    char keys[8][65]; int nk; int v = ref_names(root, name, keys, &nk, relaxed); mc_eval(1);
    char *in = guard_copy(0, doc, dl + 1); char *pk = guard_buf(1, 65); char **rl = (char **)1; size_t rc = 99; nostr_error_t r = nostr_nip05_parse_response(in, name, pk, 65, &rl, &rc);
    if (guard_under(pk)) mc_report("underflow", "wrote before the key buffer: %s", what);
    char pk2[65]; memset(pk2, 'q', 65); nostr_error_t r2 = nostr_nip05_parse_response(in, name, pk2, 65, NULL, NULL); char t[65]; if (nostr_nip05_parse_response(in, name, t, 64, NULL, NULL) == NOSTR_OK) mc_report("small-buffer", "%s resolved into 64 bytes", what);
    if (r == NOSTR_OK && (r2 != NOSTR_OK || memcmp(pk, pk2, 65))) mc_report("without-relays", "%s: differs when no relays are asked for: %d", what, r2);
    if (r != NOSTR_OK && r2 == NOSTR_OK && v != 2) mc_report("relays-fail", "%s: fails (%d) only when relays are asked for", what, r);
    if (r2 == NOSTR_OK) { int ok = 0; for (int i = 0; i < nk; i++) ok |= pk2[64] == 0 && !strcmp(pk2, keys[i]); if (!ok) mc_report(v ? "wrong-key" : root ? "resolved" : "malformed-resolved", "%s resolves to %s: %s", mc_q(name), mc_qn(pk2, strnlen(pk2, 65)), what); }
    else if (v == 1) mc_report("not-resolved", "%s does not resolve (%d): %s", mc_q(name), r2, what);
    if (r != NOSTR_OK) { if (rl != NULL || rc != 0) mc_report("dangling", "failed with relays %p count %zu: %s", (void *)rl, rc, what); return; }
    mc_outcome(mc_hash_str(mc_hash_u64(MC_H0, rc), pk));
    /* relays: some array listed for that key accounts for all of them */
    int arrs = 0, match = 0, rel = 0, complete = 0, uk = 0; if (root) for (const rj *m = root->child; m; m = m->next) { if (m->kn != 6 || memcmp(m->key, "relays", 6)) continue; rel++; if (m->t != RJ_OBJ) continue; for (const rj *e = m->child; e; e = e->next) { char kl[65]; if (e->kn != 64) continue; low(kl, e->key, 64); if (strcmp(kl, pk)) continue; arrs++; if (strcmp(e->key, pk)) uk = 1; if (e->t != RJ_ARR) continue;
        int i = 0, good = 1, all = 1; for (size_t k = 0; k < rc; k++) { while (i < e->count && !listed(e, i, rl[k])) { if (wsurl(rj_at(e, i)) && plain(rj_at(e, i))) all = 0; i++; } if (i >= e->count || !wsurl(rj_at(e, i))) good = 0; i++; } for (; i < e->count; i++) if (wsurl(rj_at(e, i)) && strlen(rj_at(e, i)->s) > 6 && plain(rj_at(e, i))) all = 0; if (good) { match = 1; complete |= all; } } }
    if (rc && !match) mc_report("wrong-relays", "%zu relays (first %s) are not those listed for %s: %s", rc, rl[0] ? mc_q(rl[0]) : "NULL", pk, what);
    if (rel == 1 && arrs == 1 && match && !complete && !relaxed && !uk) mc_report("relays-missing", "only %zu relays of those listed: %s", rc, what); if (rel == 1 && arrs == 1 && !match && !rc && !relaxed && !uk) { const rj *o = rj_get(root, "relays"); for (const rj *e = o->child; e; e = e->next) { if (e->t == RJ_ARR) for (int i = 0; i < e->count; i++) if (e->kn == 64 && !memcmp(e->key, pk, 64) && wsurl(rj_at(e, i)) && strlen(rj_at(e, i)->s) > 6 && plain(rj_at(e, i))) { mc_report("relays-missing", "no relays: %s", what); break; } } }
    nostr_nip05_free_relays(rl, rc);
}
static const char *const M[] = {
    "\"names\":{\"bob\":\"" K1 "\"}", "\"names\":{\"alice\":\"" K2 "\"}", "\"names\":{\"alice\":\"" K2 "\",\"bob\":\"" K1 "\"}", "\"names\":{\"bob\":\"" K1 "\",\"alice\":\"" K2 "\"}", "\"names\":{}", "\"names\":{\"x\":{\"bob\":\"" K2 "\"}}", "\"names\":{\"alice\":\"bob\",\"z\":\"" K2 "\"}", "\"names\":{\"Bob\":\"" K2 "\"}", "\"names\":{\"bobby\":\"" K2 "\",\"abob\":\"" K2 "\"}", "\"names\":{\"bob\":null}",
    "\"names\":{\"bob\":[\"" K2 "\"]}", "\"names\":{\"bob\":{\"bob\":\"" K2 "\"}}", "\"names\":{\"bob\":\"0123abc\"}", "\"names\":{\"bob\":\"" K2 "0\"}", "\"names\":{\"bob\":\"g123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\"}", "\"names\":[{\"bob\":\"" K2 "\"}]", "\"names\":\"bob\"", "\"names\":null",
    "\"x\":{\"names\":{\"bob\":\"" K2 "\"}}", "\"nip46\":{\"bob\":\"" K2 "\"}", "\"bob\":\"" K2 "\"", "\"c\":\"\\\"names\\\":{\\\"bob\\\":\\\"" K2 "\\\"}\"", "\"Names\":{\"bob\":\"" K2 "\"}", "\"names\":{\"bob\":\"" K1U "\"}", "\"names\":{\"\\u0062ob\":\"" K2 "\"}", "\"n\\u0061mes\":{\"bob\":\"" K2 "\"}", "\"names\":{\"bob\":\"\\u0030123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\"}",
    "\"names\":{\"bob\":\"" K1 "\",\"bob\":\"" K2 "\"}", "\"names\":{\"z\":[\"bob\",\"" K2 "\"],\"y\":true,\"bob\":\"" K1 "\"}", "\"k\":[\"names\",{\"bob\":\"" K2 "\"}]", "\"k\":\"names\"", "\"names\":{\"z\":\"\\\\\",\"bob\":\"" K1 "\"}", "\"k\\\"\":\"\\\\\"", "\"names\":{\"bob\":12}",
    "\"relays\":{\"" K1 "\":[\"wss://one.example\",\"ws://two.example:99/p\"]}", "\"relays\":{\"" K2 "\":[\"wss://three.example\"]}", "\"relays\":{\"" K1 "\":[]}", "\"relays\":{\"" K1 "\":[\"https://x.example\",\"wss://one.example\",\"\"]}", "\"relays\":{\"" K1 "\":[\"wss:\\/\\/one.example\\/a\"]}", "\"relays\":{\"" K1 "\":[\"wss://one.example\",5,null,[\"wss://no.example\"],{\"a\":\"wss://no.example\"},\"wss://two.example\"]}",
    "\"relays\":{\"x\":{\"" K1 "\":[\"wss://no.example\"]}}", "\"relays\":{\"" K1 "\":\"wss://no.example\"}", "\"relays\":{\"" K1 "\":[\"wss://one.example/]\",\"wss://two.example/}{\"]}", "\"relays\":{\"" K1 "\":[\"wss://one.example\\\"x\",\"wss://two.example\"]}", "\"relays\":[\"wss://no.example\"]", "\"nip46\":{\"" K1 "\":[\"wss://no.example\"]}", "\"z\":{\"relays\":{\"" K1 "\":[\"wss://no.example\"]}}", "\"relays\":{\"z\":\"" K1 "\",\"y\":[\"wss://no.example\"]}", "\"relays\":{\"y\":[\"" K1 "\",\"wss://no.example\"],\"" K1 "\":[\"wss://one.example\"]}", "\"" K1 "\":[\"wss://no.example\"]", "\"Relays\":{\"" K1 "\":[\"wss://no.example\"]}", "\"relays\":{\"" K1U "\":[\"wss://one.example\"]}",
    "\"relays\":{\"" K2 "\":[\"wss://three.example\"],\"" K1 "\":[\"wss://one.example\"]}", "\"relays\":{\"" K1 "\":[\"wss://one.example\"],\"" K2 "\":[\"wss://three.example\"]}", "\"relays\":null", "\"n\":-1.5e3,\"t\":[true,false,null,{}]",
};
static void sc_documents(void)
{
    int N = MC_LEN(M), k[4], n = mc_thorough() ? 4 : 3; k[0] = mc_choose(N); k[1] = mc_choose(N + 1) - 1; if (k[1] < 0) n = 1; mc_step(); static const char *const SEP[] = { ",", " , " }; char d[4000];
    int lim2 = n > 2 ? N : 0, lim3 = n > 3 ? N : 0;
    for (int x = -1; x < lim2; x++) for (int y = -1; y < (x < 0 ? 0 : lim3); y++) for (int w = 0; w < 2; w++) { int ix[4] = { k[0], k[1], x, y }; size_t l = 0; d[l++] = '{'; if (w) { d[l++] = '\n'; d[l++] = '\t'; } int first = 1; for (int i = 0; i < 4; i++) { if (ix[i] < 0) continue; if (!first) { strcpy(d + l, SEP[w]); l += strlen(SEP[w]); } first = 0; const char *m = M[ix[i]]; if (!w) { strcpy(d + l, m); l += strlen(m); } else { int q = 0; for (const char *c = m; *c; c++) { if (*c == '"') { int b = 0; for (const char *z = c - 1; z >= m && *z == '\\'; z--) b++; if (!(b & 1)) q = !q; } if (!q && strchr(":{}[],", *c)) { d[l++] = ' '; d[l++] = *c; d[l++] = *c == ':' ? '\n' : '\r'; } else d[l++] = *c; } } } if (w) d[l++] = ' '; d[l++] = '}'; d[l] = 0; judge(d, l, "bob", d); if (n > 3) break; }
    mc_conform();
}
static const char *const B[] = {
    "{\"names\":{\"bob\":\"" K1 "\"}}", "{ \"names\": { \"alice\": \"" K2 "\", \"bob\": \"" K1 "\" },\n \"relays\": { \"" K1 "\": [ \"wss://one.example\", \"ws://two.example\" ] } }\n", "{\"c\":\"x\\\"\\\\y\",\"relays\":{\"" K1 "\":[\"wss://one.example\"]},\"names\":{\"bob\":\"" K1 "\"},\"n\":[1,-2.5e1,true,null]}",
};
static void sc_damage(void)
{
    const char *b = MC_PICK(B); size_t n = strlen(b); int blk = mc_choose(48); char d[1000]; mc_step(); size_t lo = n * blk / 48, hi = n * (blk + 1) / 48;
    for (size_t p = lo; p < hi; p++) {
        memcpy(d, b, p); d[p] = 0; judge(d, p, "bob", d);
        for (int c = 1; c < 256; c++) { strcpy(d, b); d[p] = (char)c; judge(d, n, "bob", d); memcpy(d, b, p); d[p] = (char)c; strcpy(d + p + 1, b + p); judge(d, n + 1, "bob", d); }
        memcpy(d, b, p); strcpy(d + p, b + p + 1); judge(d, n - 1, "bob", d); if (p + 2 <= n) { strcpy(d + p, b + p + 2); judge(d, n - 2, "bob", d); }
    }
    if (!blk) { judge(b, n, "bob", b); static const char *const T[] = { "x", "}", "]", ",", "{}", "\"", " \n\t\r", "\x01", "null", "{\"names\":{\"bob\":\"" K2 "\"}}", ":" }; for (int i = 0; i < MC_LEN(T); i++) { strcpy(d, b); strcat(d, T[i]); judge(d, strlen(d), "bob", d); strcpy(d, T[i]); strcat(d, b); judge(d, strlen(d), "bob", d); } }
    mc_conform();
}
static void sc_roots(void)
{
    static const char *const W[][2] = { { "[", "]" }, { "{\"x\":", "}" }, { "\"", "\"" }, { "", "" }, { "[[", "]]" }, { "{\"names\":", "}" }, { "{\"names\":{\"names\":", "}}" }, { "{\"relays\":", "}" }, { "[\"names\",", "]" }, { "\xEF\xBB\xBF", "" }, { "(", ")" }, { "callback(", ")" }, { "<html>", "</html>" }, { "{", "}" }, { "", "\n\n" } };
    int i = mc_choose(MC_LEN(W)), j = mc_choose(MC_LEN(W)), b = mc_choose(MC_LEN(B)); char d[1200]; snprintf(d, sizeof d, "%s%s%s%s%s", W[i][0], W[j][0], B[b], W[j][1], W[i][1]); mc_step(); judge(d, strlen(d), "bob", d); mc_conform();
}
static void sc_names(void)
{
    static const char *const NM[] = { "bob", "_", "a.b-c_d9", "Bob", "bo", "bobb", "", "b\"ob", "b\\ob", "bob\":\"", "names", "relays", "%s%s%n", "0123456789012345678901234567890123456789012345678901234567890123", "01234567890123456789012345678901234567890123456789012345678901234", K1, "b b", "b\xc3\xa9", "alice" }; const char *ask = MC_PICK(NM), *has = MC_PICK(NM); char d[1000], e[200]; size_t l = 0; mc_step();
    for (const char *c = has; *c; c++) { if (*c == '"' || *c == '\\') e[l++] = '\\'; e[l++] = *c; } e[l] = 0; for (int v = 0; v < 3; v++) { snprintf(d, sizeof d, v == 0 ? "{\"names\":{\"%s\":\"" K1 "\"}}" : v == 1 ? "{\"names\":{\"x\":\"%s\",\"y\":\"" K2 "\"}}" : "{\"names\":{\"zed\":\"" K2 "\",\"%s\":\"" K1 "\"},\"relays\":{\"" K1 "\":[\"wss://one.example\"],\"" K2 "\":[\"wss://two.example\"]}}", e); 
        if (!*ask || strpbrk(ask, "\"\\ \xc3") || strlen(ask) > 64) { char k[65]; mc_eval(1); if (nostr_nip05_parse_response(d, ask, k, 65, NULL, NULL) == NOSTR_OK && (strcmp(ask, has) || v == 1 || strcmp(k, K1))) mc_report("odd-name", "%s resolves in %s", mc_q(ask), d); } else judge(d, strlen(d), ask, d); } mc_conform();
}
static void sc_keybytes(void)
{
    int p = mc_choose(66); char d[400]; mc_step(); for (int c = 1; c < 256; c++) { char k[80]; strcpy(k, K1); if (p < 64) k[p] = (char)c; else { k[64] = (char)c; k[65] = 0; if (p == 65) memmove(k, k + 1, 65); } snprintf(d, sizeof d, "{\"names\":{\"bob\":\"%s\"},\"relays\":{\"" K1 "\":[\"wss://one.example\"]}}", k); judge(d, strlen(d), "bob", d); } mc_conform();
}
static void sc_relays(void)
{
    /* lists of up to 4 entries */
    static const char *const E[] = { "\"wss://a.example\"", "\"ws://b\"", "\"wss:\\/\\/c.example\"", "\"http://d\"", "\"\"", "\"wss://\"", "7", "[\"wss://n\"]", "{\"wss://m\":\"wss://o\"}", "\"WSS://e.example\"", "\"wss://f/?x=[1,2]\"", "\"xwss://g\"", "\"wss://h\\u002ei\"", "\"ws://j\\\"\"", "null", "\"wss:/k\"" };
    int n = mc_choose(5), ix[4]; char d[1200]; size_t l = (size_t)sprintf(d, "{\"names\":{\"bob\":\"" K1 "\"},\"relays\":{\"" K1 "\":["); mc_step(); for (int i = 0; i < n; i++) { ix[i] = mc_choose(MC_LEN(E)); l += (size_t)sprintf(d + l, "%s%s", i ? "," : "", E[ix[i]]); } strcpy(d + l, "]}}"); judge(d, strlen(d), "bob", d); mc_conform();
}
static void sc_manyrelays(void)
{
    int n = mc_choose(130); static char d[1 << 16]; size_t l = (size_t)sprintf(d, "{\"names\":{\"bob\":\"" K1 "\"},\"relays\":{\"" K1 "\":["); mc_step(); for (int i = 0; i < n; i++) l += (size_t)sprintf(d + l, "%s\"wss://r%d.example\"", i ? "," : "", i); strcpy(d + l, "]}}"); if (n <= 100) { judge(d, strlen(d), "bob", "n relays"); } else { char k[65]; char **r; size_t c; nostr_error_t e = nostr_nip05_parse_response(d, "bob", k, 65, &r, &c); if (e == NOSTR_OK) { for (size_t i = 0; i < c; i++) { char w[40]; sprintf(w, "wss://r%zu.example", i); MC_CHECK(!strcmp(r[i], w), "wrong-relays", "relay %zu is %s", i, r[i]); } nostr_nip05_free_relays(r, c); } } mc_conform();
}
static void sc_deep(void)
{
    static const int D[] = { 1, 5, 18, 19, 40, 62, 63, 64, 65, 66, 100, 1000, 20000, 200000 }; int k = MC_PICK(D), kind = mc_choose(3), closed = mc_choose(2); char *d = malloc((size_t)k * 8 + 400); size_t l = 0; mc_step(); l += (size_t)sprintf(d + l, "{\"x\":"); for (int i = 0; i < k; i++) { const char *o = kind == 0 ? "[" : kind == 1 ? "{\"a\":" : (i & 1) ? "[" : "{\"a\":"; strcpy(d + l, o); l += strlen(o); } d[l++] = '1'; if (closed) for (int i = k - 1; i >= 0; i--) d[l++] = kind == 0 ? ']' : kind == 1 ? '}' : (i & 1) ? ']' : '}';
    l += (size_t)sprintf(d + l, ",\"names\":{\"bob\":\"" K1 "\"}}"); if (k <= 1000) judge(d, l, "bob", "deep document"); else { char pk[65]; mc_eval(1); if (nostr_nip05_parse_response(d, "bob", pk, 65, NULL, NULL) == NOSTR_OK && (!closed || strcmp(pk, K1))) mc_report("deep", "unclosed deep document resolves"); } free(d); mc_conform();
}
static void sc_big(void)
{
    static const int S[] = { 1000, 65536, (1 << 20) - 200, (1 << 20) - 100, 1 << 20, (1 << 20) + 1, 1500000 }; int n = MC_PICK(S), after = mc_choose(2); char *d = malloc((size_t)n + 10); size_t l = 0; mc_step(); const char *nm = "\"names\":{\"bob\":\"" K1 "\"}"; l += (size_t)sprintf(d, after ? "{\"p\":\"" : "{%s,\"p\":\"", nm); size_t tail = after ? strlen(nm) + 3 : 2; while (l + tail < (size_t)n) d[l++] = 'x'; l += (size_t)sprintf(d + l, after ? "\",%s}" : "\"}", nm); judge(d, l, "bob", "large document"); free(d); mc_conform();
}

/* ---------- verify ---------- */
static const char *cb_doc; static size_t cb_len; static nostr_error_t cb_err; static int cb_calls, cb_null, cb_mode; static char cb_url[600];
static nostr_error_t cb(const char *url, char **resp, size_t *len, void *ud)
{
    cb_calls++; if (ud != (void *)&cb_calls) mc_fail("user_data", "callback got other user data"); snprintf(cb_url, sizeof cb_url, "%s", url);
    if (!cb_null) { fault_disarm(); *resp = malloc(cb_len ? cb_len : 1); if (cb_len) memcpy(*resp, cb_doc, cb_len); *len = cb_len; if (cb_mode) fault_arm(); } else { *resp = NULL; *len = cb_len; }
    return cb_err;
}
static void sc_verify(void)
{
    static const char *const ID[] = { "bob@example.com", "BOB@Example.COM", "alice@a.b", "bob@example", "bobexample.com", "_@x.y.z", "" }; static const char *const EK[] = { K1, K2, K1U, "aaaa", "", K1 "0" }; int id = mc_choose(MC_LEN(ID)), ek = mc_choose(MC_LEN(EK)), doc = mc_choose(7); cb_err = mc_choose(2) ? NOSTR_ERR_TIMEOUT : NOSTR_OK; cb_null = mc_choose(2); int rels = mc_choose(4); cb_calls = 0; cb_mode = 0; mc_step();
    static const char *const D[] = { "{\"names\":{\"bob\":\"" K1 "\",\"_\":\"" K2 "\"},\"relays\":{\"" K1 "\":[\"wss://one.example\"],\"" K2 "\":[\"wss://two.example\"]}}", "{\"names\":{\"alice\":\"" K2 "\"}}", "", "not json", "{\"names\":{\"bob\":\"" K1U "\"}}", "{\"names\":{\"BOB\":\"" K2 "\",\"Bob\":\"" K2 "\"}}", "{\"names\":{\"bob\":\"" K2 "\"}" };
    cb_doc = D[doc]; cb_len = strlen(cb_doc); fault_reset(); fault_track(1); char **rl = (char **)1; size_t rc = 99; nostr_error_t r = nostr_nip05_verify(ID[id], EK[ek], cb, &cb_calls, rels & 1 ? &rl : NULL, rels & 2 ? &rc : NULL); mc_eval(1);
    size_t at; int vid = ref_ident(ID[id], &at); char key[65] = "", nm[80] = "", dm[80] = ""; if (vid) { low(nm, ID[id], at); low(dm, ID[id] + at + 1, strlen(ID[id]) - at - 1); char u[300]; snprintf(u, sizeof u, "https://%s/.well-known/nostr.json?name=%s", dm, nm); if (cb_calls > 1) mc_fail("calls", "callback called %d times", cb_calls); if (cb_calls && strcmp(u, cb_url)) mc_fail("wrong-url", "%s fetched from %s", ID[id], cb_url); } else { if (cb_calls) mc_fail("fetched", "%s fetched", ID[id]); }
    int open = vid == 2; if (vid) { rj_reset(); rj *root = rj_parse(cb_doc, cb_len, 0); char keys[8][65]; int nk, v = ref_names(root, nm, keys, &nk, 0); if (v) { strcpy(key, keys[0]); if (v == 2) open = 1; } }
    char ekl[80]; low(ekl, EK[ek], strlen(EK[ek])); int good = vid && cb_err == NOSTR_OK && !cb_null && *key && !strcmp(key, ekl); if (ek == 2) open = 1;
    if (r == NOSTR_OK && !good) mc_fail("verified", "%s verified as %s with %s (callback %d)", ID[id], EK[ek], cb_doc, cb_err); if (r != NOSTR_OK && good && !open) mc_fail("not-verified", "%s not verified: %d", ID[id], r); if (vid && cb_calls && cb_err != NOSTR_OK && r != cb_err) mc_report("error-lost", "callback error %d becomes %d", cb_err, r);
    if (r != NOSTR_OK) { if ((rels & 1 && rl) || (rels & 2 && rc)) mc_fail("dangling", "failed with relays %p %zu", (void *)rl, rc); }
    else if (rels == 3) { const char *want = doc == 0 ? (!strcmp(key, K1) ? "wss://one.example" : "wss://two.example") : NULL; if (rc != (size_t)(want != NULL) || (want && strcmp(rl[0], want))) mc_fail("wrong-relays", "%zu relays", rc); nostr_nip05_free_relays(rl, rc); }
    else if (rels == 1 && rl) { mc_fail("uncounted", "relays without a count"); } else if (rels == 2 && rc) mc_fail("uncounted", "%zu relays counted but not returned", rc);
    if (r == NOSTR_OK) mc_outcome(mc_hash_u64(mc_hash_str(MC_H0, ID[id]), (uint64_t)(doc * 100 + rels))); if (fault_live()) mc_fail("leak", "%ld blocks: %s", fault_live(), fault_live_desc()); fault_track(0); mc_conform();
}
/* the expected key against the listed key, digit by digit: equal only when all 64 digits are */
static void sc_digits(void)
{
    static const char HX[] = "0123456789abcdefABCDEF"; int pos = mc_choose(64), side = mc_choose(2); char a[65], b[65], d[200]; strcpy(a, K1); strcpy(b, K1); cb_err = NOSTR_OK; cb_null = 0; cb_mode = 0; mc_step();
    for (int i = 0; HX[i]; i++) for (int q = -1; q < 64; q++) { strcpy(side ? b : a, K1); (side ? b : a)[pos] = HX[i]; if (q >= 0) { if (q == pos) continue; char *x = &(side ? b : a)[q]; *x = *x == '0' ? '1' : '0'; } sprintf(d, "{\"names\":{\"bob\":\"%s\"}}", a); cb_doc = d; cb_len = strlen(d); cb_calls = 0; char al[80], bl[80]; low(al, a, 64); low(bl, b, 64); mc_eval(1);
        nostr_error_t r = nostr_nip05_verify("bob@example.com", b, cb, &cb_calls, NULL, NULL); int same = !strcmp(al, bl), plain = !strcmp(a, al) && !strcmp(b, bl); if (r == NOSTR_OK && !same) mc_fail("verified", "listed %s verified as %s", a, b); if (r != NOSTR_OK && same && plain) mc_fail("not-verified", "%s not verified: %d", b, r); }
    mc_conform(); mc_outcome((uint64_t)(pos * 2 + side)); MC_NOTE("digit %d of the %s key", pos, side ? "expected" : "listed");
}
static void sc_oom(void)
{
    mc_set_dev_bound(mc_thorough() ? 2 : 1); int nr = mc_choose(9), ver = mc_choose(2), bad = mc_choose(3); static char d[3000]; size_t l = (size_t)sprintf(d, "{\"names\":{\"bob\":\"" K1 "\"},\"relays\":{\"" K1 "\":["); for (int i = 0; i < nr; i++) l += (size_t)sprintf(d + l, "%s\"%s://r%d.example\"", i ? "," : "", i % 3 == bad ? "http" : "wss", i); l += (size_t)sprintf(d + l, "]}}"); mc_step();
    fault_reset(); fault_track(1); fault_arm(); char **rl = (char **)1; size_t rc = 77; char k[65]; nostr_error_t r; cb_doc = d; cb_len = l; cb_err = NOSTR_OK; cb_null = 0; cb_mode = 1; cb_calls = 0; if (ver) r = nostr_nip05_verify("bob@example.com", K1, cb, &cb_calls, &rl, &rc); else r = nostr_nip05_parse_response(d, "bob", k, 65, &rl, &rc); fault_disarm(); int want = 0; for (int i = 0; i < nr; i++) want += i % 3 != bad;
    if (r == NOSTR_OK) { MC_CHECK(rc == (size_t)want, "truncated", "%zu of %d relays", rc, want); for (size_t i = 0; i < rc; i++) if (strncmp(rl[i], "wss://r", 7)) mc_fail("altered", "relay %s", rl[i]); nostr_nip05_free_relays(rl, rc); } else { MC_CHECK(fault_injected(), "spurious", "error %d without failure", r); MC_CHECK(!rl && !rc, "dangling", "failed with %p %zu", (void *)rl, rc); }
    mc_outcome((uint64_t)(r + 100)); MC_CHECK(!fault_live(), "leak", "%ld blocks: %s", fault_live(), fault_live_desc()); fault_track(0); mc_conform();
}
const mc_scenario mc_scenarios[] = {
    { "identifiers", sc_identifiers, setup, 3, 600, "every identifier of up to 7 (8) characters over {a Z 9 - . @ _ /}" },
    { "bytes", sc_bytes, setup, 3, 60, "every byte value at, before and instead of every position of three identifiers" },
    { "lengths", sc_lengths, setup, 3, 60, "local parts of 0..70 and domains of 17 lengths x buffer sizes around every needed size" },
    { "documents", sc_documents, setup, 3, 600, "every document of up to 3 (4) members out of 56, compact and spaced" },
    { "damage", sc_damage, setup, 3, 120, "three documents cut at every byte, every byte replaced by and preceded by every value, one or two bytes removed" },
    { "roots", sc_roots, setup, 3, 20, "documents wrapped in every pair of 15 wrappings" },
    { "names", sc_names, setup, 3, 20, "19 x 19 asked and listed names in three positions" },
    { "keybytes", sc_keybytes, setup, 3, 20, "every byte at every position of the key" },
    { "relays", sc_relays, setup, 3, 60, "relay lists of up to 4 entries out of 16" },
    { "manyrelays", sc_manyrelays, setup, 3, 20, "0..129 relays" },
    { "deep", sc_deep, setup, 3, 60, "nesting 1..200000, closed or not" },
    { "big", sc_big, setup, 3, 60, "documents around 1 MiB" },
    { "verify", sc_verify, setup, 3, 20, "7 identifiers x 6 expected keys x 7 responses x callback results x outputs wanted" },
    { "digits", sc_digits, setup, 3, 20, "every digit of the listed or expected key replaced by every hex digit, alone and with every other digit changed too" },
    { "oom", sc_oom, setup, 3, 20, "every single (pair of) allocation failure with 0..8 relays" },
    MC_END
};
