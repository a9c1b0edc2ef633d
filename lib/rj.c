#include "rj.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <sys/mman.h>
#define POOL (64u << 20)
static char *pool; static size_t used;
static void *al(size_t n)
{
    if (!pool) pool = mmap(NULL, POOL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    n = (n + 15) & ~(size_t)15;
    if (used + n > POOL) { fprintf(stderr, "rj pool exhausted\n"); abort(); }
    void *p = pool + used; used += n; memset(p, 0, n); return p;
}
void rj_reset(void) { used = 0; }
typedef struct { const char *p, *e; int len, depth; } ps;
static void ws(ps *x) { while (x->p < x->e && (x->len ? (unsigned char)*x->p <= 32 : (*x->p == ' ' || *x->p == '\t' || *x->p == '\n' || *x->p == '\r'))) x->p++; }
static int hex4(const char *p, unsigned *v)
{
    *v = 0;
    for (int i = 0; i < 4; i++) {
        char c = p[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (d < 0) return 0;
        *v = *v * 16 + d;
    }
    return 1;
}
static int str(ps *x, char **out, size_t *n)
{
    if (x->p >= x->e || *x->p != '"') return 0;
    x->p++;
    char *o = al(x->e - x->p + 1); size_t k = 0;
    for (;;) {
        if (x->p >= x->e) return 0;
        unsigned char c = *x->p++;
        if (c == '"') break;
        if (c < 32 && !x->len) return 0;
        if (c != '\\') { o[k++] = c; continue; }
        if (x->p >= x->e) return 0;
        c = *x->p++;
        switch (c) {
        case '"': case '\\': case '/': o[k++] = c; break;
        case 'b': o[k++] = '\b'; break; case 'f': o[k++] = '\f'; break;
        case 'n': o[k++] = '\n'; break; case 'r': o[k++] = '\r'; break; case 't': o[k++] = '\t'; break;
        case 'u': {
            unsigned v, w;
            if (x->e - x->p < 4 || !hex4(x->p, &v)) return 0;
            x->p += 4;
            if (v >= 0xDC00 && v <= 0xDFFF) return 0;
            if (v >= 0xD800 && v <= 0xDBFF) {
                if (x->e - x->p < 6 || x->p[0] != '\\' || x->p[1] != 'u' || !hex4(x->p + 2, &w) || w < 0xDC00 || w > 0xDFFF) return 0;
                x->p += 6; v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
            }
            if (v < 0x80) o[k++] = v;
            else if (v < 0x800) { o[k++] = 0xC0 | v >> 6; o[k++] = 0x80 | (v & 63); }
            else if (v < 0x10000) { o[k++] = 0xE0 | v >> 12; o[k++] = 0x80 | ((v >> 6) & 63); o[k++] = 0x80 | (v & 63); }
            else { o[k++] = 0xF0 | v >> 18; o[k++] = 0x80 | ((v >> 12) & 63); o[k++] = 0x80 | ((v >> 6) & 63); o[k++] = 0x80 | (v & 63); }
            break; }
        default: return 0;
        }
    }
    o[k] = 0; *out = o; *n = k; return 1;
}
static rj *value(ps *x)
{
    ws(x);
    if (x->p >= x->e) return NULL;
    rj *v = al(sizeof *v); v->raw = x->p;
    char c = *x->p;
    if (c == '"') { v->t = RJ_STR; if (!str(x, &v->s, &v->n)) return NULL; }
    else if (c == '{' || c == '[') {
        if (++x->depth > 900) return NULL;
        v->t = c == '{' ? RJ_OBJ : RJ_ARR; char close = c == '{' ? '}' : ']'; x->p++;
        rj **tail = &v->child; ws(x);
        if (x->p < x->e && *x->p == close) { x->p++; }
        else for (;;) {
            char *k = NULL; size_t kn = 0;
            ws(x);
            if (v->t == RJ_OBJ) { if (!str(x, &k, &kn)) return NULL; ws(x); if (x->p >= x->e || *x->p != ':') return NULL; x->p++; }
            rj *m = value(x); if (!m) return NULL;
            m->key = k; m->kn = kn; *tail = m; tail = &m->next; v->count++;
            ws(x);
            if (x->p >= x->e) return NULL;
            if (*x->p == ',') { x->p++; continue; }
            if (*x->p == close) { x->p++; break; }
            return NULL;
        }
        x->depth--;
    }
    else if (c == '-' || (c >= '0' && c <= '9')) {
        v->t = RJ_NUM; const char *b = x->p;
        if (x->len) {
            char t[64]; size_t k = 0;
            while (x->p + k < x->e && k < 63 && strchr("0123456789+-eE.", x->p[k]) && x->p[k]) { t[k] = x->p[k]; k++; }
            t[k] = 0; char *end; v->num = strtod(t, &end); if (end == t) return NULL;
            x->p += end - t;
        } else {
            const char *p = b; if (p < x->e && *p == '-') p++;
            if (p >= x->e || *p < '0' || *p > '9') return NULL;
            if (*p == '0') p++; else while (p < x->e && *p >= '0' && *p <= '9') p++;
            if (p < x->e && *p == '.') { p++; if (p >= x->e || *p < '0' || *p > '9') return NULL; while (p < x->e && *p >= '0' && *p <= '9') p++; }
            if (p < x->e && (*p == 'e' || *p == 'E')) { p++; if (p < x->e && (*p == '+' || *p == '-')) p++; if (p >= x->e || *p < '0' || *p > '9') return NULL; while (p < x->e && *p >= '0' && *p <= '9') p++; }
            char *t = al(p - b + 1); memcpy(t, b, p - b); v->num = strtod(t, NULL); x->p = p;
        }
        size_t n = x->p - b; int pure = n > 0 && n < 40;
        for (size_t i = 0; i < n && pure; i++) if (!((b[i] >= '0' && b[i] <= '9') || (i == 0 && b[i] == '-'))) pure = 0;
        if (pure) { char t[48]; memcpy(t, b, n); t[n] = 0; errno = 0; v->i = strtoll(t, NULL, 10); v->is_int = errno == 0; }
    }
    else if (x->e - x->p >= 4 && !memcmp(x->p, "true", 4)) { v->t = RJ_TRUE; x->p += 4; }
    else if (x->e - x->p >= 5 && !memcmp(x->p, "false", 5)) { v->t = RJ_FALSE; x->p += 5; }
    else if (x->e - x->p >= 4 && !memcmp(x->p, "null", 4)) { v->t = RJ_NULL; x->p += 4; }
    else return NULL;
    v->rawn = x->p - v->raw;
    return v;
}
rj *rj_parse(const char *text, size_t len, int lenient)
{
    ps x = { text, text + len, lenient, 0 };
    if (lenient && len >= 3 && !memcmp(text, "\xef\xbb\xbf", 3)) x.p += 3;
    rj *v = value(&x);
    if (!v) return NULL;
    if (lenient) while (x.p < x.e && (*x.p == ' ' || *x.p == '\t' || *x.p == '\n' || *x.p == '\r')) x.p++; else ws(&x);
    return x.p == x.e ? v : NULL;
}
rj *rj_get(const rj *o, const char *key)
{
    if (!o || o->t != RJ_OBJ) return NULL;
    for (rj *m = o->child; m; m = m->next) if (m->kn == strlen(key) && !memcmp(m->key, key, m->kn)) return m;
    return NULL;
}
int rj_nkey(const rj *o, const char *key)
{
    int n = 0; if (!o || o->t != RJ_OBJ) return 0;
    for (rj *m = o->child; m; m = m->next) n += m->kn == strlen(key) && !memcmp(m->key, key, m->kn);
    return n;
}
rj *rj_at(const rj *a, int i) { rj *m = a ? a->child : NULL; while (m && i-- > 0) m = m->next; return m; }
int rj_is(const rj *v, const char *s) { return v && v->t == RJ_STR && v->n == strlen(s) && !memcmp(v->s, s, v->n); }
int rj_has_nul(const rj *v)
{
    if (!v) return 0;
    if (v->t == RJ_STR && strlen(v->s) != v->n) return 1;
    if (v->key && strlen(v->key) != v->kn) return 1;
    for (rj *m = v->child; m; m = m->next) if (rj_has_nul(m)) return 1;
    return 0;
}
