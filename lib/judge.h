#ifndef JUDGE_H
#define JUDGE_H
/* Independent verdicts on event and filter objects read by rj, shared by C03, C09, C10 and the relay checks. */
#include <ctype.h>
#include "refev.h"
#include "rj.h"
#include <nostr_relay_protocol.h>
enum { MUST_FAIL, MUST_OK, EITHER };
#define MAXI 9007199254740991.0
static inline int hexmember(const rj *o, const char *k, size_t n, int *v)
{
    const rj *m = rj_get(o, k);
    if (!m) { if (*v == MUST_OK) *v = EITHER; return 0; }
    if (m->t != RJ_STR || m->n != n || !ref_is_hex(m->s, n)) *v = MUST_FAIL;
    return 1;
}
static inline void intmember(const rj *o, const char *k, double lo, double hi, int *v)
{
    const rj *m = rj_get(o, k);
    if (!m) { if (*v == MUST_OK) *v = EITHER; return; }
    if (m->t != RJ_NUM || !(m->num >= lo && m->num <= hi) || m->num != (double)(int64_t)m->num) { *v = MUST_FAIL; return; }
    if (!m->is_int && *v == MUST_OK) *v = EITHER;
}
static inline int jev_judge(const rj *o, int strict)
{
    if (!o || o->t != RJ_OBJ) return MUST_FAIL;
    int v = strict ? MUST_OK : EITHER;
    static const char *const K[] = { "id", "pubkey", "created_at", "kind", "tags", "content", "sig" };
    for (int i = 0; i < 7; i++) if (rj_nkey(o, K[i]) > 1) v = EITHER;
    hexmember(o, "id", 64, &v); hexmember(o, "pubkey", 64, &v); hexmember(o, "sig", 128, &v);
    intmember(o, "kind", 0, 65535, &v); intmember(o, "created_at", -MAXI, MAXI, &v);
    const rj *c = rj_get(o, "content"); if (!c) { if (v == MUST_OK) v = EITHER; } else if (c->t != RJ_STR || rj_has_nul(c)) v = MUST_FAIL;
    const rj *tg = rj_get(o, "tags");
    if (!tg) { if (v == MUST_OK) v = EITHER; }
    else if (tg->t != RJ_ARR) v = MUST_FAIL;
    else for (const rj *x = tg->child; x; x = x->next) {
        if (x->t != RJ_ARR) { v = MUST_FAIL; break; }
        if (!x->count && v == MUST_OK) v = EITHER;         /* an empty tag: refused, or kept as it is */
        for (const rj *y = x->child; y; y = y->next) if (y->t != RJ_STR || rj_has_nul(y)) v = MUST_FAIL;
    }
    if (v == MUST_OK && rj_has_nul(o)) v = EITHER;
    return v;
}
static inline int fields_match(const nostr_event *e, const rj *o, const char **why)
{
    uint8_t b[64] = {0}; const rj *m;
    if ((m = rj_get(o, "id"))) ref_unhex(m->s, 64, b); if (memcmp(b, e->id, 32)) { *why = "id"; return 0; }
    memset(b, 0, 64); if ((m = rj_get(o, "pubkey"))) ref_unhex(m->s, 64, b); if (memcmp(b, e->pubkey.data, 32)) { *why = "pubkey"; return 0; }
    memset(b, 0, 64); if ((m = rj_get(o, "sig"))) ref_unhex(m->s, 128, b); if (memcmp(b, e->sig, 64)) { *why = "sig"; return 0; }
    if ((m = rj_get(o, "kind")) ? e->kind != (int)m->num : e->kind) { *why = "kind"; return 0; }
    if ((m = rj_get(o, "created_at"))) if (e->created_at != (int64_t)m->num) { *why = "created_at"; return 0; }
    m = rj_get(o, "content"); if (strcmp(e->content ? e->content : "", m ? m->s : "")) { *why = "content"; return 0; }
    m = rj_get(o, "tags");
    if ((int)e->tags_count != (m ? m->count : 0)) { *why = "number of tags"; return 0; }
    int i = 0;
    for (const rj *x = m ? m->child : NULL; x; x = x->next, i++) {
        if ((int)e->tags[i].count != x->count) { *why = "number of tag values"; return 0; }
        int j = 0; for (const rj *y = x->child; y; y = y->next, j++) if (!e->tags[i].values[j] || strcmp(e->tags[i].values[j], y->s)) { *why = "tag value"; return 0; }
    }
    return 1;
}
static inline int lowhex(const char *s, size_t n) { for (size_t i = 0; i < n; i++) if (!((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f'))) return 0; return 1; }
static inline void strarr(const rj *m, int what, int *v)      /* what 0: hex prefixes, 1: 64 hex, 2: any text */
{
    if (m->t != RJ_ARR) { *v = MUST_FAIL; return; }
    if (!m->count || m->count > 256) { if (*v == MUST_OK) *v = EITHER; }
    for (const rj *x = m->child; x; x = x->next) {
        if (x->t != RJ_STR || rj_has_nul(x)) { *v = MUST_FAIL; return; }
        if (what == 0 && (x->n < 1 || x->n > 64 || !lowhex(x->s, x->n))) { *v = MUST_FAIL; return; }
        if (what == 1 && (x->n != 64 || !lowhex(x->s, x->n))) { *v = MUST_FAIL; return; }
    }
}
static inline void num(const rj *m, double lo, double hi, int *v)
{
    if (m->t != RJ_NUM || !(m->num >= lo && m->num <= hi) || m->num != (double)(int64_t)m->num) { *v = MUST_FAIL; return; }
    if (!m->is_int && *v == MUST_OK) *v = EITHER;
}
static inline int generic(const char *k) { return k[0] == '#' && k[1] && !k[2] && ((k[1] >= 'a' && k[1] <= 'z') || (k[1] >= 'A' && k[1] <= 'Z')) && k[1] != 'e' && k[1] != 'p'; }
static const char *const KNOWN[] = { "ids", "authors", "kinds", "#e", "#p", "since", "until", "limit", "search" };
static inline int known(const char *k) { for (int i = 0; i < 9; i++) if (!strcmp(KNOWN[i], k)) return 1; return generic(k); }
/* *dup: a known member occurs twice (its value is then not judged) */
static inline int jf_judge(const rj *o, int strict, int *dupl)
{
    int dup = 0; *dupl = 0;
    if (!o || o->t != RJ_OBJ) return MUST_FAIL;
    int v = MUST_OK, soft = 0;
    for (const rj *m = o->child; m; m = m->next) {
        if (strlen(m->key) != m->kn) { soft = 1; continue; }
        if (known(m->key) && rj_nkey(o, m->key) > 1) dup = *dupl = soft = 1;
        if (!strcmp(m->key, "ids") || !strcmp(m->key, "authors")) strarr(m, 0, &v);
        else if (!strcmp(m->key, "#e") || !strcmp(m->key, "#p")) strarr(m, 1, &v);
        else if (generic(m->key)) strarr(m, 2, &v);
        else if (!strcmp(m->key, "kinds")) { if (m->t != RJ_ARR) v = MUST_FAIL; else { if (!m->count || m->count > 256) soft = 1; for (const rj *x = m->child; x; x = x->next) num(x, 0, 65535, &v); } }
        else if (!strcmp(m->key, "since")) num(m, 0, MAXI, &v);
        else if (!strcmp(m->key, "until")) num(m, 1, MAXI, &v);
        else if (!strcmp(m->key, "limit")) { int w = v; num(m, 0, 2147483647, &w); if (w == MUST_FAIL && m->t == RJ_NUM && m->num > 2147483647 && m->num <= MAXI && m->num == (double)(int64_t)m->num) soft = 1; else v = w; }
        else if (!strcmp(m->key, "search")) { if (m->t != RJ_STR || rj_has_nul(m)) v = MUST_FAIL; else if (m->n > 65536) soft = 1; }
        else if (rj_has_nul(m)) soft = 1;
    }
    if (dup && v == MUST_FAIL) v = EITHER;
    if (v == MUST_OK && (soft || !strict)) v = EITHER;
    return v;
}
static inline int sarr_eq(char *const *a, size_t n, const rj *m)
{
    if (n != (size_t)(m ? m->count : 0)) return 0;
    size_t i = 0; for (const rj *x = m ? m->child : NULL; x; x = x->next, i++) if (!a || !a[i] || !x->s || strcmp(a[i], x->s)) return 0;
    return 1;
}
static const char *jf_differs(const nostr_filter_t *f, const rj *o)
{
    if (!sarr_eq(f->ids, f->ids_count, rj_get(o, "ids"))) return "ids";
    if (!sarr_eq(f->authors, f->authors_count, rj_get(o, "authors"))) return "authors";
    if (!sarr_eq(f->e_tags, f->e_tags_count, rj_get(o, "#e"))) return "#e";
    if (!sarr_eq(f->p_tags, f->p_tags_count, rj_get(o, "#p"))) return "#p";
    const rj *k = rj_get(o, "kinds"); if (f->kinds_count != (size_t)(k ? k->count : 0)) return "kinds";
    size_t i = 0; for (const rj *x = k ? k->child : NULL; x; x = x->next, i++) if (f->kinds[i] != (int32_t)x->num) return "kinds";
    const rj *m; if (f->since != ((m = rj_get(o, "since")) ? (int64_t)m->num : 0)) return "since";
    if (f->until != ((m = rj_get(o, "until")) ? (int64_t)m->num : 0)) return "until";
    m = rj_get(o, "limit"); if (f->limit != (m ? m->num > 2147483647 ? 2147483647 : (int32_t)m->num : 0)) return "limit";
    m = rj_get(o, "search"); if (m ? (!f->search || strcmp(f->search, m->s)) : f->search != NULL) return "search";
    size_t g = 0; for (const rj *x = o->child; x; x = x->next) if (generic(x->key)) {
        int found = 0; g++;
        for (size_t j = 0; j < f->generic_tags_count; j++) if (f->generic_tags[j].tag_name == x->key[1] && sarr_eq(f->generic_tags[j].values, f->generic_tags[j].values_count, x)) found = 1;
        if (!found && !(x->count == 0)) return "generic tag";
    }
    if (f->generic_tags_count > g) return "number of generic tags";
    for (size_t j = 0; j < f->generic_tags_count; j++) { char n[3] = { '#', f->generic_tags[j].tag_name, 0 }; if (!rj_get(o, n)) return "generic tag not written"; }
    return NULL;
}
#endif
