/* Reference JSON reader (RFC 8259), independent of cJSON.
 * lenient=1 additionally accepts the dialect cJSON reads (raw control characters in strings,
 * numbers as strtod reads them, any byte <= 0x20 as blank): used for inputs, where the library's
 * reader may accept them.  Outputs are always read with lenient=0. */
#ifndef RJ_H
#define RJ_H
#include <stddef.h>
#include <stdint.h>
typedef enum { RJ_NULL, RJ_FALSE, RJ_TRUE, RJ_NUM, RJ_STR, RJ_ARR, RJ_OBJ } rj_type;
typedef struct rj {
    rj_type t; double num; int is_int; int64_t i;   /* is_int: plain decimal integer within int64 */
    char *s; size_t n;                              /* string bytes, NUL terminated               */
    char *key; size_t kn;
    struct rj *child, *next; int count;
    const char *raw; size_t rawn;                   /* the source text of the value               */
} rj;
rj *rj_parse(const char *text, size_t len, int lenient);   /* NULL: not exactly one JSON value      */
void rj_reset(void);                                       /* drop all nodes                        */
rj *rj_get(const rj *o, const char *key);                  /* first member of that name (case-sensitive) */
int rj_nkey(const rj *o, const char *key);
rj *rj_at(const rj *a, int i);
int rj_is(const rj *v, const char *s);                     /* a string equal to s                   */
int rj_has_nul(const rj *v);                               /* some string inside contains U+0000    */
#endif
