/* Independent, boring reference pieces used as oracles (no code shared with the library). */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stddef.h>
void ref_sha256(const void *p, size_t n, uint8_t out[32]);
void ref_hex(const void *p, size_t n, char *out);            /* lower case */
int  ref_is_hex(const char *s, size_t n);
int  ref_unhex(const char *s, size_t n, uint8_t *out);        /* n chars -> n/2 bytes, 0 ok */
/* growing string */
typedef struct { char *s; size_t n, cap; } ref_buf;
void rb_free(ref_buf *b);
void rb_put(ref_buf *b, const char *s);
void rb_putn(ref_buf *b, const char *s, size_t n);
void rb_fmt(ref_buf *b, const char *f, ...);
void rb_json(ref_buf *b, const char *s);                      /* NIP-01 escaped string with quotes */
/* bech32 (BIP-173), any length */
int  ref_bech32_encode(const char *hrp, const uint8_t *data, size_t n, char *out);   /* 8-bit data */
int  ref_bech32_encode5(const char *hrp, const uint8_t *d5, size_t n, char *out);    /* 5-bit data */
int  ref_bech32_decode5(const char *s, char *hrp, uint8_t *d5, size_t *n);           /* checksum verified, -1 bad */
extern const char ref_b32[33];
#endif
