/* C05: hex entry points accept exactly hex of the exact length and denote exactly those bytes. */
#include "mc.h"
#include "ref.h"
#include <nostr.h>
#include <nostr_relay_protocol.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

/* ---- fixed-size entry points: text -> accept? + bytes ---- */
typedef struct { const char *name; int nbytes; int lower_only; int (*fn)(const char *s, uint8_t *out); } entry;

static int e_key(const char *s, uint8_t *o) { nostr_key k; memset(&k, 0xEE, sizeof k); if (nostr_key_from_hex(s, &k) != NOSTR_OK) return 0; memcpy(o, k.data, 32); return 1; }
static int e_priv(const char *s, uint8_t *o) { nostr_privkey k; memset(&k, 0xEE, sizeof k); if (nostr_privkey_from_hex(s, &k) != NOSTR_OK) return 0; memcpy(o, k.data, 32); return 1; }
static int json_field(const char *field, const char *s, uint8_t *o, int n)
{
    ref_buf b = {0};
    rb_put(&b, "{\""); rb_put(&b, field); rb_put(&b, "\":"); rb_json(&b, s); rb_put(&b, "}");
    nostr_event *ev = NULL;
    int ok = nostr_event_from_json(b.s, &ev) == NOSTR_OK;
    rb_free(&b);
    if (!ok) return 0;
    if (!strcmp(field, "id")) memcpy(o, ev->id, n);
    else if (!strcmp(field, "pubkey")) memcpy(o, ev->pubkey.data, n);
    else memcpy(o, ev->sig, n);
    nostr_event_destroy(ev);
    return 1;
}
static int e_json_id(const char *s, uint8_t *o) { return json_field("id", s, o, 32); }
static int e_json_pk(const char *s, uint8_t *o) { return json_field("pubkey", s, o, 32); }
static int e_json_sig(const char *s, uint8_t *o) { return json_field("sig", s, o, 64); }
static int e_decode(const char *s, uint8_t *o) { uint8_t t[32]; memset(t, 0xEE, 32); int r = nostr_hex_decode(s, t, 32); if (r != 32) return 0; memcpy(o, t, 32); return 1; }
static int e_tobytes(const char *s, uint8_t *o) { uint8_t t[32]; if (strlen(s) != 64) return 0; if (nostr_hex_to_bytes(s, 64, t, 32) != NOSTR_RELAY_OK) return 0; memcpy(o, t, 32); return 1; }
static int binary_tag(const char *name, const char *s, uint8_t *o)
{
    nostr_event *ev; if (nostr_event_create(&ev) != NOSTR_OK) return 0;
    const char *v[2] = { name, s }; nostr_event_add_tag(ev, v, 2);
    size_t n = 0; uint8_t (*r)[32] = name[0] == 'e' ? nostr_event_get_e_tags_binary(ev, &n) : nostr_event_get_p_tags_binary(ev, &n);
    int ok = n == 1; if (ok) memcpy(o, r[0], 32);
    nostr_free(r); nostr_event_destroy(ev);
    return ok;
}
static int e_etag(const char *s, uint8_t *o) { return binary_tag("e", s, o); }
static int e_ptag(const char *s, uint8_t *o) { return binary_tag("p", s, o); }
static int e_valid64(const char *s, uint8_t *o) { if (!nostr_validate_hex64(s)) return 0; if (ref_unhex(s, 64, o)) memset(o, 0, 32); return 1; }

static const entry E[] = {
    {"nostr_key_from_hex", 32, 0, e_key}, {"nostr_privkey_from_hex", 32, 0, e_priv}, {"nostr_hex_decode", 32, 0, e_decode},
    {"nostr_hex_to_bytes", 32, 0, e_tobytes}, {"event-json-id", 32, 0, e_json_id}, {"event-json-pubkey", 32, 0, e_json_pk},
    {"event-json-sig", 64, 0, e_json_sig}, {"binary-e-tag", 32, 1, e_etag}, {"binary-p-tag", 32, 1, e_ptag}, {"nostr_validate_hex64", 32, 1, e_valid64},
};
static const char *const BASE[] = { "0123456789abcdef", "fedcba9876543210", "00000000ffffffff", "1000000000000001" };

static int expect(const entry *e, const char *s, uint8_t *want)
{
    size_t n = strlen(s);
    if (n != (size_t)e->nbytes * 2 || !ref_is_hex(s, n)) return 0;
    if (e->lower_only) for (size_t i = 0; i < n; i++) if (s[i] >= 'A' && s[i] <= 'F') return 0;
    ref_unhex(s, n, want);
    return 1;
}
static void judge(const entry *e, const char *s)
{
    uint8_t want[64] = {0}, got[64] = {0};
    int w = expect(e, s, want), g = e->fn(s, got);
    mc_eval(1);
    char key[120];
    if (g && !w) { snprintf(key, sizeof key, "%s:accepts-non-hex", e->name); mc_report(key, "%s accepted %s as %s", e->name, mc_q(s), mc_hex(got, e->nbytes)); }
    if (!g && w) { snprintf(key, sizeof key, "%s:rejects-hex", e->name); mc_report(key, "%s rejected %s", e->name, mc_q(s)); }
    if (g && w && memcmp(want, got, e->nbytes)) { snprintf(key, sizeof key, "%s:wrong-bytes", e->name); mc_report(key, "%s decoded %s to %s", e->name, mc_q(s), mc_hex(got, e->nbytes)); }
    uint64_t h = mc_hash_str(MC_H0, e->name);
    mc_state(mc_hash_str(h, s));
    mc_outcome(mc_hash(mc_hash_u64(h, g), got, 64));
}
static void fill(char *s, int n, int base) { for (int i = 0; i < n; i++) s[i] = BASE[base][i % 16]; s[n] = 0; }

static void one_char(void)
{
    int c = mc_choose(MC_LEN(E) * 128);
    const entry *e = &E[c / 128]; int pos = c % 128;
    if (pos >= e->nbytes * 2) mc_discard();
    int base = mc_choose(mc_thorough() ? 4 : 2);
    char s[200];
    for (int v = 1; v < 256; v++) { fill(s, e->nbytes * 2, base); s[pos] = (char)v; judge(e, s); mc_step(); }
    MC_NOTE("%s: every byte value 1..255 at position %d of base pattern %d", e->name, pos, base);
    mc_conform();
}
static const char *const SPECIAL = " \t\n\r\v\f+-0xX1gG:/@`aAfF\x80\xff.%";
static void pair_chars(void)
{
    int c = mc_choose(MC_LEN(E) * 64);
    const entry *e = &E[c / 64]; int pos = (c % 64) * 2;
    if (pos >= e->nbytes * 2) mc_discard();
    int ns = (int)strlen(SPECIAL); char s[200];
    /* the two digits of one byte */
    for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) {
        fill(s, e->nbytes * 2, 0); s[pos] = SPECIAL[a]; s[pos + 1] = SPECIAL[b]; judge(e, s);
        if (pos + 2 < e->nbytes * 2) { fill(s, e->nbytes * 2, 0); s[pos + 1] = SPECIAL[a]; s[pos + 2] = SPECIAL[b]; judge(e, s); }
        mc_steps(2);
    }
    if (mc_thorough() || pos == 0) /* all 255^2 digit pairs */
        for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) {
            if (!mc_thorough() && e->nbytes == 64) continue;
            if (!strncmp(e->name, "event-json", 10) && !mc_thorough()) continue;
            fill(s, e->nbytes * 2, 1); s[pos] = (char)a; s[pos + 1] = (char)b; judge(e, s); mc_step();
        }
    MC_NOTE("%s: all special pairs at %d", e->name, pos);
    mc_conform();
}
static void lengths(void)
{
    int c = mc_choose(MC_LEN(E) * 280);
    const entry *e = &E[c / 280]; int len = c % 280;
    int base = mc_choose(2);
    char s[300]; fill(s, len, base);
    judge(e, s); mc_step();
    if (len) { s[len - 1] = ' '; judge(e, s); fill(s, len, base); s[0] = ' '; judge(e, s); fill(s, len, base); s[len - 1] = '\n'; judge(e, s); }
    if (len > 2) { fill(s, len, base); s[0] = '0'; s[1] = 'x'; judge(e, s); }
    mc_conform();
}
/* variable-length decoders with explicit sizes, in exactly-sized heap buffers so that ASan sees overruns */
static void sized_decode(void)
{
    int which = mc_choose(2), hl = mc_choose(20), osz = mc_choose(12), bad = mc_choose(22);
    char *in = malloc(hl + 1); fill(in, hl, 0);
    if (bad && bad - 1 < hl) in[bad - 1] = 'g'; else if (bad) { free(in); mc_discard(); }
    uint8_t *out = malloc(osz ? osz : 1); memset(out, 0xEE, osz ? osz : 1);
    uint8_t want[16]; int wellformed = hl % 2 == 0 && ref_is_hex(in, hl) && ref_unhex(in, hl, want) == 0;
    int fits = hl / 2 <= osz;
    mc_step();
    if (which == 0) {
        int r = nostr_hex_decode(in, out, osz);
        if (wellformed && fits) { MC_CHECK(r == hl / 2, "nostr_hex_decode:count", "decode(%s, out_len %d) returned %d", in, osz, r); MC_CHECK(!memcmp(out, want, r), "nostr_hex_decode:bytes", "wrong bytes for %s", in); }
        else MC_CHECK(r == -1, "nostr_hex_decode:accepts-bad", "decode(%s, out_len %d) returned %d", in, osz, r);
        mc_outcome(mc_hash_u64(mc_hash(MC_H0, in, hl), r + 100 * osz));
    } else {
        char *nn = malloc(hl ? hl : 1); memcpy(nn, in, hl);       /* not NUL terminated */
        nostr_relay_error_t r = nostr_hex_to_bytes(nn, hl, out, osz);
        if (wellformed && fits) { MC_CHECK(r == NOSTR_RELAY_OK, "nostr_hex_to_bytes:rejects", "to_bytes(%s,%d) = %d", in, osz, r); MC_CHECK(!memcmp(out, want, hl / 2), "nostr_hex_to_bytes:bytes", "wrong bytes for %s", in); }
        else MC_CHECK(r != NOSTR_RELAY_OK, "nostr_hex_to_bytes:accepts-bad", "to_bytes(%s, hex_len %d, out_size %d) = OK", in, hl, osz);
        mc_outcome(mc_hash_u64(mc_hash(MC_H0, in, hl), 5000 + r + 100 * osz));
        free(nn);
    }
    free(in); free(out);
    mc_conform();
}
/* encoders: exact text for every byte value at every position, NUL terminated, within the buffer */
static void encoders(void)
{
    int which = mc_choose(8), v = mc_choose(256), pos = mc_choose(33);
    uint8_t raw[64]; for (int i = 0; i < 64; i++) raw[i] = (uint8_t)(i * 37 + 5);
    if (pos < 32) raw[pos] = v; else memset(raw, v, 64);
    char want[200]; ref_hex(raw, 32, want);
    char *out = malloc(65); memset(out, '#', 65);
    nostr_key k; nostr_privkey pk; memcpy(k.data, raw, 32); memcpy(pk.data, raw, 32);
    nostr_event ev; memset(&ev, 0, sizeof ev); memcpy(ev.id, raw, 32); memcpy(ev.pubkey.data, raw, 32);
    nostr_keypair kp; memset(&kp, 0, sizeof kp); kp.pubkey = k; kp.privkey = pk; kp.initialized = 1;
    switch (which) {
    case 0: MC_CHECK(nostr_key_to_hex(&k, out, 65) == NOSTR_OK, "key_to_hex:fails", "failed"); break;
    case 1: MC_CHECK(nostr_privkey_to_hex(&pk, out, 65) == NOSTR_OK, "privkey_to_hex:fails", "failed"); break;
    case 2: nostr_hex_encode(raw, 32, out); break;
    case 3: nostr_bytes_to_hex(raw, 32, out); break;
    case 4: nostr_event_get_id_hex(&ev, out); break;
    case 5: nostr_event_get_pubkey_hex(&ev, out); break;
    case 6: MC_CHECK(nostr_keypair_export_private_hex(&kp, out, 65) == NOSTR_OK, "export_private_hex:fails", "failed"); break;
    case 7: MC_CHECK(nostr_keypair_export_public_hex(&kp, out, 65) == NOSTR_OK, "export_public_hex:fails", "failed"); break;
    }
    mc_step();
    MC_CHECK(memchr(out, 0, 65) && !strcmp(out, want), "encode:wrong-text", "encoder %d of %s gave %s", which, want, mc_qn(out, 65));
    uint8_t back[32];
    MC_CHECK(nostr_key_from_hex(out, &k) == NOSTR_OK && !memcmp(k.data, raw, 32), "encode:roundtrip", "decode(encode(x)) != x for %s", want);
    MC_CHECK(nostr_hex_decode(out, back, 32) == 32 && !memcmp(back, raw, 32), "encode:roundtrip2", "decode(encode(x)) != x for %s", want);
    mc_outcome(mc_hash_str(mc_hash_u64(MC_H0, which), out));
    free(out); mc_conform();
}
static void encoder_sizes(void)
{
    int which = mc_choose(4), size = mc_choose(140), v = mc_choose(3);
    nostr_key k; nostr_privkey pk; memset(&k, v * 127, sizeof k); memset(&pk, v * 127, sizeof pk);
    nostr_keypair kp; memset(&kp, 0, sizeof kp); kp.pubkey = k; kp.privkey = pk; kp.initialized = 1;
    char *out = malloc(size ? size : 1); char want[70]; ref_hex(k.data, 32, want);
    if (size) memset(out, '#', size);
    nostr_error_t r = which == 0 ? nostr_key_to_hex(&k, out, size) : which == 1 ? nostr_privkey_to_hex(&pk, out, size)
                    : which == 2 ? nostr_keypair_export_public_hex(&kp, out, size) : nostr_keypair_export_private_hex(&kp, out, size);
    mc_step();
    if (size >= 65) MC_CHECK(r == NOSTR_OK && !strcmp(out, want), "encode-size:sufficient-rejected", "size %d -> %d", size, r);
    else { MC_CHECK(r != NOSTR_OK, "encode-size:small-accepted", "size %d accepted", size);
           for (int i = 0; i < size; i++) MC_CHECK(out[i] == '#', "encode-size:small-written", "size %d: byte %d written", size, i); }
    mc_outcome(mc_hash_u64(mc_hash_u64(MC_H0, which), size * 4 + v));
    free(out); mc_conform();
}
static void arbitrary_len_encode(void)
{
    int which = mc_choose(2), n = mc_choose(70);
    uint8_t *raw = malloc(n ? n : 1); for (int i = 0; i < n; i++) raw[i] = i * 11 + 3;
    char *out = malloc(2 * n + 1); char want[200]; ref_hex(raw, n, want);
    memset(out, '#', 2 * n + 1);
    if (which) nostr_hex_encode(raw, n, out); else nostr_bytes_to_hex(raw, n, out);
    mc_step();
    MC_CHECK(!strcmp(out, want), "encode-len:wrong", "n=%d", n);
    mc_outcome(mc_hash_str(mc_hash_u64(MC_H0, which), out));
    free(raw); free(out); mc_conform();
}
static void prefix_validator(void)
{
    int len = mc_choose(70), pos = mc_choose(70);
    if (pos > len) mc_discard();
    char s[80];
    for (int v = 1; v < 256; v++) {
        fill(s, len, 0); if (pos < len) s[pos] = (char)v;
        size_t n = strlen(s); int w = n >= 1 && n <= 64;
        for (size_t i = 0; i < n; i++) if (!((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f'))) w = 0;
        int g = nostr_validate_hex_prefix(s);
        mc_step(); mc_eval(1);
        if (g != w) mc_report("hex-prefix", "nostr_validate_hex_prefix(%s) = %d", mc_q(s), g);
        mc_state(mc_hash_str(MC_H0, s));
        mc_outcome(mc_hash_u64(MC_H0, n * 2 + g));
    }
    mc_conform();
}
static void keypair_hex(void)
{
    int pos = mc_choose(64), v = 1 + mc_choose(255);
    char s[80]; fill(s, 64, 0); s[pos] = (char)v;
    nostr_keypair kp; nostr_keypair_init(&kp);
    uint8_t w[32]; int hex = strlen(s) == 64 && ref_is_hex(s, 64); ref_unhex(s, 64, w);
    nostr_error_t r = nostr_keypair_from_private_hex(&kp, s);
    mc_step();
    MC_CHECK((r == NOSTR_OK) == hex, "keypair_from_private_hex:accept", "%s -> %d", mc_q(s), r);
    if (hex) MC_CHECK(!memcmp(kp.privkey.data, w, 32), "keypair_from_private_hex:bytes", "%s", s);
    mc_outcome(mc_hash_u64(MC_H0, hex * 100000 + pos * 256 + v));
    mc_conform();
}
static void initlib(void) { nostr_init(); }
const mc_scenario mc_scenarios[] = {
    {"one_char", one_char, initlib, 3, 0, "every byte value at every character position of every fixed-size hex entry point"},
    {"pair_chars", pair_chars, initlib, 3, 0, "every pair of special characters on both digits of every byte; all 255^2 pairs at the first byte"},
    {"lengths", lengths, initlib, 3, 0, "every length 0..279, with blanks and 0x prefixes"},
    {"sized_decode", sized_decode, initlib, 3, 0, "every input length x output size x bad position"},
    {"encoders", encoders, initlib, 3, 0, "every encoder x byte value x position"},
    {"encoder_sizes", encoder_sizes, initlib, 3, 0, "every encoder x buffer size 0..139"},
    {"arbitrary_len_encode", arbitrary_len_encode, initlib, 3, 0, "encoders for every length"},
    {"prefix_validator", prefix_validator, initlib, 3, 0, "prefix validator: every length x position x byte"},
    {"keypair_hex", keypair_hex, initlib, 3, 0, "key pair from hex: every position x byte"},
    MC_END
};
