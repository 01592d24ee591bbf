#include <stdlib.h>
#include <assert.h>
#include "hv.h"
#include <hob3lbase/utf8.h>

/* ---- specification: Unicode 15, table 3-7 "well-formed UTF-8 byte sequences" ---- */
typedef struct { unsigned len; unsigned cp; bool bad; } spec_t;   /* len=0: end of text */
static unsigned spec_len(unsigned b0)
{ return b0 < 0x80 ? 1 : (b0 >= 0xc2 && b0 <= 0xdf) ? 2 : (b0 >= 0xe0 && b0 <= 0xef) ? 3 : (b0 >= 0xf0 && b0 <= 0xf4) ? 4 : 0; }
static bool in(unsigned x, unsigned a, unsigned b) { return x >= a && x <= b; }
static spec_t spec_decode(uint8_t const *b, size_t n)
{
    if (n == 0 || b[0] == 0) return (spec_t){0, 0, false};
    unsigned l = spec_len(b[0]);
    if (l == 0 || n < l) return (spec_t){0, 0, true};
    unsigned c0 = b[0];
    if (l == 1) return (spec_t){1, c0, false};
    unsigned lo = c0 == 0xe0 ? 0xa0 : c0 == 0xf0 ? 0x90 : 0x80;
    unsigned hi = c0 == 0xed ? 0x9f : c0 == 0xf4 ? 0x8f : 0xbf;
    if (!in(b[1], lo, hi)) return (spec_t){0, 0, true};
    if (l == 2) return (spec_t){2, (c0 - 0xc0) * 64 + (b[1] - 0x80), false};
    if (!in(b[2], 0x80, 0xbf)) return (spec_t){0, 0, true};
    if (l == 3) return (spec_t){3, (c0 - 0xe0) * 4096 + (b[1] - 0x80) * 64 + (b[2] - 0x80), false};
    if (!in(b[3], 0x80, 0xbf)) return (spec_t){0, 0, true};
    return (spec_t){4, (c0 - 0xf0) * 262144 + (b[1] - 0x80) * 4096 + (b[2] - 0x80) * 64 + (b[3] - 0x80), false};
}
static int hexval(unsigned c)
{ return in(c,'0','9') ? (int)(c - '0') : in(c,'a','f') ? (int)(c - 'a') + 10 : in(c,'A','F') ? (int)(c - 'A') + 10 : -1; }
static spec_t spec_escaped(uint8_t const *b, size_t n)
{
    if (n == 0 || b[0] == 0) return (spec_t){0, 0, false};
    if (b[0] != '\\') return spec_decode(b, n);
    switch (b[1]) {
    case '\\': case '\'': case '"': return (spec_t){2, b[1], false};
    case 'n': return (spec_t){2, 10, false};
    case 't': return (spec_t){2, 9, false};
    case 'r': return (spec_t){2, 13, false};
    case 'x': case 'u': case 'U': break;
    default: return (spec_t){0, 0, true};
    }
    unsigned k = b[1] == 'x' ? 2 : b[1] == 'u' ? 4 : 6;
    if (n < 2 + k) return (spec_t){0, 0, true};
    unsigned v = 0;
    for (unsigned i = 0; i < k; i++) {
        int h = hexval(b[2+i]);
        if (h < 0) return (spec_t){0, 0, true};
        v = v * 16 + (unsigned)h;
    }
    if (v > (b[1] == 'x' ? 0x7fu : 0x10ffffu)) return (spec_t){0, 0, true};
    return (spec_t){2 + k, v, false};
}

/* ghost pre-state */
static cp_utf8_iter_t g_old;

/* ---- contracts ---- */
#define POST_DEC(P, it, r, s) \
    P("decode.value: result is the denoted character, 0 at end or error", (r) == (s).cp) \
    P("decode.error_iff_illformed", (((it)->error_msg != g_old.error_msg) == (s).bad)) \
    P("decode.error_message_set", !(s).bad || (it)->error_msg != NULL) \
    P("decode.error_position_is_first_byte", !(s).bad || (it)->data == g_old.data) \
    P("decode.consumes_exactly", (s).bad || ((it)->data == g_old.data + (s).len && (it)->size == g_old.size - (s).len))
#define CHK(n, c) HV_ENSURE(n, c);

unsigned cp_utf8_decode(cp_utf8_iter_t *iter)
HV_REQUIRES(iter != NULL)
HV_ASSIGNS(*iter)
;
unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
HV_REQUIRES(iter != NULL)
HV_ASSIGNS(*iter)
;
size_t cp_utf8_encode(char *dst, size_t dst_size, unsigned cp)
HV_REQUIRES(cp_utf8_ok(cp))
HV_ASSIGNS(HV_UPTO(dst, dst_size))
HV_ENSURES(HV_RESULT <= dst_size)
;

#define CAP 9
/* the text: `size` remaining bytes of which the first min(size,CAP) are modelled
 * as a memory object of exactly that extent: any access behind it is an error. */
static cp_utf8_iter_t mk_iter(uint8_t *buf, size_t *nn)
{
    size_t size = hv_u64();
    for (unsigned i = 0; i < CAP; i++) buf[i] = hv_u8();
    size_t n = size < CAP ? size : CAP;
    char *p = malloc(n ? n : 1);
    HV_ASSUME(p != NULL);
    for (unsigned i = 0; i < CAP; i++) if (i < n) p[i] = (char)buf[i];
    *nn = n;
    return (cp_utf8_iter_t){ .data = p, .size = size, .error_msg = NULL };
}

void h_decode(void)
{
    uint8_t b[CAP]; size_t n;
    cp_utf8_iter_t it = mk_iter(b, &n);
    g_old = it;
    spec_t s = spec_decode(b, n);
    unsigned r = cp_utf8_decode(&it);
    POST_DEC(CHK, &it, r, s)
    HV_REACH("decode");
    if (s.len == 4) HV_REACH("decode4");
    if (s.bad) HV_REACH("decode_bad");
#ifdef HV_NATIVE
    free((char*)g_old.data);
#endif
}

void h_escaped(void)
{
    uint8_t b[CAP]; size_t n;
    cp_utf8_iter_t it = mk_iter(b, &n);
    g_old = it;
    /* lexer guarantees: a backslash is never the last character of a string */
    HV_ASSUME(!(n > 0 && b[0] == '\\') || (n > 1 && b[1] != 0));
    spec_t s = spec_escaped(b, n);
    unsigned r = cp_utf8_escaped_decode(&it);
    POST_DEC(CHK, &it, r, s)
    HV_REACH("escaped");
    if (s.len == 8) HV_REACH("escaped8");
#ifdef HV_NATIVE
    free((char*)g_old.data);
#endif
}

void h_encode(void)
{
    char d[6]; size_t ds = hv_u64(); unsigned cp = hv_u32();
    HV_ASSUME(cp_utf8_ok(cp));
    size_t cap = ds < 6 ? ds : 6;
    char *p = malloc(cap ? cap : 1);
    HV_ASSUME(p != NULL);
    /* the contract's frame [dst, dst+dst_size) is bounded by the object: 6 bytes at most are modelled */
    size_t r = cp_utf8_encode(p, cap, cp);
    unsigned l = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
    HV_ENSURE("encode.length", r == (l <= cap ? l : 0));
    if (r > 0) {
        spec_t s = spec_decode((uint8_t*)p, r);
        HV_ENSURE("encode.bytes_are_wellformed_and_denote_cp", !s.bad && s.cp == cp && s.len == r);
        HV_REACH("encode");
        cp_utf8_iter_t it = { .data = p, .size = r, .error_msg = NULL };
        HV_ENSURE("roundtrip.decode_of_encode", cp_utf8_decode(&it) == cp);
        HV_ENSURE("roundtrip.consumed_all", it.size == 0 && it.data == p + r && it.error_msg == NULL);
    }
    (void)d;
#ifdef HV_NATIVE
    free(p);
#endif
}
