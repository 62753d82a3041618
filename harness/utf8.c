/* Contracts of the UTF-8 conversions.
 * KV_MODE 0: encode every list of code points, decode it back (KV_W = element width)
 * KV_MODE 1: every byte sequence: accepted exactly when well formed, decoded to the same code points at every width
 * KV_MODE 2: as 1 with escape sequences, as in string literals */
#include "kv.h"
#include "core/kos_utf8_internal.h"

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if KV_W == 8
typedef uint8_t elem_t;
#define LIMIT 0x100U
#elif KV_W == 16
typedef uint16_t elem_t;
#define LIMIT 0x10000U
#else
typedef uint32_t elem_t;
#define LIMIT 0x200000U
#endif

static unsigned spec_size(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
static uint8_t spec_byte(uint32_t c, unsigned k)
{
    const unsigned n = spec_size(c);
    if (n == 1) return (uint8_t)c;
    if (k == 0) return (uint8_t)((n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0) | (c >> (6 * (n - 1))));
    return (uint8_t)(0x80 | ((c >> (6 * (n - 1 - k))) & 0x3F));
}

#if KV_MODE == 0
void harness(void)
{
    elem_t   in[KV_N], back[KV_N];
    uint8_t  out[KV_N * 4 + 1];
    unsigned i, k, pos = 0, size, want = 0;
    uint32_t max = 0, got_max = 0;

    for (i = 0; i < KV_N; i++) {
        uint32_t v = kv_u32();
#ifdef KV_NATIVE
        v %= LIMIT;
#endif
        KV_ASSUME(v < LIMIT);
        in[i] = (elem_t)v;
        want += spec_size(v);
        if (v > max) max = v;
    }
    for (i = 0; i < sizeof(out); i++)
        out[i] = 0xFF;
    size = CAT(KOS_utf8_calc_buf_size_, KV_W)(in, KV_N);
    KV_ASSERT(size == want, "announced size is the sum of the encoded sizes");
    CAT(KOS_utf8_encode_, KV_W)(in, KV_N, out);
    for (i = 0; i < KV_N; i++)
        for (k = 0; k < spec_size(in[i]); k++, pos++)
            KV_ASSERT(out[pos] == spec_byte(in[i], k), "each code point is encoded in its standard form");
    KV_ASSERT(out[pos] == 0xFF, "nothing is written past the announced size");
    KV_ASSERT(KOS_utf8_get_len((const char *)out, size, KOS_UTF8_NO_ESCAPE, &got_max) == KV_N, "encoded text has the same number of code points");
    KV_ASSERT(max < 0x80 ? got_max < 0x80 : got_max == max, "largest code point is found");
    KV_ASSERT(CAT(KOS_utf8_decode_, KV_W)((const char *)out, size, KOS_UTF8_NO_ESCAPE, back) == KOS_SUCCESS, "encoded text decodes");
    KV_REACH("end");
    for (i = 0; i < KV_N; i++)
        KV_ASSERT(back[i] == in[i], "decoding gives back the original code points");
}
#else
static unsigned hexv(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 16; }

/* reference decoder: one code point at position *p, 0xFFFFFFFF when malformed */
static uint32_t spec_next(const uint8_t *s, unsigned n, unsigned *p)
{
    uint8_t  c = s[(*p)++];
    unsigned k, len;
    uint32_t v;
    if (c >= 0x80) {
        len = c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF7 ? 4 : 0;
        if (!len || *p + len - 1 > n) return ~0U;
        v = len == 2 ? c & 0x1F : len == 3 ? c & 0x0F : c & 0x07;
        for (k = 1; k < len; k++) {
            c = s[(*p)++];
            if (c < 0x80 || c > 0xBF) return ~0U;
            v = v * 64 + (c & 0x3F);
        }
    }
    else
        v = c;
#if KV_MODE == 2
    if (v == '\\') {
        if (*p >= n) return ~0U;
        c = s[*p];
        switch (c) {
            case '"': ++*p; return '"';
            case '\\': ++*p; return '\\';
            case '0': ++*p; return 0;
            case 'e': ++*p; return 27;
            case 'f': ++*p; return 12;
            case 'n': ++*p; return 10;
            case 'r': ++*p; return 13;
            case 't': ++*p; return 9;
            case 'u': ++*p; return 'u';
            case 'v': ++*p; return 11;
            case 'x':
                ++*p;
                if (*p + 2 > n) return ~0U;
                if (s[*p] == '{' && s[*p + 1] != '}') {
                    v = 0;
                    for (k = *p + 1; ; k++) {
                        if (k >= n) return ~0U;
                        if (s[k] == '}') break;
                        if (hexv(s[k]) > 15) return ~0U;
                        v = v * 16 + hexv(s[k]);
                        if (v > 0xFFFFFF) return ~0U;
                    }
                    *p = k + 1;
                    return v;
                }
                v = hexv(s[*p]) * 16 + hexv(s[*p + 1]);
                if (hexv(s[*p]) > 15 || hexv(s[*p + 1]) > 15) return ~0U;
                *p += 2;
                return v;
            default: return '\\';       /* not an escape sequence: stands for itself */
        }
    }
#endif
    return v;
}

void harness(void)
{
    static uint64_t store[(KV_N + KV_OFF + 15) / 8];
    uint8_t *const  s = (uint8_t *)store + KV_OFF;
    uint32_t        want[KV_N + 1], d32[KV_N + 1];
    uint16_t        d16[KV_N + 1];
    uint8_t         d8[KV_N + 1];
    unsigned        i, p = 0, count = 0, got;
    uint32_t        max = 0, got_max = 0;
    const KOS_UTF8_ESCAPE esc = KV_MODE == 2 ? KOS_UTF8_WITH_ESCAPE : KOS_UTF8_NO_ESCAPE;

    for (i = 0; i < KV_N; i++) {
        uint8_t b = kv_u8();
#ifdef KV_NATIVE
        { static const char t[] = "\\\\\\\\xx{}0aF\"nrv(\xC2\x80\xE2\x82\xAC\xF0\x9F\x98\x80zzzzzzzzzzzzzzzzzz"; if (!(b & 1)) b = (uint8_t)t[(b >> 1) % (sizeof(t) - 1)]; }
#endif
#ifdef KV_ASCII
        if (i < KV_ASCII) b = KV_MODE == 2 ? (uint8_t)((b & 1) ? '\\' : 'n') : (b & 0x7F);
#endif
        s[i] = b;
    }

    while (p < KV_N) {
        uint32_t c = spec_next(s, KV_N, &p);
        if (c == ~0U) { count = ~0U; break; }
        want[count++] = c;
        if (c > max) max = c;
    }

    got = KOS_utf8_get_len((const char *)s, KV_N, esc, &got_max);
    KV_ASSERT((got == ~0U) == (count == ~0U), "a byte sequence is accepted exactly when it is well formed");
    if (count != ~0U) {
        KV_REACH("valid");
        KV_ASSERT(got == count, "the number of code points is right");
        KV_ASSERT(max < 0x80 ? got_max < 0x80 : got_max == max, "the largest code point is found");
#if KV_W == 8
        if (max < 0x100) {
            KV_ASSERT(KOS_utf8_decode_8((const char *)s, KV_N, esc, d8) == KOS_SUCCESS, "decodes to 8 bit elements");
            for (i = 0; i < count; i++)
                KV_ASSERT(d8[i] == want[i], "8 bit elements are the code points");
        }
#elif KV_W == 16
        if (max < 0x10000) {
            KV_ASSERT(KOS_utf8_decode_16((const char *)s, KV_N, esc, d16) == KOS_SUCCESS, "decodes to 16 bit elements");
            for (i = 0; i < count; i++)
                KV_ASSERT(d16[i] == want[i], "16 bit elements are the code points");
        }
#else
        KV_ASSERT(KOS_utf8_decode_32((const char *)s, KV_N, esc, d32) == KOS_SUCCESS, "decodes to 32 bit elements");
        for (i = 0; i < count; i++)
            KV_ASSERT(d32[i] == want[i], "32 bit elements are the code points");
#endif
    }
#ifndef KV_ASCII
    else { KV_REACH("invalid"); }
#endif
}
#endif
