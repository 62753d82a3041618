/* Contracts of the string functions.  A string is a sequence of code points; the
 * width of its elements (8, 16, 32 bits), the place where it is stored and the
 * alignment are never observable.  KV_MODE selects the operation, KV_WA/KV_WB the
 * widths (0, 1, 2), KV_NA/KV_NB the lengths, KV_SA/KV_SB the storage (0 elsewhere in
 * memory, 1 in the string object) and KV_OA/KV_OB the offset of the first element. */
#include "kv.h"
#include <wchar.h>
#include <wctype.h>
#ifdef KV_NATIVE
#include <locale.h>
#endif

#ifndef KV_WB
#define KV_WB 0
#endif
#ifndef KV_NB
#define KV_NB 0
#endif
#ifndef KV_SA
#define KV_SA 0
#endif
#ifndef KV_SB
#define KV_SB 0
#endif
#ifndef KV_OA
#define KV_OA 0
#endif
#ifndef KV_OB
#define KV_OB KV_OA
#endif
#define MAXC 40

typedef struct { unsigned n; uint32_t c[MAXC]; } MODEL;

#ifndef KV_NATIVE
/* assumed contracts of the C library ("C" locale collation; case mapping is some
 * function which maps 16-bit characters to 16-bit characters) */
int wcscoll(const wchar_t *a, const wchar_t *b) { return a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0; }
uint32_t __CPROVER_uninterpreted_upper(uint32_t);
uint32_t __CPROVER_uninterpreted_lower(uint32_t);
wint_t towupper(wint_t c) { uint32_t r = __CPROVER_uninterpreted_upper(c); __CPROVER_assume(r < 0x10000U); return r; }
wint_t towlower(wint_t c) { uint32_t r = __CPROVER_uninterpreted_lower(c); __CPROVER_assume(r < 0x10000U); return r; }
void *memchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (size_t i = 0; i < n; i++)
        if (p[i] == (unsigned char)c)
            return (void *)(p + i);
    return 0;
}
#endif

static uint32_t any_code(int w)
{
    uint32_t c = kv_u32();
#ifdef KV_NATIVE
    static const uint32_t t[] = { 0x41, 0x42, 0x61, 0xFF, 0xE9, 0x141, 0x241, 0x142, 0x1041, 0x10041, 0x20041, 0x1FFFFF, 0xFF41, 0x4141, 0xB5, 0x41FF, 0x20, 0x7F, 0x80, 0xFFFF };
    c = t[c % (c & 0x10000 ? 2 : sizeof(t) / sizeof(t[0]))];
    if (w == 0) c &= 0xFF;
    if (w == 1) c &= 0xFFFF;
#endif
    KV_ASSUME(c <= (w == 0 ? 0xFFU : w == 1 ? 0xFFFFU : 0x1FFFFFU));
    return c;
}

static uint8_t  KV_ALIGN(8) mem8a[MAXC + 8],  mem8b[MAXC + 8];
static uint16_t KV_ALIGN(8) mem16a[MAXC + 8], mem16b[MAXC + 8];
static uint32_t KV_ALIGN(8) mem32a[MAXC + 8], mem32b[MAXC + 8];

/* the string with the given code points */
static KOS_OBJ_ID from_model(KOS_CONTEXT ctx, const MODEL *m, int w, int stor, int off, unsigned slot)
{
    unsigned   i;
    int        ascii = 4;
    KOS_OBJ_ID s;
    uint8_t    *m8  = slot ? mem8b : mem8a;
    uint16_t   *m16 = slot ? mem16b : mem16a;
    uint32_t   *m32 = slot ? mem32b : mem32a;
    const void *data = w == 0 ? (const void *)&m8[off] : w == 1 ? (const void *)&m16[off] : (const void *)&m32[off];
    if (m->n == 0)
        return KOS_STR_EMPTY;
    if (w == 0) {
        for (i = 0; i < m->n; i++)
            if (m->c[i] >= 0x80)
                ascii = 0;
        /* an ASCII string need not be marked as such */
        if (!(kv_u8() & 1))
            ascii = 0;
    }
    else
        ascii = 0;
    if (stor == 0) {
        for (i = 0; i < m->n; i++) {
            if (w == 0)      m8[off + i]  = (uint8_t)m->c[i];
            else if (w == 1) m16[off + i] = (uint16_t)m->c[i];
            else             m32[off + i] = m->c[i];
        }
        s = KOS_new_const_string(ctx, data, m->n, (KOS_STRING_FLAGS)(w | ascii));
        KV_ASSUME(!IS_BAD_PTR(s));
    }
    else {
        KOS_STRING *str = (KOS_STRING *)kos_alloc_object(ctx, KOS_ALLOC_MOVABLE, OBJ_STRING, (uint32_t)sizeof(KOS_STR_HEADER) + (m->n << w));
        KV_ASSUME(str != 0);
        str->header.flags  = (uint8_t)(w | ascii | KOS_STRING_LOCAL);
        str->header.length = (uint16_t)m->n;
        str->header.hash   = 0;
        for (i = 0; i < m->n; i++) {
            if (w == 0)      ((uint8_t *)str->local.data)[i]  = (uint8_t)m->c[i];
            else if (w == 1) ((uint16_t *)str->local.data)[i] = (uint16_t)m->c[i];
            else             ((uint32_t *)str->local.data)[i] = m->c[i];
        }
        s = OBJID(STRING, str);
    }
    return s;
}

static KOS_OBJ_ID make(KOS_CONTEXT ctx, MODEL *m, int w, unsigned n, int stor, int off, unsigned slot)
{
    unsigned i;
    m->n = n;
    for (i = 0; i < n; i++)
        m->c[i] = any_code(w);
    return from_model(ctx, m, w, stor, off, slot);
}

/* the code points as any reader sees them */
static uint32_t code(KOS_OBJ_ID s, unsigned i)
{
    KOS_STRING *str = OBJPTR(STRING, s);
    const void *p   = kos_get_string_buffer(str);
    switch (kos_get_string_elem_size(str)) {
        case KOS_STRING_ELEM_8:  return ((const uint8_t *)p)[i];
        case KOS_STRING_ELEM_16: return ((const uint16_t *)p)[i];
        default:                 return ((const uint32_t *)p)[i];
    }
}

static void check(KOS_CONTEXT ctx, KOS_OBJ_ID s, const MODEL *m)
{
    unsigned i;
    int      ascii = 1;
    KV_ASSERT(!IS_BAD_PTR(s), "a string is returned");
    KV_ASSUME(!IS_BAD_PTR(s));
    KV_ASSERT(GET_OBJ_TYPE(s) == OBJ_STRING, "the result is a string");
    KV_ASSERT(KOS_get_string_length(s) == m->n, "the string has the right length");
    if (KOS_get_string_length(s) != m->n)
        return;
    for (i = 0; i < m->n; i++) {
        KV_ASSERT(code(s, i) == m->c[i], "every character is the right one");
        if (m->c[i] >= 0x80)
            ascii = 0;
    }
    if (OBJPTR(STRING, s)->header.flags & KOS_STRING_ASCII)
        KV_ASSERT(ascii && kos_get_string_elem_size(OBJPTR(STRING, s)) == KOS_STRING_ELEM_8, "only ASCII strings are marked ASCII");
    KV_ASSERT(!KOS_is_exception_pending(ctx), "no exception is raised");
}

static int order(const MODEL *a, unsigned ab, unsigned an, const MODEL *b, unsigned bb, unsigned bn)
{
    unsigned i;
    for (i = 0; i < an && i < bn; i++)
        if (a->c[ab + i] != b->c[bb + i])
            return a->c[ab + i] < b->c[bb + i] ? -1 : 1;
    return an < bn ? -1 : an > bn ? 1 : 0;
}
static int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

static int64_t lo(int64_t i, int64_t n) { return i < 0 ? (i + n < 0 ? 0 : i + n) : i; }
static int64_t hi(int64_t i, int64_t n) { return i < 0 ? i + n : i > n ? n : i; }

static int64_t any_idx(unsigned n)
{
    int64_t v = kv_i64();
#ifdef KV_NATIVE
    if ((v & 7) < 6) v = (int64_t)((uint64_t)v / 8 % (2 * n + 5)) - (int64_t)n - 2;
    else if ((v & 7) == 6) v = (int64_t)(int32_t)v + 0x100000000LL;
#endif
    return v;
}

/* the sequence between two range ends */
static void range(const MODEL *m, int64_t b, int64_t e, MODEL *out)
{
    unsigned i;
    const int64_t f = lo(b, m->n), t = hi(e, m->n);
    out->n = 0;
    for (i = 0; i < m->n; i++)
        if ((int64_t)i >= f && (int64_t)i < t)
            out->c[out->n++] = m->c[i];
}

#if KV_MODE == 2
static void slice1(KOS_CONTEXT ctx, KOS_OBJ_ID s, const MODEL *m, int64_t b, int64_t e)
{
    MODEL r;
    range(m, b, e, &r);
    check(ctx, KOS_string_slice(ctx, s, b, e), &r);
#ifdef KV_AGAIN
    {
        KOS_OBJ_ID t = KOS_string_slice(ctx, s, b, e);
        MODEL      r2;
        if (!IS_BAD_PTR(t)) {
            range(&r, 1, -1, &r2);
            check(ctx, KOS_string_slice(ctx, t, 1, -1), &r2);
            check(ctx, t, &r);
        }
    }
#endif
    KV_REACH("sliced");
}
#endif

#if KV_MODE == 5 || KV_MODE == 6
static int in_set(uint32_t c, const MODEL *p)
{
    unsigned i;
    for (i = 0; i < p->n; i++)
        if (p->c[i] == c)
            return 1;
    return 0;
}
static int hit(const MODEL *a, const MODEL *p, int i)
{
    unsigned j;
#if KV_MODE == 6
    return in_set(a->c[i], p) == KV_INC;
#else
    (void)in_set;
    if (i + (int)p->n > (int)a->n)
        return 0;
    for (j = 0; j < p->n; j++)
        if (a->c[i + (int)j] != p->c[j])
            return 0;
    return 1;
#endif
}
#endif

void harness(void)
{
    KOS_CONTEXT ctx = kv_init();
    KOS_OBJ_ID  a, b;
    MODEL       A, B, R;
    unsigned    i;

    a = make(ctx, &A, KV_WA, KV_NA, KV_SA, KV_OA, 0);
    b = KOS_BADPTR;
    (void)i; (void)b; (void)B; (void)R;

#if KV_MODE == 0                    /* comparison */
#   ifdef KV_DIFF                   /* equal but for a window of three characters */
    B.n = KV_NB;
    for (i = 0; i < KV_NB; i++)
        B.c[i] = i >= KV_DIFF && i < KV_DIFF + 3 ? any_code(KV_WB) : i < KV_NA ? A.c[i] : any_code(KV_WB);
    b = from_model(ctx, &B, KV_WB, KV_SB, KV_OB, 1);
#   else
    b = make(ctx, &B, KV_WB, KV_NB, KV_SB, KV_OB, 1);
#   endif
    KV_ASSERT(sign(KOS_string_compare(a, b)) == order(&A, 0, A.n, &B, 0, B.n), "strings are ordered by their first difference, a prefix first");
    KV_REACH("compared");
#elif KV_MODE == 1                  /* comparison of ranges */
    {
        const int64_t ab = any_idx(KV_NA), ae = any_idx(KV_NA), bb = any_idx(KV_NB), be = any_idx(KV_NB);
        MODEL         X, Y;
        b = make(ctx, &B, KV_WB, KV_NB, KV_SB, KV_OB, 1);
        KV_ASSUME(lo(ab, KV_NA) <= KV_NA && lo(bb, KV_NB) <= KV_NB);      /* ranges start within the string */
        range(&A, ab, ae, &X);
        range(&B, bb, be, &Y);
        KV_ASSERT(sign(KOS_string_compare_slice(a, ab, ae, b, bb, be)) == order(&X, 0, X.n, &Y, 0, Y.n), "ranges of strings are ordered like the strings they denote");
        KV_REACH("compared");
    }
#elif KV_MODE == 2                  /* slice */
    {
        static const int64_t g[] = { KV_GRID }, g2[] = { KV_GRID2 };
        const int64_t x = any_idx(KV_NA), y = any_idx(KV_NA);
        unsigned      p, q;
        for (p = 0; p < sizeof(g) / sizeof(g[0]); p++)
            for (q = 0; q < sizeof(g2) / sizeof(g2[0]); q++)
                if (x == g[p] && y == g2[q]) {
                    slice1(ctx, a, &A, g[p], g2[q]);
                    check(ctx, a, &A);
                    return;
                }
#   ifdef KV_NATIVE
        slice1(ctx, a, &A, x, y);
#   endif
    }
#elif KV_MODE == 3                  /* one character */
    {
        const int idx = (int)any_idx(KV_NA);
        const int64_t k = idx < 0 ? (int64_t)idx + KV_NA : idx;
        const uint32_t c = KOS_string_get_char_code(ctx, a, idx);
        if (k >= 0 && k < KV_NA) {
            KV_ASSERT(!KOS_is_exception_pending(ctx), "an index in range is accepted");
            for (i = 0; i < KV_NA; i++)
                if (k == i) {
                    KV_ASSERT(c == A.c[i], "the character at the index");
                    R.n = 1;
                    R.c[0] = A.c[i];
                    check(ctx, KOS_string_get_char(ctx, a, idx), &R);
                    KV_REACH("in range");
                }
        }
        else {
            KV_ASSERT(c == ~0U && KOS_is_exception_pending(ctx), "an index out of range raises an exception");
            KOS_clear_exception(ctx);
            KV_ASSERT(IS_BAD_PTR(KOS_string_get_char(ctx, a, idx)) && KOS_is_exception_pending(ctx), "an index out of range raises an exception");
            KV_REACH("out of range");
        }
    }
#elif KV_MODE == 4                  /* concatenation */
    {
        KOS_LOCAL l[3];
        unsigned  k;
#   ifdef KV_TOTAL
        uint16_t  la = kv_u16(), lb = kv_u16();
#       ifdef KV_NATIVE
        la |= 0x8000U;
        lb |= 0x8000U;
#       endif
        KV_ASSUME((uint32_t)la + lb > 0xFFFFU);
#   endif
        KOS_init_local(ctx, &l[0]);
        KOS_init_local(ctx, &l[1]);
        KOS_init_local(ctx, &l[2]);
        b = make(ctx, &B, KV_WB, KV_NB, KV_SB, KV_OB, 1);
        l[0].o = a;
        l[1].o = b;
        l[2].o = a;
        R.n = 0;
        for (k = 0; k < KV_NUM; k++) {
            const MODEL *m = k & 1 ? &B : &A;
            for (i = 0; i < m->n; i++)
                R.c[R.n++] = m->c[i];
        }
#   ifdef KV_TOTAL
        OBJPTR(STRING, a)->header.length = la;
        OBJPTR(STRING, b)->header.length = lb;
        KV_ASSERT(IS_BAD_PTR(KOS_string_add_n(ctx, l, 2)) && KOS_is_exception_pending(ctx), "a string which would be too long is refused");
        KV_REACH("too long");
#   else
        {
            KOS_OBJ_ID r = KOS_string_add_n(ctx, l, KV_NUM);
            check(ctx, r, &R);
            check(ctx, l[0].o, &A);
            check(ctx, l[1].o, &B);
            KV_REACH("concatenated");
        }
#   endif
        KOS_destroy_top_local(ctx, &l[2]);
        KOS_destroy_top_local(ctx, &l[1]);
        KOS_destroy_top_local(ctx, &l[0]);
    }
#elif KV_MODE == 5 || KV_MODE == 6  /* find, scan */
    {
        int pos = (int)any_idx(KV_NA), want = -1, p, e;
        const int start = pos;
        b = make(ctx, &B, KV_WB, KV_NB, KV_SB, KV_OB, 1);
        if (start >= 0 && start < KV_NA && !(KV_MODE == 5 && start > KV_NA - KV_NB)) {
            if (KV_REV) {
                for (p = KV_NA - 1; p >= 0; p--)
                    if (p <= start && want < 0 && hit(&A, &B, p))
                        want = p;
            }
            else
                for (p = 0; p < KV_NA; p++)
                    if (p >= start && want < 0 && hit(&A, &B, p))
                        want = p;
        }
#   if KV_MODE == 5
        e = KOS_string_find(ctx, a, b, KV_REV ? KOS_FIND_REVERSE : KOS_FIND_FORWARD, &pos);
#   else
        e = KOS_string_scan(ctx, a, b, KV_REV ? KOS_FIND_REVERSE : KOS_FIND_FORWARD, KV_INC ? KOS_SCAN_INCLUDE : KOS_SCAN_EXCLUDE, &pos);
#   endif
        KV_ASSERT(e == KOS_SUCCESS && !KOS_is_exception_pending(ctx), "searching succeeds");
        KV_ASSERT(pos == want, "the position is the nearest one that matches, or -1");
        if (want >= 0)
            KV_REACH("found");
        else
            KV_REACH("not found");
        (void)hit;
    }
#elif KV_MODE == 7                  /* reverse */
    R.n = A.n;
    for (i = 0; i < A.n; i++)
        R.c[i] = A.c[A.n - 1 - i];
    check(ctx, KOS_string_reverse(ctx, a), &R);
    check(ctx, a, &A);
    KV_REACH("reversed");
#elif KV_MODE == 8                  /* repeat */
    {
        unsigned k;
        R.n = 0;
        for (k = 0; k < KV_NUM; k++)
            for (i = 0; i < A.n; i++)
                R.c[R.n++] = A.c[i];
        check(ctx, KOS_string_repeat(ctx, a, KV_NUM), &R);
        KV_REACH("repeated");
    }
#elif KV_MODE == 9                  /* case */
    {
        KOS_OBJ_ID r;
#   ifdef KV_NATIVE
        setlocale(LC_ALL, "C.UTF-8");
#   endif
        R.n = A.n;
        for (i = 0; i < A.n; i++)
            R.c[i] = A.c[i] >= 0x10000U ? A.c[i] : KV_UP ? (uint32_t)towupper((wint_t)A.c[i]) : (uint32_t)towlower((wint_t)A.c[i]);
        r = KV_UP ? KOS_string_uppercase(ctx, a) : KOS_string_lowercase(ctx, a);
        check(ctx, r, &R);
        check(ctx, a, &A);
        KV_REACH("converted");
    }
#elif KV_MODE == 10                 /* hash */
    {
        uint32_t h;
        /* the same code points stored in another way */
        for (i = 0; i < A.n; i++)
            KV_ASSUME(A.c[i] <= (KV_WB == 0 ? 0xFFU : KV_WB == 1 ? 0xFFFFU : 0x1FFFFFU));
        b = from_model(ctx, &A, KV_WB, KV_SB, KV_OB, 1);
        h = KOS_string_get_hash(a);
        KV_ASSERT(h == KOS_string_get_hash(b), "strings with the same characters have the same hash");
        KV_ASSERT(h == KOS_string_get_hash(a), "the hash does not change");
        KV_ASSERT(KOS_string_compare(a, b) == 0, "strings with the same characters are equal");
        check(ctx, a, &A);
        KV_REACH("hashed");
    }
#elif KV_MODE == 11                 /* from codes, iteration */
    {
        KOS_OBJ_ID      arr = KOS_new_array(ctx, KV_NA);
        KOS_STRING_ITER it;
        int             bad = 0;
        int64_t         v[KV_NA];
        KV_ASSUME(!IS_BAD_PTR(arr));
        R.n = KV_NA;
        for (i = 0; i < KV_NA; i++) {
            v[i] = kv_i64();
#   ifdef KV_NATIVE
            if (v[i] & 15) v[i] = any_code(KV_WA);
#   endif
            KV_ASSUME(v[i] >= (-1LL - KV_BAD) && v[i] <= 0x1FFFFF + KV_BAD);
            if (v[i] < 0 || v[i] > 0x1FFFFF)
                bad = 1;
            R.c[i] = (uint32_t)v[i];
            (void)KOS_array_write(ctx, arr, (int)i, TO_SMALL_INT(v[i]));
        }
        b = KOS_new_string_from_codes(ctx, arr);
        if (bad) {
            KV_ASSERT(IS_BAD_PTR(b) && KOS_is_exception_pending(ctx), "invalid code points are refused");
            KV_REACH("refused");
        }
        else {
            check(ctx, b, &R);
            KOS_init_string_iter(&it, b);
            for (i = 0; i < KV_NA; i++) {
                KV_ASSERT(!KOS_is_string_iter_end(&it), "iteration reaches every character");
                KV_ASSERT(KOS_string_iter_peek_next_code(&it) == R.c[i], "iteration gives the characters in order");
                KOS_string_iter_advance(&it);
            }
            KV_ASSERT(KOS_is_string_iter_end(&it), "iteration ends after the last character");
            KV_REACH("created");
        }
    }
#endif
}
