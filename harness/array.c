/* Contracts of the array functions: after every call the array is exactly the
 * sequence which the operation defines, for every index, range and position.
 * KV_MODE selects the operation, KV_N the number of elements before it, KV_PRE how
 * the array got there (0 created with that size, 1 shrunk from a larger one, 2 pushed
 * one by one, 3 moved to a new storage). */
#include "kv.h"

#ifndef KV_PRE
#define KV_PRE 0
#endif
#ifndef KV_M
#define KV_M 0
#endif
#ifndef KV_SELF
#define KV_SELF 0
#endif
#ifndef KV_SB
#define KV_SB 0
#define KV_SE 0
#endif
#define MAXE 16
/* distinct element objects; 0..7 the array's, 8..15 the others' */
static KOS_FLOAT KV_ALIGN(32) elem_obj[MAXE];
static KOS_OBJ_ID E(unsigned i) { return OBJID(FLOAT, &elem_obj[i]); }

typedef struct { unsigned n; KOS_OBJ_ID e[MAXE]; } MODEL;

static void elems(void)
{
    unsigned i;
    for (i = 0; i < MAXE; i++) {
        kos_set_object_type_size(elem_obj[i].header, OBJ_FLOAT, sizeof(KOS_FLOAT));
        elem_obj[i].value = (double)i;
    }
}

/* an array of n elements starting with E(first) */
static KOS_OBJ_ID make(KOS_CONTEXT ctx, MODEL *m, unsigned n, unsigned first, int pre)
{
    unsigned   i;
    KOS_OBJ_ID a;
    if (pre == 0)
        a = KOS_new_array(ctx, n);
    else if (pre == 1) {
        a = KOS_new_array(ctx, n + 2);
        for (i = 0; i < n + 2; i++)
            (void)KOS_array_write(ctx, a, (int)i, E(15));
        KV_ASSERT(KOS_array_resize(ctx, a, n) == KOS_SUCCESS, "shrinking succeeds");
    }
    else if (pre == 2) {
        a = KOS_new_array(ctx, 0);
        for (i = 0; i < n; i++)
            KV_ASSERT(KOS_array_push(ctx, a, E(15), 0) == KOS_SUCCESS, "pushing succeeds");
    }
    else {
        a = KOS_new_array(ctx, n);
        KV_ASSERT(KOS_array_reserve(ctx, a, n + 3) == KOS_SUCCESS, "reserving succeeds");
    }
    KV_ASSERT(!IS_BAD_PTR(a), "an array is created");
    KV_ASSUME(!IS_BAD_PTR(a));
    for (i = 0; i < n; i++)
        KV_ASSERT(KOS_array_write(ctx, a, (int)i, E(first + i)) == KOS_SUCCESS, "elements below the size can be written");
    m->n = n;
    for (i = 0; i < n; i++)
        m->e[i] = E(first + i);
    return a;
}

/* the array is exactly the model: the size, every element, and nothing beyond */
static void check(KOS_CONTEXT ctx, KOS_OBJ_ID a, const MODEL *m)
{
    unsigned i;
    KV_ASSERT(GET_OBJ_TYPE(a) == OBJ_ARRAY, "the result is an array");
    KV_ASSERT(KOS_get_array_size(a) == m->n, "the array has the right number of elements");
    for (i = 0; i < MAXE; i++)
        if (i < m->n)
            KV_ASSERT(KOS_array_read(ctx, a, (int)i) == m->e[i], "every element is the right one");
    KV_ASSERT(!KOS_is_exception_pending(ctx), "no exception is left behind");
}

/* as check, with an exception possibly pending */
static void check2(KOS_CONTEXT ctx, KOS_OBJ_ID a, const MODEL *m)
{
    unsigned i;
    KV_ASSERT(KOS_get_array_size(a) == m->n, "the source array keeps its elements");
    for (i = 0; i < m->n; i++)
        KV_ASSERT(KOS_array_read(ctx, a, (int)i) == m->e[i], "the source array keeps every element");
}

static int64_t fix(int64_t i, unsigned n) { return i < 0 ? (i + (int64_t)n < 0 ? 0 : i + (int64_t)n) : i > (int64_t)n ? n : i; }

/* an index: any 64-bit value */
static int64_t any_idx(void)
{
    int64_t v = kv_i64();
#ifdef KV_NATIVE
#   ifdef KV_GRID
    { static const int64_t g[] = { KV_GRID, KV_GRID2 }; v = g[(uint64_t)v % (sizeof(g) / sizeof(g[0]))]; }
#   else
    if (v & 3) v = (v >> 2) % 8;
#   endif
#endif
    return v;
}

static void readonly_unchanged(KOS_CONTEXT ctx, KOS_OBJ_ID a, const MODEL *m)
{
    KV_ASSERT(KOS_is_exception_pending(ctx), "a read-only array refuses changes with an exception");
    KOS_clear_exception(ctx);
    check(ctx, a, m);
}

#ifdef KV_RO
#define LOCK(a) (OBJPTR(ARRAY, a)->flags |= KOS_READ_ONLY)
#else
#define LOCK(a) ((void)0)
#endif

#if KV_MODE == 0
static void access_in(KOS_CONTEXT ctx, KOS_OBJ_ID a, MODEL *m, int idx)
{
    const unsigned pos = (unsigned)(idx < 0 ? idx + KV_N : idx);
    KOS_OBJ_ID     b   = KOS_array_read(ctx, a, idx);
    KV_REACH("in range");
    KV_ASSERT(b == m->e[pos], "reading gives the element, counting from the end for a negative index");
#ifdef KV_CAS
    b = KOS_array_cas(ctx, a, idx, E((pos + 1) % MAXE), E(8));
    KV_ASSERT(b == m->e[pos], "failed compare-and-swap gives the present element");
    check(ctx, a, m);
    b = KOS_array_cas(ctx, a, idx, m->e[pos], E(8));
    KV_ASSERT(b == m->e[pos], "compare-and-swap gives the previous element");
#else
    KV_ASSERT(KOS_array_write(ctx, a, idx, E(8)) == KOS_SUCCESS, "writing in range succeeds");
#endif
    m->e[pos] = E(8);
    check(ctx, a, m);
}
#endif

#if KV_MODE == 2 || KV_MODE == 3 || KV_MODE == 5
#ifdef KV_GRID
static const int64_t grid[] = { KV_GRID }, grid2[] = { KV_GRID2 };
#endif
static void ranged(KOS_CONTEXT ctx, KOS_OBJ_ID a, MODEL *m, KOS_OBJ_ID src, MODEL *s, int64_t begin, int64_t end, int64_t sb, int64_t se)
{
    int64_t  fb = fix(begin, KV_N), fe = fix(end, KV_N);
    MODEL    r;
    unsigned i;
    int      error;
    if (fe < fb) fe = fb;
    r.n = 0;
    KV_REACH("called");
#if KV_MODE == 2
    {
        KOS_OBJ_ID b = KOS_array_slice(ctx, a, begin, end);
        while (fb < fe) r.e[r.n++] = m->e[fb++];
        KV_ASSERT(!IS_BAD_PTR(b), "slicing succeeds");
        KV_ASSUME(!IS_BAD_PTR(b));
        check(ctx, b, &r);
        KV_ASSERT(KOS_array_push(ctx, b, E(9), 0) == KOS_SUCCESS, "a slice is an array of its own");
        r.e[r.n++] = E(9);
        check(ctx, b, &r);
        check(ctx, a, m);
        return;
    }
#elif KV_MODE == 3
    {
        int64_t fsb = fix(sb, s->n), fse = fix(se, s->n);
        if (sb == se) fse = fsb;
        error = KOS_array_insert(ctx, a, begin, end, src, sb, se);
        for (i = 0; i < (unsigned)fb; i++) r.e[r.n++] = m->e[i];
        while (fsb < fse) r.e[r.n++] = s->e[fsb++];
        for (i = (unsigned)fe; i < m->n; i++) r.e[r.n++] = m->e[i];
        if (!KV_SELF) check2(ctx, src, s);
    }
#else
    error = KOS_array_fill(ctx, a, begin, end, E(9));
    r = *m;
    while (fb < fe) r.e[fb++] = E(9);
#endif
#ifdef KV_RO
    KV_ASSERT(error == KOS_ERROR_EXCEPTION, "a read-only array refuses changes");
    readonly_unchanged(ctx, a, m);
#else
    KV_ASSERT(error == KOS_SUCCESS, "the operation succeeds");
    check(ctx, a, &r);
#endif
}
#endif

void harness(void)
{
    KOS_CONTEXT ctx = kv_init();
    MODEL       m, r;
    KOS_OBJ_ID  a, b;
    unsigned    i;
    int         error = KOS_SUCCESS, expect = KOS_SUCCESS;

    elems();
    a = make(ctx, &m, KV_N, 0, KV_PRE);
#ifdef KV_ROOM
    KV_ASSERT(KOS_array_reserve(ctx, a, KV_ROOM) == KOS_SUCCESS, "reserving succeeds");
#endif
    LOCK(a);

#if KV_MODE == 0                                    /* read, write, cas at any index */
    {
        const int idx = (int)any_idx();
        int       pos;
#ifndef KV_OUT
        for (pos = -KV_N; pos < KV_N; pos++)
            if (idx == pos) {
                access_in(ctx, a, &m, pos);
                return;
            }
#else
        KV_ASSUME(idx < -KV_N || idx >= KV_N);
        pos = 0;
        b = KOS_array_read(ctx, a, idx);
        KV_ASSERT(IS_BAD_PTR(b) && KOS_is_exception_pending(ctx), "reading out of range raises an exception");
        KOS_clear_exception(ctx);
#ifdef KV_CAS
        b = KOS_array_cas(ctx, a, idx, E(0), E(8));
        KV_ASSERT(IS_BAD_PTR(b) && KOS_is_exception_pending(ctx), "compare-and-swap out of range raises an exception");
#else
        error = KOS_array_write(ctx, a, idx, E(8));
        KV_ASSERT(error == KOS_ERROR_EXCEPTION && KOS_is_exception_pending(ctx), "writing out of range raises an exception");
#endif
        KOS_clear_exception(ctx);
        KV_REACH("out of range");
        check(ctx, a, &m);
#endif
        return;
    }
#elif KV_MODE == 1                                  /* resize, then resize again */
    {
        unsigned n1 = KV_N1, n2 = KV_N2;
        error = KOS_array_resize(ctx, a, n1);
#ifndef KV_RO
        for (i = m.n; i < n1; i++) m.e[i] = KOS_VOID;
        m.n = n1;
        if (!error) {
            check(ctx, a, &m);
            error = KOS_array_resize(ctx, a, n2);
            for (i = m.n; i < n2; i++) m.e[i] = KOS_VOID;
            m.n = n2;
        }
#endif
    }
#elif KV_MODE == 4                                  /* push, pop */
    {
        uint32_t idx = 99;
        error = KOS_array_push(ctx, a, E(9), &idx);
        if (!error) {
            KV_ASSERT(idx == KV_N, "push gives the index of the new element");
            m.e[m.n++] = E(9);
            check(ctx, a, &m);
            b = KOS_array_pop(ctx, a);
            KV_ASSERT(b == E(9), "pop gives the last element");
            m.n--;
            check(ctx, a, &m);
            b = KOS_array_pop(ctx, a);
#if KV_N == 0
            KV_ASSERT(IS_BAD_PTR(b) && KOS_is_exception_pending(ctx), "popping an empty array raises an exception");
            KOS_clear_exception(ctx);
#else
            m.n--;
            KV_ASSERT(b == m.e[m.n], "pop gives the last element again");
            check(ctx, a, &m);
            error = KOS_array_resize(ctx, a, KV_N);
            m.e[m.n++] = KOS_VOID;
#endif
        }
    }
#elif KV_MODE == 2 || KV_MODE == 3 || KV_MODE == 5
    {
        const int64_t begin = any_idx(), end = any_idx();
        MODEL         s;
#if KV_MODE == 3
        if (KV_SELF) { b = a; s = m; }
        else b = make(ctx, &s, KV_M, 8, 0);
#else
        b = a; s.n = 0;
#endif
#ifdef KV_GRID
        {
            unsigned j;
            for (i = 0; i < sizeof(grid) / sizeof(grid[0]); i++)
                for (j = 0; j < sizeof(grid2) / sizeof(grid2[0]); j++)
                    if (begin == grid[i] && end == grid2[j]) {
                        ranged(ctx, a, &m, b, &s, grid[i], grid2[j], KV_SB, KV_SE);
                        return;
                    }
        }
#else
        ranged(ctx, a, &m, b, &s, begin, end, KV_SB, KV_SE);
#endif
        return;
    }
#elif KV_MODE == 6                                  /* reserve */
    error = KOS_array_reserve(ctx, a, KV_N1);
#endif
#if KV_MODE == 1 || KV_MODE == 4 || KV_MODE == 6
    KV_REACH("end");
#endif
#ifdef KV_RO
    KV_ASSERT(error == KOS_ERROR_EXCEPTION, "a read-only array refuses changes");
    readonly_unchanged(ctx, a, &m);
#else
    KV_ASSERT(error == expect, "the operation succeeds");
    check(ctx, a, &m);
#endif
}
