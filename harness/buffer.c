/* Contracts of the buffer functions: after every call the buffer is exactly the byte
 * sequence which the operation defines, no byte outside the storage is touched, and
 * other buffers keep their bytes.  KV_MODE selects the operation.
 *
 * KV_GHOST: unbounded version.  Sizes and capacities are any 32-bit values.  Byte
 * contents are tracked by ghost state: the C library's memcpy, memmove and memset are
 * replaced by their contracts (both ranges inside their blocks; no overlap for memcpy)
 * and record the effect, and `at` follows a byte back to where it came from.  Without
 * it the bytes are real memory and the sizes small. */
#include "kv.h"
#include "core/kos_math.h"

#ifndef KV_PRE
#define KV_PRE 0
#endif
#ifdef KV_NATIVE
#undef KV_GHOST
#endif
#ifndef KV_N
#define KV_N 5
#endif

#ifdef KV_GHOST
typedef struct { const uint8_t *p; int v; } BYTE;
#define MAXLOG 2
static struct { uint8_t *d; const uint8_t *s; uint64_t n; int v; } kv_log[MAXLOG];
static unsigned kv_nlog;

static int inside(const uint8_t *p, const uint8_t *d, uint64_t n)
{
    return __CPROVER_same_object(p, d) && __CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(d) &&
           (uint64_t)(__CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(d)) < n;
}
static BYTE at(const uint8_t *p)
{
    BYTE r;
    unsigned i;
    r.p = p;
    r.v = -1;
    for (i = MAXLOG; i > 0; i--)
        if (i <= kv_nlog && r.v < 0 && inside(r.p, kv_log[i - 1].d, kv_log[i - 1].n)) {
            if (kv_log[i - 1].s)
                r.p = kv_log[i - 1].s + (__CPROVER_POINTER_OFFSET(r.p) - __CPROVER_POINTER_OFFSET(kv_log[i - 1].d));
            else {
                r.v = kv_log[i - 1].v;
                r.p = 0;
            }
        }
    return r;
}
static int same(BYTE a, BYTE b) { return a.v == b.v && a.p == b.p; }
static BYTE byte(uint8_t v) { BYTE r; r.p = 0; r.v = v; return r; }
uint64_t kv_block_size(const void *p);
static void block_ok(const void *p, uint64_t n)
{
    KV_ASSERT((uint64_t)__CPROVER_POINTER_OFFSET(p) + n <= kv_block_size(p), "only bytes of the storage are touched");
}
static void record(void *d, const void *s, uint64_t n, int v)
{
    KV_ASSERT(kv_nlog < MAXLOG, "[limit] number of block operations");
    block_ok(d, n);
    if (s)
        block_ok(s, n);
    kv_log[kv_nlog].d = d;
    kv_log[kv_nlog].s = s;
    kv_log[kv_nlog].n = n;
    kv_log[kv_nlog++].v = v;
}
void *memcpy(void *d, const void *s, size_t n)
{
    KV_ASSERT(n == 0 || !(inside(d, s, n) || inside(s, d, n)), "memcpy is used on ranges which do not overlap");
    if (n) record(d, s, n, -1);
    return d;
}
void *memmove(void *d, const void *s, size_t n) { if (n) record(d, s, n, -1); return d; }
void *memset(void *d, int v, size_t n)          { if (n) record(d, 0, n, (uint8_t)v); return d; }
#else
typedef int BYTE;
static BYTE at(const uint8_t *p)   { return *p; }
static int  same(BYTE a, BYTE b)   { return a == b; }
static BYTE byte(uint8_t v)        { return v; }
#endif

static KOS_BUFFER_STORAGE *stor(KOS_OBJ_ID b)
{
    KOS_OBJ_ID d = OBJPTR(BUFFER, b)->data;
    return IS_BAD_PTR(d) ? 0 : OBJPTR(BUFFER_STORAGE, d);
}
static BYTE get(KOS_OBJ_ID b, uint32_t k) { return at(stor(b)->ptr + k); }

/* the invariant of every buffer */
static void valid(KOS_OBJ_ID b)
{
    KV_ASSERT(GET_OBJ_TYPE(b) == OBJ_BUFFER, "the result is a buffer");
    KV_ASSERT(KOS_get_buffer_size(b) <= (stor(b) ? stor(b)->capacity : 0), "the size is within the capacity");
#ifdef KV_GHOST
    if (stor(b))
        KV_ASSERT((uint64_t)__CPROVER_POINTER_OFFSET(stor(b)->ptr) + stor(b)->capacity <= kv_block_size(stor(b)->ptr), "the capacity is within the storage");
#endif
}

#ifdef KV_EXT
static uint8_t kv_ext[512];
#ifdef KV_GHOST
uint64_t kv_ext_size;
const void *kv_ext_ptr = kv_ext;
#endif
#endif

static KOS_OBJ_ID make(KOS_CONTEXT ctx, int ext)
{
    KOS_OBJ_ID b;
    uint32_t   size;
#ifdef KV_GHOST
    uint32_t cap = kv_u32();
#   ifdef KV_EXT
    if (ext == 1) {
        kv_ext_size = cap;
        b = KOS_new_external_buffer(ctx, kv_ext, cap, 0, 0);
        KV_ASSUME(!IS_BAD_PTR(b));
        valid(b);
        size = kv_u32();
        KV_ASSUME(size <= cap);
        OBJPTR(BUFFER, b)->size = size;
        return b;
    }
#   endif
    /* any buffer which satisfies the invariant */
    b = OBJID(BUFFER, (KOS_BUFFER *)kos_alloc_object(ctx, KOS_ALLOC_MOVABLE, OBJ_BUFFER, sizeof(KOS_BUFFER)));
    OBJPTR(BUFFER, b)->flags = 0;
    OBJPTR(BUFFER, b)->data = KOS_BADPTR;
    KV_ASSUME(cap <= 0xFFFFFFFFU - 256U);
    if (cap) {
        KOS_BUFFER_STORAGE *s = (KOS_BUFFER_STORAGE *)kos_alloc_object(ctx, KOS_ALLOC_MOVABLE, OBJ_BUFFER_STORAGE, (uint32_t)sizeof(KOS_BUFFER_STORAGE) - 1U + cap);
        s->ptr      = &s->buf[0];
        s->flags    = 0;
        s->capacity = cap;
        OBJPTR(BUFFER, b)->data = OBJID(BUFFER_STORAGE, s);
    }
    size = kv_u32();
    KV_ASSUME(size <= cap);
    OBJPTR(BUFFER, b)->size = size;
    return b;
#else
    uint32_t i;
#   ifdef KV_NATIVE
    size = kv_range(0, 300);
#   else
    size = KV_N;
#   endif
#   ifdef KV_EXT
    if (ext == 1)
        b = KOS_new_external_buffer(ctx, kv_ext, size, 0, 0);
    else
#   endif
        b = KOS_new_buffer(ctx, size);
    KV_ASSUME(!IS_BAD_PTR(b));
    KV_ASSERT(KOS_get_buffer_size(b) == size, "a new buffer has the requested size");
    valid(b);
    if (size) {
        uint8_t *p = KOS_buffer_data_volatile(ctx, b);
        KV_ASSERT(p != 0, "the bytes of a buffer are accessible");
        for (i = 0; i < size; i++)
#   ifdef KV_NATIVE
            p[i] = (uint8_t)(i * 7 + 3 + (ext & 2) * 50);
#   else
            p[i] = kv_u8();
#   endif
    }
    return b;
#endif
}

static int64_t fix(int64_t i, uint32_t n) { return i < 0 ? (i + (int64_t)n < 0 ? 0 : i + (int64_t)n) : i > (int64_t)n ? (int64_t)n : i; }

static int64_t any_idx(uint32_t n)
{
    int64_t v = kv_i64();
#ifdef KV_NATIVE
    if ((v & 7) < 6) v = (int64_t)((uint64_t)v / 8 % (2 * (uint64_t)n + 5)) - (int64_t)n - 2;
    else if ((v & 7) == 6) v = (int64_t)(int32_t)v + 0x100000000LL;
#endif
    return v;
}
static uint32_t any_size(void)
{
    uint32_t v = kv_u32();
#ifdef KV_NATIVE
    v = (v & 15) ? (v >> 4) % 700 : 0xFFFFFFFFU - (v >> 4) % 150;
#elif !defined(KV_GHOST)
    KV_ASSUME(v <= 9);
#endif
    return v;
}
/* any index below n (n > 0) */
static uint32_t any_below(uint32_t n)
{
    uint32_t k = kv_u32();
#ifdef KV_NATIVE
    k %= n;
#endif
    KV_ASSUME(k < n);
    return k;
}

#ifdef KV_RO
#define LOCK(b) (OBJPTR(BUFFER, b)->flags |= KOS_READ_ONLY)
#define DONE(ok, what) do { KV_ASSERT(!(ok), "a read-only buffer refuses to be changed"); KV_ASSERT(KOS_is_exception_pending(ctx), "with an exception"); KOS_clear_exception(ctx); n1 = n0; refused = 1; } while (0)
#else
#define LOCK(b) ((void)0)
#define DONE(ok, what) do { KV_ASSERT(ok, what); KV_ASSERT(!KOS_is_exception_pending(ctx), "no exception is raised"); } while (0)
#endif
/* sizes with which the code may refuse, as it cannot allocate that much */
#define HUGE_SIZE(n) ((uint64_t)(n) > 0xFFFFFFFFULL - 256U)

void harness(void)
{
    KOS_CONTEXT ctx = kv_init();
    KOS_OBJ_ID  b, r, src = KOS_BADPTR;
    uint32_t    n0, n1, k = 0;
    int         refused = 0, has;
    BYTE        old, old2;
#ifdef KV_GHOST
    kv_nlog = 0;
#endif
#ifdef KV_EXT
    b = make(ctx, 1);
#else
    b = make(ctx, 0);
#endif
    n0 = n1 = KOS_get_buffer_size(b);
    has = n0 > 0;
    if (has) {
        k   = any_below(n0);
        old = get(b, k);
    }
    else
        old = byte(0);
    old2 = byte(0);
    LOCK(b);

#if KV_MODE == 0            /* new, resize to the same size */
    {
        const uint32_t n = any_size();
        r = KOS_new_buffer(ctx, n);
        if (IS_BAD_PTR(r)) {
            KV_ASSERT(HUGE_SIZE(n), "a buffer is created");
            KV_ASSERT(KOS_is_exception_pending(ctx), "failure raises an exception");
        }
        else {
            KV_ASSERT(KOS_get_buffer_size(r) == n, "a new buffer has the requested size");
            valid(r);
            KV_ASSERT(r != b && (!stor(r) || stor(r) != stor(b)), "a new buffer is separate from the others");
            KV_REACH("created");
        }
        KOS_clear_exception(ctx);
    }
#elif KV_MODE == 1          /* reserve */
    {
        const uint32_t c = any_size();
        const uint32_t cap0 = stor(b) ? stor(b)->capacity : 0;
        const int      e = KOS_buffer_reserve(ctx, b, c);
        if (e && HUGE_SIZE(c)) {
            KOS_clear_exception(ctx);
            KV_ASSERT((stor(b) ? stor(b)->capacity : 0) == cap0, "a refused reservation changes nothing");
        }
        else {
#   ifdef KV_EXT
            KV_ASSERT(e == KOS_ERROR_EXCEPTION, "external storage cannot be replaced");
            KOS_clear_exception(ctx);
#   else
            DONE(e == KOS_SUCCESS, "capacity can be reserved");
            if (!refused)
                KV_ASSERT((stor(b) ? stor(b)->capacity : 0) >= c && (stor(b) ? stor(b)->capacity : 0) >= cap0, "at least the requested capacity is there");
#   endif
            KV_REACH("reserved");
        }
    }
#elif KV_MODE == 2          /* resize */
    {
        const uint32_t n = any_size();
        const uint32_t cap0 = stor(b) ? stor(b)->capacity : 0;
        const int      e = KOS_buffer_resize(ctx, b, n);
        if (e && n > cap0 && (HUGE_SIZE(n) || HUGE_SIZE(2ULL * cap0)))
            KOS_clear_exception(ctx);
        else {
#   ifdef KV_EXT
            if (n > cap0) {
                KV_ASSERT(e == KOS_ERROR_EXCEPTION, "a buffer with external storage does not grow beyond it");
                KOS_clear_exception(ctx);
                n1 = n0;
                refused = 1;
                KV_REACH("refused");
            }
#   endif
            if (!refused) {
                n1 = n;
                DONE(e == KOS_SUCCESS, "the buffer is resized");
                KV_REACH("resized");
            }
        }
        (void)cap0;
    }
#elif KV_MODE == 3          /* make room */
    {
        const uint32_t d = any_size();
        const uint32_t cap0 = stor(b) ? stor(b)->capacity : 0;
        uint8_t       *p = KOS_buffer_make_room(ctx, b, d);
        const uint64_t want = (uint64_t)n0 + d;
        (void)cap0;
        if (!p && (HUGE_SIZE(want) || (HUGE_SIZE(2ULL * cap0) && KOS_max(want, 1024U) > cap0)
#   ifdef KV_EXT
                   || 1
#   endif
                   || (!d && !stor(b)))) {
            KV_ASSERT(KOS_is_exception_pending(ctx), "a refusal is an exception");
            KOS_clear_exception(ctx);
        }
        else {
#   ifdef KV_RO
            n1 = n0;
            DONE(p != 0, "room is made");
            (void)want;
#   else
            n1 = (uint32_t)want;
            KV_ASSERT(want <= 0xFFFFFFFFULL, "the size never exceeds 32 bits");
            DONE(p != 0, "room is made");
            KV_ASSERT(p == stor(b)->ptr + n0, "the room starts after the last byte");
#   endif
            KV_REACH("room made");
        }
    }
#elif KV_MODE == 4          /* fill */
    {
        const int64_t x = any_idx(n0), y = any_idx(n0);
        const uint8_t v = kv_u8();
        const int     e = KOS_buffer_fill(ctx, b, x, y, v);
        DONE(e == KOS_SUCCESS, "a range of a buffer can be filled");
        if (!refused && has && (int64_t)k >= fix(x, n0) && (int64_t)k < fix(y, n0)) {
#   ifndef KV_RO
            KV_REACH("filled");
#   endif
            KV_ASSERT(same(get(b, k), byte(v)), "every byte of the range has the new value");
            has = 0;
        }
#   ifdef KV_RO
        KV_REACH("refused");
#   endif
    }
#elif KV_MODE == 5          /* copy */
    {
        const int64_t db = any_idx(n0);
        int64_t       x, y, from;
        uint32_t      ns;
        int           e;
#   ifdef KV_SELF
        src = b;
#   else
        src = make(ctx, 2);
#   endif
        ns = KOS_get_buffer_size(src);
        x = any_idx(ns);
        y = any_idx(ns);
        from = (int64_t)k - fix(db, n0) + fix(x, ns);
        if (has && (int64_t)k >= fix(db, n0) && from < fix(y, ns))
            old = get(src, (uint32_t)from);
#   ifndef KV_SELF
        if (ns) {
            const uint32_t j = any_below(ns);
            old2 = get(src, j);
            e = KOS_buffer_copy(ctx, b, db, src, x, y);
            KV_ASSERT(KOS_get_buffer_size(src) == ns, "the source keeps its size");
            KV_ASSERT(same(get(src, j), old2), "the source keeps its bytes");
        }
        else
#   endif
        e = KOS_buffer_copy(ctx, b, db, src, x, y);
        DONE(e == KOS_SUCCESS, "a range of a buffer can be copied");
        KV_REACH("copied");
        if (refused)
            has = 0;
    }
#elif KV_MODE == 6          /* slice */
    {
        const int64_t x = any_idx(n0), y = any_idx(n0);
        const int64_t f = fix(x, n0), t = fix(y, n0);
        r = KOS_buffer_slice(ctx, b, x, y);
        KV_ASSERT(!IS_BAD_PTR(r) || HUGE_SIZE(n0), "a slice is created");
        KOS_clear_exception(ctx);
        if (!IS_BAD_PTR(r)) {
            valid(r);
            KV_ASSERT(r != b && (!stor(r) || stor(r) != stor(b)), "a slice is a separate buffer");
            KV_ASSERT(KOS_get_buffer_size(r) == (uint32_t)(f < t ? t - f : 0), "a slice has the right size");
            if (has && (int64_t)k >= f && (int64_t)k < t) {
                KV_ASSERT(same(get(r, (uint32_t)((int64_t)k - f)), old), "a slice has the right bytes");
                KV_REACH("sliced");
            }
        }
    }
#elif KV_MODE == 7          /* access */
    {
        uint8_t *p = KOS_buffer_data(ctx, b);
#   ifdef KV_RO
        DONE(p != 0, "");
#   else
        KV_ASSERT(p != 0, "the bytes are accessible");
        KV_ASSERT(p == stor(b)->ptr, "access is to the first byte");
        if (has)
            KV_ASSERT(same(at(p + k), old), "access sees the bytes of the buffer");
#   endif
        KV_REACH("accessed");
    }
#endif
    valid(b);
    KV_ASSERT(KOS_get_buffer_size(b) == n1, "the buffer has the right size");
    if (has && k < n1)
        KV_ASSERT(same(get(b, k), old), "every other byte keeps its value");
    (void)r; (void)src; (void)old2;
}
