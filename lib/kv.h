/* Harness interface, shared by the verifier build (goto-cc, overlaid sources) and
 * the native build (gcc, /repo sources as they are) used to replay counterexamples. */
#ifndef KV_H
#define KV_H

#include "inc/kos_array.h"
#include "inc/kos_buffer.h"
#include "inc/kos_bytecode.h"
#include "inc/kos_constants.h"
#include "inc/kos_entity.h"
#include "inc/kos_error.h"
#include "inc/kos_instance.h"
#include "inc/kos_malloc.h"
#include "inc/kos_memory.h"
#include "inc/kos_module.h"
#include "inc/kos_object.h"
#include "inc/kos_string.h"
#include "inc/kos_utf8.h"
#include "inc/kos_utils.h"
#include "core/kos_config.h"
#include "core/kos_heap.h"
#include "core/kos_object_internal.h"
#include "core/kos_misc.h"
#include <limits.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>

#ifdef KV_NATIVE
#   include <stdio.h>
    void     kv_fail(const char *name);
    void     kv_reject(void);
    void     kv_reach(const char *name);
    uint64_t kv_u64(void);
#   define KV_ASSERT(c, name) do { if (!(c)) kv_fail(name); } while (0)
#   define KV_ASSUME(c)       do { if (!(c)) kv_reject(); } while (0)
#   define KV_REACH(name)     kv_reach(name)
#   define KV_ALIGN(n)        __attribute__((aligned(n)))
#else
    uint64_t kv_u64(void);
#   ifdef KV_REACH_MODE
#       define KV_ASSERT(c, name) ((void)0)
#       define KV_REACH(name)     __CPROVER_assert(0, "REACH:" name)
#   else
#       define KV_ASSERT(c, name) __CPROVER_assert(c, "KV:" name)
#       define KV_REACH(name)     ((void)0)
#   endif
#   define KV_ASSUME(c) __CPROVER_assume(c)
#   define KV_ALIGN(n)
#endif

static inline int64_t  kv_i64(void)    { return (int64_t)kv_u64(); }
static inline uint32_t kv_u32(void)    { return (uint32_t)kv_u64(); }
static inline int32_t  kv_i32(void)    { return (int32_t)(uint32_t)kv_u64(); }
static inline uint16_t kv_u16(void)    { return (uint16_t)kv_u64(); }
static inline uint8_t  kv_u8(void)     { return (uint8_t)kv_u64(); }
double kv_f64(void);
/* value in [lo, hi] */
static inline uint32_t kv_range(uint32_t lo, uint32_t hi)
{
    uint32_t v = (uint32_t)kv_u64();
#ifdef KV_NATIVE
    if (v < lo || v > hi) v = lo + v % (hi - lo + 1U);
#else
    KV_ASSUME(v >= lo && v <= hi);
#endif
    return v;
}
/* IEEE identity, all NaNs alike; distinguishes -0.0 from 0.0 */
#ifdef KV_NATIVE
static inline int kv_same(double a, double b) { return (a != a && b != b) || (a == b && !signbit(a) == !signbit(b)); }
#else
static inline int kv_same(double a, double b) { return (a != a && b != b) || (a == b && __CPROVER_signd(a) == __CPROVER_signd(b)); }
#endif

/* A ready context: natively a real instance, in the verifier the documented
 * representation of one (see kv_rt_cbmc.c) */
KOS_CONTEXT kv_init(void);

/* Runs a bytecode function in the real VM and returns what KOS_run_module returns */
KOS_OBJ_ID kv_run(KOS_CONTEXT ctx, const uint8_t *code, uint32_t size, unsigned num_regs,
                  KOS_OBJ_ID *consts, unsigned num_consts);

/* Objects with chosen representation */
KOS_OBJ_ID kv_boxed_int(KOS_CONTEXT ctx, int64_t v);   /* KOS_INTEGER object, whatever the value */

static inline int     kv_is_int(KOS_OBJ_ID o)  { return GET_OBJ_TYPE(o) <= OBJ_INTEGER; }
static inline int64_t kv_get_int(KOS_OBJ_ID o) { return IS_SMALL_INT(o) ? GET_SMALL_INT(o) : OBJPTR(INTEGER, o)->value; }

void harness(void);
#endif
