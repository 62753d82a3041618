/* Contract of conversion to integer: integers unchanged, floats rounded towards minus
 * infinity when that is representable, anything else an exception. */
#include "kv_ops.h"
void harness(void)
{
    KOS_CONTEXT ctx = kv_init();
    KV_VAL      a;
    KOS_OBJ_ID  o   = kv_operand(ctx, KA, &a);
    int64_t     got = 0, want = 0;
    int         bad = KA > 2 ? 1 : kv_to_int(&a, &want);
    int         err = KOS_get_integer(ctx, o, &got);
    KV_REACH("end");
    KV_ASSERT((err != KOS_SUCCESS) == bad, "conversion fails exactly when there is no such integer");
    KV_ASSERT(KOS_is_exception_pending(ctx) == bad, "failure raises an exception");
    if (!bad)
        KV_ASSERT(got == want, "conversion gives the largest integer not above the number");
}
