/* Contract of truthiness: void, false, integer 0 and float zero are false, everything else is true. */
#include "kv_ops.h"
void harness(void)
{
    KOS_CONTEXT ctx = kv_init();
    KV_VAL      a;
    KOS_OBJ_ID  o = kv_operand(ctx, KA, &a);
    int         t = KA == 3 ? 0 : KA <= 1 ? a.i != 0 : KA == 2 ? !(a.f == 0) : KA == 4 ? a.i != 0 : 1;
    KV_REACH("end");
    KV_ASSERT(!kos_is_truthy(o) == !t, "void, false and zeroes are false, everything else is true");
}
