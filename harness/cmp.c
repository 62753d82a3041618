/* Contract of value comparison: exact on integers whatever their representation, IEEE on
 * floats (NaN unordered, also with itself), false < true, by type between other types. */
#include "kv_ops.h"
void harness(void)
{
    KOS_CONTEXT        ctx = kv_init();
    KOS_OBJ_ID         x, y;
    KV_VAL             a, b;
    KOS_COMPARE_RESULT want, got, rev;

    x = kv_operand(ctx, KA, &a);
#ifdef KV_SAME
    y = x; b = a;
#else
    y = kv_operand(ctx, KB, &b);
#endif
    if (KA <= 2 && KB <= 2) {
        if (KA == 2 || KB == 2) {
            double p = kv_as_f(&a), q = kv_as_f(&b);
            want = p != p || q != q ? KOS_INDETERMINATE : p < q ? KOS_LESS_THAN : p > q ? KOS_GREATER_THAN : KOS_EQUAL;
        }
        else
            want = a.i < b.i ? KOS_LESS_THAN : a.i > b.i ? KOS_GREATER_THAN : KOS_EQUAL;
    }
    else if (KA == KB)
        want = a.i < b.i ? KOS_LESS_THAN : a.i > b.i ? KOS_GREATER_THAN : KOS_EQUAL; /* void, boolean */
    else
        want = kv_kind_type(KA) < kv_kind_type(KB) ? KOS_LESS_THAN : KOS_GREATER_THAN;

    got = KOS_compare(x, y);
    rev = KOS_compare(y, x);
    KV_REACH("end");
    KV_ASSERT(got == want, "comparison gives the mathematical order");
    KV_ASSERT(rev == (want == KOS_LESS_THAN ? KOS_GREATER_THAN : want == KOS_GREATER_THAN ? KOS_LESS_THAN : want),
              "comparison the other way round gives the opposite order");
}
