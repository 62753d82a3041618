/* Contract of the comparison instructions over the contract of KOS_compare (cmp.c). */
#include "kv_ops.h"
static KOS_OBJ_ID c[2];
static unsigned   r;
#ifndef KV_NATIVE
KOS_COMPARE_RESULT KOS_compare(KOS_OBJ_ID a, KOS_OBJ_ID b)
{
    KV_ASSERT(a == c[0] && b == c[1], "operands are compared in order");
    return (KOS_COMPARE_RESULT)r;
}
#endif
void harness(void)
{
    static const uint8_t code[] = {
        INSTR_LOAD_CONST, 0, 0, INSTR_LOAD_CONST, 1, 1, KV_OP, 2, 0, 1, INSTR_RETURN, 2 };
    KOS_CONTEXT ctx = kv_init();
    KOS_OBJ_ID  ret;
    int         eq, lt, want;

    r = kv_range(0, 3);
    KV_ASSUME(r == KOS_EQUAL || r == KOS_LESS_THAN || r == KOS_GREATER_THAN || r == KOS_INDETERMINATE);
    c[0] = KOS_new_float(ctx, r == KOS_INDETERMINATE ? 0.0 / 0.0 : r == KOS_GREATER_THAN ? 2.0 : 1.0);
    c[1] = KOS_new_float(ctx, r == KOS_LESS_THAN ? 2.0 : 1.0);

    ret  = kv_run(ctx, code, sizeof(code), 3, c, 2);

    eq   = r == KOS_EQUAL;
    lt   = r == KOS_LESS_THAN;
    want = KV_OP == INSTR_CMP_EQ ? eq : KV_OP == INSTR_CMP_NE ? !eq : KV_OP == INSTR_CMP_LT ? lt : (lt || eq);
    KV_REACH("end");
    KV_ASSERT(!IS_BAD_PTR(ret) && !KOS_is_exception_pending(ctx), "comparison never fails");
    KV_ASSERT(ret == KOS_BOOL(want), "the instruction gives the truth value of the comparison");
}
