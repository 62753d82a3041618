/* Contract: a numeric operator applied to an operand which is not a number raises an exception. */
#include "kv_ops.h"
void harness(void)
{
    static const uint8_t code[] = {
        INSTR_LOAD_CONST, 0, 0, INSTR_LOAD_CONST, 1, 1,
        KV_OP, 2, 0,
#ifndef KV_UNARY
        1,
#endif
        INSTR_RETURN, 2 };
    KOS_CONTEXT ctx = kv_init();
    KOS_OBJ_ID  c[2], ret;
    KV_VAL      a, b;

    c[0] = kv_operand(ctx, KA, &a);
    c[1] = kv_operand(ctx, KB, &b);
    ret  = kv_run(ctx, code, sizeof(code), 3, c, 2);
    KV_REACH("end");
    KV_ASSERT(IS_BAD_PTR(ret), "a type error gives no result");
    KV_ASSERT(KOS_is_exception_pending(ctx), "a type error raises an exception");
}
