/* Contract of bitwise complement, for every number. */
#include "kv_ops.h"
void harness(void)
{
    static const uint8_t code[] = { INSTR_LOAD_CONST, 0, 0, INSTR_NOT, 1, 0, INSTR_RETURN, 1 };
    KOS_CONTEXT ctx = kv_init();
    KOS_OBJ_ID  c[1], ret;
    KV_VAL      a;
    int64_t     i = 0;
    int         bad;

    c[0] = kv_operand(ctx, KA, &a);
    ret  = kv_run(ctx, code, sizeof(code), 2, c, 1);
    bad  = kv_to_int(&a, &i);
    KV_REACH("end");
    if (bad) {
#ifdef KV_CAN_FAIL
        KV_REACH("error");
#endif
        KV_ASSERT(IS_BAD_PTR(ret) && KOS_is_exception_pending(ctx), "a number out of integer range raises an exception");
    }
    else {
        KV_REACH("value");
        KV_ASSERT(!IS_BAD_PTR(ret) && !KOS_is_exception_pending(ctx), "complement of an integer gives a result");
        if (!IS_BAD_PTR(ret))
            KV_ASSERT(kv_is_int(ret) && kv_get_int(ret) == ~i, "complement flips every bit");
    }
}
