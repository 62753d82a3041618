/* Contract of the VM's binary numeric operators, for every pair of numbers.
 * KV_OP: instruction; KA, KB: operand representation (0 inline integer, 1 boxed
 * integer, 2 float).  The bytecode runs in the real VM (KOS_run_module). */
#include "kv_ops.h"

#ifdef KV_TOINT_UF
int KOS_get_integer(KOS_CONTEXT ctx, KOS_OBJ_ID o, int64_t *ret)
{
    KV_VAL v;
    v.is_float = GET_OBJ_TYPE(o) == OBJ_FLOAT; v.i = 0; v.f = 0;
    KV_ASSERT(GET_OBJ_TYPE(o) <= OBJ_FLOAT, "only numbers reach the conversion here");
    if (v.is_float) v.f = OBJPTR(FLOAT, o)->value; else v.i = kv_get_int(o);
    if (kv_to_int(&v, ret)) {
        KOS_raise_printf(ctx, "");
        return KOS_ERROR_EXCEPTION;
    }
    return KOS_SUCCESS;
}
#endif
void harness(void)
{
    static const uint8_t code[] = {
        INSTR_LOAD_CONST, 0, 0,
        INSTR_LOAD_CONST, 1, 1,
        KV_OP, 2, 0, 1,
        INSTR_RETURN, 2
    };
    KOS_CONTEXT ctx = kv_init();
    KOS_OBJ_ID  c[2];
    KOS_OBJ_ID  ret;
    KV_VAL      a, b;
    KV_RES      want;

    c[0] = kv_operand(ctx, KA, &a);
    c[1] = kv_operand(ctx, KB, &b);

    ret  = kv_run(ctx, code, sizeof(code), 4, c, 2);
    kv_binop(KV_OP, &a, &b, &want);

    KV_REACH("end");
    if (want.err) {
#ifdef KV_CAN_FAIL
        KV_REACH("error");
#endif
        KV_ASSERT(IS_BAD_PTR(ret), "an undefined operation gives no result");
        KV_ASSERT(KOS_is_exception_pending(ctx), "an undefined operation raises an exception");
    }
    else {
        KV_REACH("value");
        KV_ASSERT(!IS_BAD_PTR(ret), "a defined operation gives a result");
        KV_ASSERT(!KOS_is_exception_pending(ctx), "a defined operation raises no exception");
        if (!IS_BAD_PTR(ret)) {
            KV_ASSERT(want.is_float == (GET_OBJ_TYPE(ret) == OBJ_FLOAT), "float result exactly when an operand is float");
            if (want.is_float)
                KV_ASSERT(GET_OBJ_TYPE(ret) == OBJ_FLOAT && kv_same(OBJPTR(FLOAT, ret)->value, want.f), "float value is the IEEE result");
            else
                KV_ASSERT(kv_is_int(ret) && kv_get_int(ret) == want.i, "integer value is the exact result modulo 2^64");
        }
    }
}
