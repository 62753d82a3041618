/* Contract of the conditional jumps over the contract of kos_is_truthy (truthy.c). */
#include "kv_ops.h"
static KOS_OBJ_ID c[2];
#ifndef KV_NATIVE
int kos_is_truthy(KOS_OBJ_ID o)
{
    KV_ASSERT(o == c[0], "the condition register is tested");
    return KV_T;
}
#endif
void harness(void)
{
    static const uint8_t code[] = {
        INSTR_LOAD_CONST, 0, 0,
        INSTR_LOAD_CONST, 1, 1,
        INSTR_JUMP, 8,          /* over the next two */
        INSTR_LOAD_TRUE, 1,     /* 8: reached by the jump back */
        INSTR_RETURN, 1,
        KV_OP, KV_DELTA, 0,     /* 12 */
        INSTR_LOAD_FALSE, 1,
        INSTR_RETURN, 1,
        INSTR_LOAD_TRUE, 1,     /* 19: reached by the jump forward */
        INSTR_RETURN, 1 };
    KOS_CONTEXT ctx = kv_init();
    KOS_OBJ_ID  ret;
    c[0] = KOS_BOOL(KV_T);
    c[1] = KOS_BOOL(!KV_T);
    ret  = kv_run(ctx, code, sizeof(code), 2, c, 2);
    KV_REACH("end");
    KV_ASSERT(!IS_BAD_PTR(ret) && !KOS_is_exception_pending(ctx), "a condition never fails");
    KV_ASSERT(ret == KOS_BOOL(KV_OP == INSTR_JUMP_COND ? KV_T : !KV_T), "the jump is taken exactly when the condition says so");
}
