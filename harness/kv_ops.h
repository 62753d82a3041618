/* Operands of every kind.  kind: 0 inline integer, 1 boxed integer, 2 float, 3 void,
 * 4 boolean, 5 empty array, 6 empty object, 7 function */
#include "kv_spec.h"
static inline KOS_OBJ_ID kv_operand(KOS_CONTEXT ctx, int kind, KV_VAL *v)
{
    KOS_OBJ_ID o;
    v->is_float = kind == 2; v->i = 0; v->f = 0;
    switch (kind) {
        case 0:
            /* the value of an inline integer is what decoding it gives; that encoding and
             * decoding are inverse is the contract of int_repr.c */
            o    = TO_SMALL_INT(kv_i64());
            v->i = GET_SMALL_INT(o);
            return o;
        case 1:
            v->i = kv_i64();
            return kv_boxed_int(ctx, v->i);
        case 2:
            v->f = kv_f64();
            return KOS_new_float(ctx, v->f);
        case 3: return KOS_VOID;
        case 4:
            v->i = kv_u64() & 1;
            return KOS_BOOL(v->i);
        case 5: return KOS_new_array(ctx, 0);
        case 6: return KOS_new_object_with_prototype(ctx, KOS_VOID);
        default: return KOS_new_function(ctx);
    }
}
static inline KOS_TYPE kv_kind_type(int kind)
{
    static const uint8_t t[] = { OBJ_SMALL_INTEGER, OBJ_INTEGER, OBJ_FLOAT, OBJ_VOID, OBJ_BOOLEAN, OBJ_ARRAY, OBJ_OBJECT, OBJ_FUNCTION };
    return (KOS_TYPE)t[kind];
}
