/* Specification functions shared by the contracts (mathematical meaning of the
 * operators; written from the language documentation, not from the code). */
#ifndef KV_SPEC_H
#define KV_SPEC_H
#include "kv.h"

typedef struct { int is_float; int64_t i; double f; } KV_VAL;
typedef struct { int err; int is_float; int64_t i; double f; } KV_RES;

#ifdef KV_NATIVE
#   define kv_fmod(a, b) fmod(a, b)
#   define kv_floor(a) floor(a)
#else
double __CPROVER_uninterpreted_fmod(double, double);
#   define kv_fmod(a, b) __CPROVER_uninterpreted_fmod(a, b)
#   define kv_floor(a) floor(a)
#endif

#if defined(KV_UF) && !defined(KV_NATIVE)
#define KV_TOINT_UF
int64_t __CPROVER_uninterpreted_toint(double);
int KOS_get_integer(KOS_CONTEXT ctx, KOS_OBJ_ID o, int64_t *ret);
#endif

static inline double kv_as_f(const KV_VAL *v) { return v->is_float ? v->f : (double)v->i; }

/* conversion used by the bitwise operators: floor of an in-range number, else error */
static inline int kv_to_int(const KV_VAL *v, int64_t *out)
{
    if (!v->is_float) { *out = v->i; return 0; }
    if (!(v->f > -9223372036854775808.0 && v->f < 9223372036854775808.0)) return 1;
#ifdef KV_TOINT_UF
    *out = __CPROVER_uninterpreted_toint(v->f); /* over the contract of KOS_get_integer (get_integer.c) */
    return 0;
#endif
#ifdef KV_SPEC_FLOOR
    *out = (int64_t)floor(v->f);               /* same value, easier for the solvers */
    return 0;
#endif
    {
        int64_t t = (int64_t)v->f;             /* truncation */
        if ((double)t > v->f) t -= 1;          /* towards minus infinity */
        *out = t;
    }
    return 0;
}

static inline uint64_t kv_shl(uint64_t a, unsigned n) { return n > 63 ? 0 : a << n; }
static inline uint64_t kv_shru(uint64_t a, unsigned n) { return n > 63 ? 0 : a >> n; }
static inline uint64_t kv_shr(uint64_t a, unsigned n)
{
    uint64_t sign = (a >> 63) ? ~(uint64_t)0 : 0;
    if (n == 0) return a;
    if (n > 63) return sign;
    return (a >> n) | (sign << (64 - n));
}

static inline void kv_binop(int op, const KV_VAL *a, const KV_VAL *b, KV_RES *r)
{
    r->err = 0; r->is_float = 0; r->i = 0; r->f = 0;
    switch (op) {
        case INSTR_ADD: case INSTR_SUB: case INSTR_MUL: case INSTR_DIV: case INSTR_MOD:
            if (a->is_float || b->is_float) {
                double x = kv_as_f(a), y = kv_as_f(b);
                r->is_float = 1;
                if (op == INSTR_ADD) r->f = x + y;
                else if (op == INSTR_SUB) r->f = x - y;
                else if (op == INSTR_MUL) r->f = x * y;
                else if (y == 0) r->err = 1;
                else if (op == INSTR_DIV) r->f = x / y;
                else r->f = kv_fmod(x, y);
            }
            else {
                uint64_t x = (uint64_t)a->i, y = (uint64_t)b->i;
                if (op == INSTR_ADD) r->i = (int64_t)(x + y);
                else if (op == INSTR_SUB) r->i = (int64_t)(x - y);
                else if (op == INSTR_MUL) r->i = (int64_t)(x * y);
                else if (b->i == 0 || (b->i == -1 && a->i == INT64_MIN)) r->err = 1;
                else if (op == INSTR_DIV) r->i = a->i / b->i;
                else r->i = a->i % b->i;
            }
            break;
        default: {
            int64_t x = 0, y = 0;
            if (kv_to_int(a, &x) || kv_to_int(b, &y)) { r->err = 1; break; }
            if (op == INSTR_AND) r->i = x & y;
            else if (op == INSTR_OR) r->i = x | y;
            else if (op == INSTR_XOR) r->i = x ^ y;
            else {
                /* shift by a negative amount is a shift the other way */
                uint64_t n = y < 0 ? (uint64_t)0 - (uint64_t)y : (uint64_t)y;
                unsigned m = n > 64 ? 64 : (unsigned)n;
                int left = (op == INSTR_SHL) ? (y >= 0) : (y < 0);
                if (left) r->i = (int64_t)kv_shl((uint64_t)x, m);
                else if (op == INSTR_SHRU) r->i = (int64_t)kv_shru((uint64_t)x, m);
                else r->i = (int64_t)kv_shr((uint64_t)x, m);
            }
        }
    }
}
#endif
