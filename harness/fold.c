/* Contract of constant folding (kos_optimize): an operator applied to constants is
 * replaced only by the value which the VM computes for the same operands (kv_spec.h,
 * the specification the VM itself is verified against in vm_binop.c).
 * The program is  return <expr>;  KV_MODE selects the expression. */
#include "kv_spec.h"
#include "core/kos_compiler.h"
#include "core/kos_ast.h"
#include "core/kos_misc.h"

#ifndef KV_TYPE
#define KV_TYPE NT_OPERATOR
#endif
static KOS_AST_NODE  n_scope, n_ret, n_op, n_a, n_b, n_c;
static KOS_FRAME     frame;
static KOS_COMP_UNIT prog;
static KOS_NUMERIC   va, vb;
static KOS_VAR       dummy;

#ifndef KV_NATIVE
void *KOS_mempool_alloc(KOS_MEMPOOL *pool, size_t size)
{
    static KOS_NUMERIC store[2];
#if KV_MODE == 5
    static char str[32];
    KV_ASSERT(size <= sizeof(str), "one short string is stored");
    return str;
#endif
    static unsigned    used;
    KV_ASSERT(size == sizeof(KOS_NUMERIC) && used < 2, "one number is stored");
    return &store[used++];
}
#endif

/* a numeric constant; kinds: 0 integer, 1 float */
static void numeric(KOS_AST_NODE *n, KOS_NUMERIC *v, int kind, KV_VAL *spec)
{
    n->type         = NT_NUMERIC_LITERAL;
    n->token.type   = TT_NUMERIC_BINARY;
    n->token.begin  = (const char *)v;
    n->token.length = sizeof(KOS_NUMERIC);
    spec->is_float = kind;
    spec->i = 0; spec->f = 0;
    if (kind) {
        spec->f = kv_f64();
        v->u.d  = spec->f;
        v->type = KOS_FLOAT_VALUE;
    }
    else {
        spec->i = kv_i64();
        v->u.i  = spec->i;
        v->type = KOS_INTEGER_VALUE;
    }
}

/* any constant; kinds: 0 integer, 1 float, 2 true, 3 false, 4 void, 5 string; returns truthiness */
static int constant(KOS_AST_NODE *n, KOS_NUMERIC *v, int kind)
{
    KV_VAL spec;
    switch (kind) {
        case 0: numeric(n, v, 0, &spec); return spec.i != 0;
        case 1: numeric(n, v, 1, &spec); return spec.f != 0.0 || spec.f != spec.f;
        case 2: n->type = NT_BOOL_LITERAL; n->token.type = TT_KEYWORD; n->token.keyword = KW_TRUE;  return 1;
        case 3: n->type = NT_BOOL_LITERAL; n->token.type = TT_KEYWORD; n->token.keyword = KW_FALSE; return 0;
        case 4: n->type = NT_VOID_LITERAL; n->token.type = TT_KEYWORD; n->token.keyword = KW_VOID;  return 0;
#ifdef KV_LEN
        case 6: {               /* a literal as written in the source: whatever value it parses to */
            static char text[KV_LEN + 1];
            unsigned    i;
#   ifdef KV_TEXT
            memcpy(text, KV_TEXT, KV_LEN);
#   else
            for (i = 0; i < KV_LEN; i++) {
                char c = (char)kv_u8();
#       ifdef KV_NATIVE
                c = "0123456789.eE+-_xbaF"[(unsigned char)c % 20];
#       endif
                KV_ASSUME((c >= '0' && c <= '9') || c == '.' || c == '_' || c == '+' || c == '-' || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') || c == 'x' || c == 'X');
                text[i] = c;
            }
            KV_ASSUME(text[0] >= '0' && text[0] <= '9');
#   endif
            n->type = NT_NUMERIC_LITERAL; n->token.type = TT_NUMERIC; n->token.begin = text; n->token.length = KV_LEN;
            KV_ASSUME(kos_parse_numeric(text, text + KV_LEN, v) == KOS_SUCCESS);
            return v->type == KOS_INTEGER_VALUE ? v->u.i != 0 : v->u.d != 0.0;
        }
#endif
        default: n->type = NT_STRING_LITERAL; n->token.type = TT_STRING; n->token.begin = "\"\""; n->token.length = 2; return 1;
    }
}

static int optimize(void)
{
#ifdef KV_NATIVE
    kos_compiler_init(&prog, 0);
#endif
    prog.optimize         = 1;
    n_scope.type          = NT_SCOPE;
    n_scope.is_scope      = 1;
    n_scope.u.scope       = &frame.scope;
#if KV_MODE >= 3
    n_scope.children      = &n_op;
#else
    n_scope.children      = &n_ret;
#endif
    frame.scope.scope_node = &n_scope;
    frame.scope.has_frame = 1;
    n_ret.type            = NT_RETURN;
    n_ret.children        = &n_op;
    n_op.type             = KV_TYPE;
    n_op.children         = &n_a;
    return kos_optimize(&prog, &n_scope);
}

static void reset(void)
{
    (void)kv_init();
#ifdef KV_NATIVE
    memset(&n_scope, 0, sizeof(n_scope)); memset(&n_ret, 0, sizeof(n_ret)); memset(&n_op, 0, sizeof(n_op));
    memset(&n_a, 0, sizeof(n_a)); memset(&n_b, 0, sizeof(n_b)); memset(&n_c, 0, sizeof(n_c));
    memset(&frame, 0, sizeof(frame)); memset(&va, 0, sizeof(va)); memset(&vb, 0, sizeof(vb));
#endif
}

static int is_num(const KOS_AST_NODE *n) { return n->type == NT_NUMERIC_LITERAL && n->token.type == TT_NUMERIC_BINARY && n->token.length == sizeof(KOS_NUMERIC); }

#if KV_MODE == 0 || KV_MODE == 1
void harness(void)
{
    KV_VAL a, b;
    KV_RES want;
    int    error;

    reset();
    numeric(&n_a, &va, KA, &a);
#if KV_MODE == 0
    numeric(&n_b, &vb, KB, &b);
    n_a.next = &n_b;
    kv_binop(KV_OP, &a, &b, &want);
#else
    b.is_float = 0; b.i = 0; b.f = 0;
    if (KV_OP == INSTR_NOT) {
        want.is_float = 0; want.f = 0; want.i = 0;
        want.err = kv_to_int(&a, &want.i);
        want.i = ~want.i;
    }
    else if (KV_OP == INSTR_SUB)
        kv_binop(INSTR_SUB, &b, &a, &want);     /* -x is 0 - x */
    else {
        want.err = 0; want.is_float = a.is_float; want.i = a.i; want.f = a.f;
    }
#endif
    n_op.token.type = TT_OPERATOR;
    n_op.token.op   = KV_OT;

    error = optimize();

    KV_REACH("end");
    if (error) {
#ifdef KV_CAN_FAIL
        KV_REACH("refused");
#endif
        KV_ASSERT(want.err, "only an operation which raises an exception is refused by the compiler");
    }
    else if (n_op.type != NT_OPERATOR) {
        KV_REACH("folded");
        KV_ASSERT(!want.err, "an operation which raises an exception is not replaced by a value");
        KV_ASSERT(is_num(&n_op), "the result is a number");
        if (is_num(&n_op)) {
            const KOS_NUMERIC *r = (const KOS_NUMERIC *)n_op.token.begin;
            KV_ASSERT((r->type == KOS_FLOAT_VALUE) == want.is_float, "float result exactly when the VM gives a float");
            if (want.is_float)
                KV_ASSERT(r->u.d == want.f || (r->u.d != r->u.d && want.f != want.f), "float value equals the VM's");
            else
                KV_ASSERT(r->type == KOS_INTEGER_VALUE && r->u.i == want.i, "integer value equals the VM's");
        }
    }
    else
        KV_ASSERT(n_op.token.op == KV_OT && n_op.children == &n_a && n_ret.children == &n_op, "an operation which is not folded is left as it was");
}
#elif KV_MODE == 2          /* !a, a && b, a || b, a ? b : c */
static int same_node(const KOS_AST_NODE *n, const KOS_AST_NODE *orig)
{
    return n->type == orig->type && n->token.type == orig->token.type && n->token.keyword == orig->token.keyword &&
           n->token.begin == orig->token.begin && n->token.length == orig->token.length;
}
void harness(void)
{
    int error, truth;

    reset();
    truth = constant(&n_a, &va, KA);
    constant(&n_b, &vb, 0);
    constant(&n_c, &vb, 5);
    n_b.u.var = n_c.u.var = n_a.u.var = &dummy;
#if KV_NUM >= 2
    n_a.next = &n_b;
#endif
#if KV_NUM >= 3
    n_b.next = &n_c;
#endif
    n_op.token.type = TT_OPERATOR;
    n_op.token.op   = KV_OT;
    error = optimize();
    KV_REACH("end");
    KV_ASSERT(!error, "logical operators never fail");
    if (n_op.type != NT_OPERATOR) {
        KV_REACH("folded");
        switch (KV_OT) {
            case OT_LOGNOT:
                KV_ASSERT(n_op.type == NT_BOOL_LITERAL && n_op.token.keyword == (truth ? KW_FALSE : KW_TRUE), "! negates the truth of its operand");
                break;
            case OT_LOGAND:
                KV_ASSERT(same_node(&n_op, truth ? &n_b : &n_a), "&& gives the second operand exactly when the first is true");
                break;
            case OT_LOGOR:
                KV_ASSERT(same_node(&n_op, truth ? &n_a : &n_b), "|| gives the first operand exactly when it is true");
                break;
            default:
                KV_ASSERT(same_node(&n_op, truth ? &n_b : &n_c), "?: gives the operand selected by the condition");
                break;
        }
    }
}
#elif KV_MODE == 3 || KV_MODE == 4         /* if (const) { return 1 } else { return 2 };  while (const) { return 1 } */
static KOS_AST_NODE s_yes, s_no, r_yes, r_no;
static KOS_SCOPE    c_yes, c_no;
void harness(void)
{
    int error, truth;
    reset();
    truth = constant(&n_a, &va, KA);
#ifdef KV_NATIVE
    memset(&s_yes, 0, sizeof(s_yes)); memset(&s_no, 0, sizeof(s_no)); memset(&r_yes, 0, sizeof(r_yes)); memset(&r_no, 0, sizeof(r_no));
    memset(&c_yes, 0, sizeof(c_yes)); memset(&c_no, 0, sizeof(c_no));
#endif
    s_yes.type = s_no.type = NT_SCOPE; s_yes.is_scope = s_no.is_scope = 1;
    s_yes.u.scope = &c_yes; s_no.u.scope = &c_no;
    c_yes.scope_node = &s_yes; c_no.scope_node = &s_no;
    c_yes.parent_scope = c_no.parent_scope = &frame.scope;
    r_yes.type = r_no.type = NT_RETURN;
#ifndef KV_NOBODY
    s_yes.children = &r_yes;
#endif
    s_no.children = &r_no;
    n_a.next = &s_yes;
#if KV_MODE == 3
    s_yes.next = &s_no;
#endif
    error = optimize();
    KV_REACH("end");
    KV_ASSERT(!error, "a condition never fails to compile");
#if KV_MODE == 3
    if (n_op.type != NT_IF) {
        KV_REACH("folded");
        KV_ASSERT(n_op.type == NT_SCOPE && n_op.children == (truth ? &r_yes : &r_no), "the branch which is kept is the one the condition selects");
    }
#else
    if (s_yes.type == NT_EMPTY || n_op.type == NT_EMPTY) {
#ifndef KV_KEPT
        KV_REACH("folded");
#endif
        KV_ASSERT(!truth, "a loop body is removed only when the condition is false");
    }
    else {
        if (n_a.type == NT_BOOL_LITERAL)
            KV_ASSERT(truth == (n_a.token.keyword == KW_TRUE), "a condition is replaced only by its own truth");
        KV_ASSERT(n_op.type == NT_WHILE && n_op.children == &n_a && n_a.next == &s_yes && s_yes.type == NT_SCOPE, "a loop which may run is left as it was");
    }
#endif
}
#elif KV_MODE == 5          /* "..." + "..." */
void harness(void)
{
    static char ta[KV_NA + 4], tb[KV_NB + 4];
    unsigned    i, off = KV_RAW ? 2 : 1;
    int         error;
    reset();
#if KV_RAW
    ta[0] = 'r'; tb[0] = 'R';
#endif
    ta[off - 1] = tb[off - 1] = '"';
    for (i = 0; i < KV_NA; i++) ta[off + i] = (char)kv_u8();
    for (i = 0; i < KV_NB; i++) tb[off + i] = (char)kv_u8();
    n_a.type = n_b.type = NT_STRING_LITERAL;
    n_a.token.type = KV_TA; n_b.token.type = KV_TB;
    n_a.token.begin = ta; n_b.token.begin = tb;
    n_a.token.length = off + KV_NA + (KV_TA == TT_STRING ? 1 : 2);
    n_b.token.length = off + KV_NB + (KV_TB == TT_STRING ? 1 : 2);
    n_a.next = &n_b;
    n_a.u.var = n_b.u.var = &dummy;
    n_op.token.type = TT_OPERATOR;
    n_op.token.op   = OT_ADD;
    error = optimize();
    KV_REACH("end");
    KV_ASSERT(!error, "adding short strings never fails");
    if (n_op.type != NT_OPERATOR) {
        const char *r = n_op.token.begin;
        KV_REACH("folded");
        KV_ASSERT(n_op.type == NT_STRING_LITERAL && n_op.token.type == TT_STRING, "the result is a complete string literal");
        KV_ASSERT(n_op.token.length == off + KV_NA + KV_NB + 1, "length is the sum of the lengths");
        if (n_op.token.length == off + KV_NA + KV_NB + 1) {
            KV_ASSERT(off == 1 || r[0] == 'r' || r[0] == 'R', "raw strings stay raw");
            KV_ASSERT(r[off - 1] == '"' && r[off + KV_NA + KV_NB] == '"', "the result is quoted");
            for (i = 0; i < KV_NA; i++) KV_ASSERT(r[off + i] == ta[off + i], "first string comes first");
            for (i = 0; i < KV_NB; i++) KV_ASSERT(r[off + KV_NA + i] == tb[off + i], "second string follows");
        }
    }
}
#elif KV_MODE == 6          /* typeof */
void harness(void)
{
    static const char *const names[] = { "integer", "float", "boolean", "boolean", "void", "string", 0 };
    const char *want;
    unsigned    i;
    int         error;
    reset();
    (void)constant(&n_a, &va, KA);
    want = names[KA];
#ifdef KV_LEN
    want = va.type == KOS_INTEGER_VALUE ? "integer" : "float";
#endif
    n_op.token.type = TT_KEYWORD;
    n_op.token.op = OT_NONE;
    n_op.token.keyword = KW_TYPEOF;
    error = optimize();
    KV_REACH("end");
    KV_ASSERT(!error, "typeof never fails");
    if (n_op.type != NT_OPERATOR) {
        KV_REACH("folded");
        KV_ASSERT(n_op.type == NT_STRING_LITERAL && n_op.token.type == TT_STRING, "typeof gives a string");
        KV_ASSERT(n_op.token.begin[0] == '"' && n_op.token.begin[n_op.token.length - 1] == '"', "the string is quoted");
        KV_ASSERT(n_op.token.length == strlen(want) + 2, "typeof names the type");
        for (i = 0; want[i]; i++)
            KV_ASSERT(n_op.token.begin[i + 1] == want[i], "typeof names the type exactly");
    }
}
#endif
