/* Verifier-side run time: the assumed contracts of the functions outside the
 * verified set.  Each is listed under "assumptions" in the evidence files. */
#include "kv.h"

uint64_t nondet_kv_u64(void);
uint64_t kv_in;
double nondet_kv_f64(void);
double kv_fin;
double kv_f64(void) { kv_fin = nondet_kv_f64(); return kv_fin; }
uint64_t kv_u64(void) { kv_in = nondet_kv_u64(); return kv_in; }

/* -- assumed contract: raising an exception sets it in the context, and no
      exception may be raised while another one is pending (asserted by the real code) */
#ifndef KV_REAL_RAISE
void KOS_raise_exception(KOS_CONTEXT ctx, KOS_OBJ_ID e)
{
    if (IS_BAD_PTR(ctx->exception))
        ctx->exception = e;
}
#endif
void KOS_raise_exception_cstring(KOS_CONTEXT ctx, const char *s)
{
    ctx->exception = KOS_STR_VALUE;
}
void KOS_raise_printf(KOS_CONTEXT ctx, const char *format, ...)
{
    ctx->exception = KOS_STR_VALUE;
}
/* -- assumed contract: wrapping keeps an exception pending */
void kos_wrap_exception(KOS_CONTEXT ctx) { }
/* -- debug-only thread check */
#ifndef NDEBUG
void kos_validate_context(KOS_CONTEXT ctx) { }
#endif
/* -- mutual exclusion is not modelled (sequential verification) */
void kos_lock_mutex(KOS_MUTEX mutex) { }
void kos_unlock_mutex(KOS_MUTEX mutex) { }

#ifdef KV_GHOST
#define KV_BLOCKS 3
static struct { void *p; uint64_t size; } kv_block[KV_BLOCKS];
static unsigned kv_nblocks;
extern uint64_t kv_ext_size;
extern const void *kv_ext_ptr;
uint64_t kv_block_size(const void *p)
{
    unsigned i;
    for (i = 0; i < KV_BLOCKS; i++)
        if (i < kv_nblocks && __CPROVER_same_object(p, kv_block[i].p))
            return kv_block[i].size;
#ifdef KV_EXT
    if (__CPROVER_same_object(p, kv_ext_ptr))
        return kv_ext_size;
#endif
    return 0;
}
#endif

/* -- assumed contract: a fresh block of at least the requested size, with header set */
void *kos_alloc_object(KOS_CONTEXT ctx, KOS_ALLOC_FLAG flags, KOS_TYPE type, uint32_t size)
{
    KOS_OBJ_HEADER *h;
#define KV_FRESH(T) if (size <= sizeof(T)) h = malloc(sizeof(T)); else h = malloc(size); break
    switch (type) {
        case OBJ_INTEGER:        KV_FRESH(KOS_INTEGER);
        case OBJ_FLOAT:          KV_FRESH(KOS_FLOAT);
        case OBJ_FUNCTION:       KV_FRESH(KOS_FUNCTION);
        case OBJ_CLASS:          KV_FRESH(KOS_CLASS);
        case OBJ_BUFFER:         KV_FRESH(KOS_BUFFER);
        case OBJ_DYNAMIC_PROP:   KV_FRESH(KOS_DYNAMIC_PROP);
        case OBJ_ITERATOR:       KV_FRESH(KOS_ITERATOR);
        case OBJ_MODULE:         KV_FRESH(KOS_MODULE);
        case OBJ_ARRAY:
#if KV_ARR > 1
            if (size > sizeof(KOS_ARRAY)) {     /* storage built into the array object */
                struct kv_array_with_storage {
                    KOS_ARRAY         a;
                    char              pad[((sizeof(KOS_ARRAY) + 31) & ~31ULL) - sizeof(KOS_ARRAY)];
                    KOS_ARRAY_STORAGE s;
                };
                h = malloc(sizeof(struct kv_array_with_storage));
                break;
            }
#endif
            KV_FRESH(KOS_ARRAY);
        case OBJ_OBJECT:         KV_FRESH(KOS_OBJECT);
#if KV_STR > 1
        case OBJ_STRING:
            KV_ASSERT(size <= sizeof(KOS_STRING), "[limit] string fits the verification limit");
            h = malloc(sizeof(KOS_STRING));
            break;
#endif
#if KV_ARR > 1
        case OBJ_ARRAY_STORAGE:
            /* KV_ARR slots are there already, size counts them once more */
            KV_ASSERT(size <= sizeof(KOS_ARRAY_STORAGE) + (KV_ARR - 1) * sizeof(KOS_OBJ_ID), "[limit] array storage fits the verification limit");
            h = malloc(sizeof(KOS_ARRAY_STORAGE));
            break;
#endif
#ifdef KV_GHOST
        case OBJ_BUFFER_STORAGE: {      /* only the header is real memory, the bytes are ghost state (buffer.c) */
            const uint32_t off = size > KOS_MAX_HEAP_OBJ_SIZE ? KOS_OBJ_TRACK_BIT : 0;
            KV_ASSERT(size >= sizeof(KOS_BUFFER_STORAGE), "a storage block holds its header");
            KV_ASSERT(kv_nblocks < KV_BLOCKS, "[limit] number of storage blocks");
            h = malloc(sizeof(KOS_BUFFER_STORAGE) + KOS_OBJ_TRACK_BIT);
            kv_block[kv_nblocks].p      = h;
            kv_block[kv_nblocks++].size = (uint64_t)size + off;
            h = (KOS_OBJ_HEADER *)((char *)h + off);
            break;
        }
#elif KV_BUF > 1
        case OBJ_BUFFER_STORAGE:
            KV_ASSERT(size <= sizeof(KOS_BUFFER_STORAGE) + KV_BUF - 1, "[limit] buffer storage fits the verification limit");
            h = malloc(sizeof(KOS_BUFFER_STORAGE));
            break;
#endif
#if KV_STK > 1
        case OBJ_STACK:          KV_FRESH(KOS_STACK);
#endif
#if KV_ITEMS > 1
        case OBJ_OBJECT_STORAGE: KV_FRESH(KOS_OBJECT_STORAGE);
#endif
        default:                 h = malloc(size);
    }
    __CPROVER_assume(h != 0);
    kos_set_object_type_size(*h, type, size);
    return h;
}

KOS_OBJ_ID kv_boxed_int(KOS_CONTEXT ctx, int64_t v)
{
    KOS_INTEGER *i = (KOS_INTEGER *)kos_alloc_object(ctx, KOS_ALLOC_MOVABLE, OBJ_INTEGER, sizeof(KOS_INTEGER));
    i->value = v;
    return OBJID(INTEGER, i);
}

KOS_INSTANCE kv_inst;

#if KV_STK > 1
static struct { uint64_t pad; KOS_STACK o; } kv_stack;
#endif

KOS_CONTEXT kv_init(void)
{
    KOS_CONTEXT ctx = &kv_inst.threads.main_thread;
    ctx->inst       = &kv_inst;
    ctx->exception  = KOS_BADPTR;
    ctx->thread_obj = KOS_BADPTR;
#if KV_STK > 1
    kos_set_object_type_size(kv_stack.o.header, OBJ_STACK, sizeof(kv_stack.o));
    kv_stack.o.capacity  = KV_STK;
    kv_stack.o.size      = 1;
    kv_stack.o.buf[0]    = KOS_BADPTR;
    kv_stack.o.yield_reg = KOS_NO_REG;
    ctx->stack           = OBJID(STACK, &kv_stack.o);
#endif
    return ctx;
}

#if KV_STK > 1 && KV_BC > 1 && KV_ARR > 1
static struct { uint64_t pad; KOS_MODULE o; } kv_module;
static KOS_FUNCTION      kv_func;
static KOS_ARRAY         kv_consts;
static KOS_ARRAY_STORAGE kv_cstor;
static KOS_BYTECODE      kv_bytecode;

KOS_OBJ_ID kv_make_func(KOS_CONTEXT ctx, KOS_FUNCTION *func, KOS_BYTECODE *bc, const uint8_t *code, uint32_t size, unsigned num_regs)
{
    kos_set_object_type_size(func->header, OBJ_FUNCTION, sizeof(*func));
    func->opts.num_regs     = (uint8_t)num_regs;
    func->opts.args_reg     = KOS_NO_REG;
    func->opts.rest_reg     = KOS_NO_REG;
    func->opts.ellipsis_reg = KOS_NO_REG;
    func->opts.this_reg     = KOS_NO_REG;
    func->opts.bind_reg     = KOS_NO_REG;
    func->module   = OBJID(MODULE, &kv_module.o);
    func->name     = KOS_STR_EMPTY;
    func->closures = KOS_VOID;
    func->defaults = KOS_VOID;
    func->arg_map  = KOS_VOID;
    func->handler  = 0;
    func->generator_stack_frame = KOS_BADPTR;
    func->state    = KOS_FUN;
    kos_set_object_type_size(bc->header, OBJ_OPAQUE, sizeof(*bc));
    bc->bytecode_size = size;
    for (uint32_t i = 0; i < size; i++)
        bc->bytecode[i] = code[i];
    func->bytecode = OBJID(OPAQUE, bc);
    return OBJID(FUNCTION, func);
}

KOS_OBJ_ID kv_run(KOS_CONTEXT ctx, const uint8_t *code, uint32_t size, unsigned num_regs,
                  KOS_OBJ_ID *consts, unsigned num_consts)
{
    kos_set_object_type_size(kv_module.o.header, OBJ_MODULE, sizeof(kv_module.o));
    kv_module.o.inst      = &kv_inst;
    kv_module.o.constants = OBJID(ARRAY, &kv_consts);
    kv_module.o.main_idx  = (uint16_t)num_consts;
    kos_set_object_type_size(kv_consts.header, OBJ_ARRAY, sizeof(kv_consts));
    kos_set_object_type_size(kv_cstor.header, OBJ_ARRAY_STORAGE, sizeof(kv_cstor));
    kv_consts.size          = num_consts + 1;
    kv_consts.data          = OBJID(ARRAY_STORAGE, &kv_cstor);
    kv_cstor.capacity       = num_consts + 1;
    kv_cstor.num_slots_open = num_consts + 1;
    kv_cstor.next           = KOS_BADPTR;
    for (unsigned i = 0; i < num_consts; i++)
        kv_cstor.buf[i] = consts[i];
    kv_cstor.buf[num_consts] = kv_make_func(ctx, &kv_func, &kv_bytecode, code, size, num_regs);
    kv_inst.modules.init_module = OBJID(MODULE, &kv_module.o);
    return KOS_run_module(ctx, OBJID(MODULE, &kv_module.o));
}
#endif

void harness(void);
int main(void) { harness(); return 0; }

/* -- library functions treated as uninterpreted (only congruence is used) */
double __CPROVER_uninterpreted_fmod(double, double);
double fmod(double a, double b) { return __CPROVER_uninterpreted_fmod(a, b); }
