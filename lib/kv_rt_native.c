/* Native run time: inputs from a recorded counterexample or from a generator;
 * contracts evaluated against the real, unmodified code. */
#define KV_NATIVE_RT
#include "kv.h"
#include <stdio.h>
#include <setjmp.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>

#define MAX_IN 4096
static uint64_t in[MAX_IN];
static unsigned n_in, used;
static uint64_t fin[MAX_IN];
static unsigned n_fin, fused;
static uint64_t rng_state;
static int      mode_file;
static uint64_t reached;

static uint64_t rnd(void)
{
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static uint64_t corner(void)
{
    static const uint64_t c[] = {
        0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000,
        0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x7FFFFFFFULL, 0x80000000ULL, 0xFFFFFFFFULL, 0x100000000ULL,
        0x1FFFFFFFFFFFFFULL, 0x20000000000001ULL, 0x3FFFFFFFFFFFFFFFULL, 0x4000000000000000ULL, 0x7FFFFFFFFFFFFFFFULL,
        0x8000000000000000ULL, 0xBFFFFFFFFFFFFFFFULL, 0xC000000000000000ULL,
        0x3FF0000000000000ULL, 0xBFF0000000000000ULL, 0x4000000000000000ULL, 0x3FE0000000000000ULL, 0xBFE0000000000000ULL,
        0x7FF0000000000000ULL, 0xFFF0000000000000ULL, 0x7FF8000000000000ULL, 0x43E0000000000000ULL, 0xC3E0000000000000ULL,
        0x43DFFFFFFFFFFFFFULL, 0x43F0000000000000ULL, 0x4330000000000000ULL, 0x0010000000000000ULL, 0x7FEFFFFFFFFFFFFFULL,
    };
    uint64_t v = c[rnd() % (sizeof(c) / sizeof(c[0]))];
    switch (rnd() % 6) {
        case 0: return (uint64_t)-(int64_t)v;
        case 1: return ~v;
        case 2: return v + 1;
        case 3: return v - 1;
        default: return v;
    }
}
uint64_t kv_u64(void)
{
    uint64_t v;
    if (mode_file) {
        v = used < n_in ? in[used] : 0;
    }
    else {
        switch (rnd() % 8) {
            case 0:  v = rnd(); break;
            case 1:  v = rnd() >> (rnd() & 63); break;
            case 2:  v = rnd() % 10; break;
            case 3:  { union { double d; uint64_t u; } x; x.d = (double)(int64_t)(rnd() % 2001) - 1000; if (rnd() & 1) x.d += 0.5; v = x.u; break; }
            case 4:  v = rnd() & 0xFF; break;
            default: v = corner(); break;
        }
        if (used < MAX_IN) in[used] = v;
    }
    used++;
    return v;
}
double kv_f64(void)
{
    union { double d; uint64_t u; } x;
    if (mode_file)
        x.u = fused < n_fin ? fin[fused] : 0;
    else {
        unsigned save = used;
        x.u = kv_u64();
        used = save;
        if (!(rnd() & 3)) x.d = (double)(int64_t)x.u;
        if (fused < MAX_IN) fin[fused] = x.u;
    }
    fused++;
    return x.d;
}
static void report(const char *what, const char *name)
{
    unsigned i;
    fprintf(stdout, "KV-%s %s\nKV-INPUTS", what, name);
    for (i = 0; i < used && i < MAX_IN; i++)
        fprintf(stdout, " %llu", (unsigned long long)in[i]);
    for (i = 0; i < fused && i < MAX_IN; i++)
        fprintf(stdout, " f%llu", (unsigned long long)fin[i]);
    fprintf(stdout, "\n");
    fflush(stdout);
}
void kv_fail(const char *name) { report("FAIL", name); _exit(1); }
static jmp_buf again;
void kv_reject(void)
{
    if (mode_file) { printf("KV-REJECT\n"); fflush(stdout); _exit(3); }
    longjmp(again, 1);
}
void kv_reach(const char *name) { reached++; }
static void on_sig(int sig) { report("FAIL", sig == SIGABRT ? "abort (assertion in the code)" : sig == SIGFPE ? "SIGFPE" : sig == SIGALRM ? "hang" : "SIGSEGV"); _exit(1); }

static KOS_INSTANCE inst;
static KOS_CONTEXT  ctx0;
#ifdef KV_NO_INSTANCE
KOS_CONTEXT kv_init(void) { return 0; }
#else
KOS_CONTEXT kv_init(void)
{
    if (ctx0) {
        KOS_clear_exception(ctx0);
        return ctx0;
    }
    if (KOS_instance_init(&inst, KOS_INST_MANUAL_GC, &ctx0)) {
        printf("KV-ERROR instance\n");
        _exit(4);
    }
    return ctx0;
}
KOS_OBJ_ID kv_boxed_int(KOS_CONTEXT ctx, int64_t v)
{
    KOS_OBJ_ID o = KOS_new_int(ctx, INT64_MAX);
    OBJPTR(INTEGER, o)->value = v;
    return o;
}
KOS_OBJ_ID kv_run(KOS_CONTEXT ctx, const uint8_t *code, uint32_t size, unsigned num_regs,
                  KOS_OBJ_ID *consts, unsigned num_consts)
{
    KOS_MODULE   *module = OBJPTR(MODULE, ctx->inst->modules.init_module);
    KOS_OBJ_ID    fo;
    KOS_FUNCTION *func;
    unsigned      i;

    module->inst      = ctx->inst;
    module->constants = KOS_new_array(ctx, num_consts + 1);
    module->main_idx  = (uint16_t)num_consts;
    for (i = 0; i < num_consts; i++)
        (void)KOS_array_write(ctx, module->constants, (int)i, consts[i]);
    fo   = KOS_new_function(ctx);
    func = OBJPTR(FUNCTION, fo);
    func->opts.num_regs = (uint8_t)num_regs;
    func->module        = ctx->inst->modules.init_module;
    func->bytecode      = kos_alloc_bytecode(ctx, code, size, KOS_NULL, 0);
    (void)KOS_array_write(ctx, module->constants, (int)num_consts, fo);
    return KOS_run_module(ctx, OBJID(MODULE, module));
}
#endif

int main(int argc, char **argv)
{
    /* argv: "file" v0 v1 ...   |   "rand" seed seconds */
    if (argc > 1 && !strcmp(argv[1], "file")) {
        int i;
        mode_file = 1;
        for (i = 2; i < argc && n_in < MAX_IN; i++)
            if (argv[i][0] == 'f' && n_fin < MAX_IN)
                fin[n_fin++] = strtoull(argv[i] + 1, 0, 10);
            else
                in[n_in++] = strtoull(argv[i], 0, 10);
        signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig);
        signal(SIGALRM, on_sig);
        alarm(20);
        harness();
        printf("KV-PASS\n");
        return 0;
    }
    else {
        double  secs = argc > 3 ? atof(argv[3]) : 1.0;
        volatile unsigned long runs = 0, tries = 0;
        struct timespec t0, t1;
        rng_state = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
        signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig);
        signal(SIGALRM, on_sig);
        clock_gettime(CLOCK_MONOTONIC, &t0);
        for (;;) {
            used = fused = 0;
            tries++;
            if (!(tries & 15)) {
                alarm(20);
                clock_gettime(CLOCK_MONOTONIC, &t1);
                if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs)
                    break;
#ifndef KV_NO_INSTANCE
                if (ctx0 && !(tries & 4095)) {
                    KOS_instance_destroy(&inst);
                    ctx0 = 0;
                }
#endif
            }
            if (setjmp(again))
                continue;
            harness();
            runs++;
        }
        printf("KV-RANDOM runs=%lu tries=%lu reached=%lu\n", runs, tries, (unsigned long)reached);
    }
    return 0;
}
