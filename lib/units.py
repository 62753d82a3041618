"""All verification units: which harness, which functions, which cases, which assumptions."""
from kvrun import Unit

UNITS = []
LEVEL = {}
COMMON_ASSUMPTIONS = [
    "CBMC's C semantics: LP64, two's complement, wrap-around signed arithmetic (as with -fwrapv), IEEE-754 binary64 round-to-nearest",
    "sequential execution (upstream's CONFIG_THREADS=0 configuration); no garbage collection during the verified call",
    "memory allocation succeeds: kos_alloc_object returns a fresh object of the requested type and size (assumed contract)",
    "KOS_raise_exception* set the pending exception and return (assumed contract; message text not modelled)",
]


def U(*a, **k):
    UNITS.append(Unit(*a, **k))


# --- virtual machine: one program per instruction, run through KOS_run_module ----------
VMCFG = ("KV_ARR=8", "KV_BC=32", "KV_STK=32")
VM_FUNCS = ["KOS_run_module", "kos_vm_run/execute", "read_reg/write_reg", "init_registers", "KOS_array_read", "KOS_new_int", "KOS_new_float"]
VM = dict(cfg=VMCFG, add_stubs=["fmod"], unwind=16, loops={"KOS_array_read": 2, "kv_make_func": 34, "kv_run": 10})
VM_ASM = ["module, constant table and call frame are laid out as the loader leaves them (kv_rt_cbmc.c)"]
ARITH = ("ADD", "SUB", "MUL", "DIV", "MOD")
BITW = ("SHL", "SHR", "SHRU", "AND", "OR", "XOR")
CMPS = ("CMP_EQ", "CMP_NE", "CMP_LT", "CMP_LE")


def case(op, *k, **d):
    n = [("KA=%d" % k[0])] + (["KB=%d" % k[1]] if len(k) > 1 else [])
    return ("%s/%s" % (op, "".join(map(str, k))), tuple(["KV_OP=INSTR_" + op] + n + ["%s" % x for x in d.get("x", ())]))


N3 = (0, 1, 2)
U("vm_binop", "vm_binop.c", "P01", VM_FUNCS + ["add_integer", "add_float", "sub_integer", "sub_float", "mul_integer", "mul_float",
  "div_integer", "div_float", "mod_integer", "mod_float"], unreachable=["KOS_string_add_n"],
  cases=[case(op, a, b, x=["KV_CAN_FAIL"] if op in ("DIV", "MOD") else []) for op in ARITH for a in N3 for b in N3],
  assumptions=VM_ASM + ["fmod is a function (uninterpreted): its numerical value is the C library's"], **VM)
VMS = dict(VM)
VMS["add_stubs"] = VM["add_stubs"] + ["KOS_get_integer"]
U("vm_bitop", "vm_binop.c", "P02", VM_FUNCS, unreachable=["KOS_string_add_n"],
  cases=[case(op, a, b, x=["KV_UF"] + (["KV_CAN_FAIL"] if 2 in (a, b) else [])) for op in BITW for a in N3 for b in N3],
  assumptions=VM_ASM, **VMS)
U("vm_not", "vm_not.c", "P02", VM_FUNCS + ["KOS_get_integer"], unreachable=["KOS_string_add_n"],
  cases=[("NOT/%d" % a, tuple(["KA=%d" % a] + (["KV_CAN_FAIL"] if a == 2 else []))) for a in N3], assumptions=VM_ASM, **VM)
U("get_integer", "get_integer.c", "P02", ["KOS_get_integer"], cases=[("kind%d" % a, ("KA=%d" % a,)) for a in range(8)])
CMP_FUNCS = ["KOS_compare", "compare", "compare_int", "compare_float", "get_float"]
U("cmp", "cmp.c", "P03", CMP_FUNCS, unreachable=["KOS_string_compare", "KOS_buffer_data_const"], recur={"compare": 1},
  cases=[("%d%d" % (a, b), ("KA=%d" % a, "KB=%d" % b)) for a in range(8) for b in range(a, 8) if a != b or a < 5] +
        [("same%d" % a, ("KA=%d" % a, "KB=%d" % a, "KV_SAME")) for a in (0, 1, 2)])
U("vm_cmp", "vm_cmp.c", "P03", VM_FUNCS, unreachable=["KOS_string_add_n"], cases=[(op, ("KV_OP=INSTR_" + op,)) for op in CMPS],
  assumptions=VM_ASM, **dict(VM, add_stubs=["fmod", "KOS_compare"]))
U("truthy", "truthy.c", "P05", ["kos_is_truthy", "KOS_get_bool"], cases=[("kind%d" % a, ("KA=%d" % a,)) for a in range(8)])
U("vm_cond", "vm_cond.c", "P05", VM_FUNCS + ["kos_load_simm", "kos_load_uimm"], unreachable=["KOS_string_add_n"],
  cases=[("%s/%s%d" % (op, dn, t), ("KV_OP=INSTR_" + op, "KV_T=%d" % t, "KV_DELTA=%d" % dl))
         for op in ("JUMP_COND", "JUMP_NOT_COND") for t in (0, 1) for dn, dl in (("fwd", 8), ("back", 13))],
  assumptions=VM_ASM, **dict(VM, add_stubs=["fmod", "kos_is_truthy"]))
U("vm_typeerr", "vm_typeerr.c", "P06", VM_FUNCS, unreachable=[],
  cases=[case(op, a, b) for op in ARITH + BITW for a, b in ((0, 3), (3, 0), (4, 1), (2, 5), (5, 5), (6, 2), (1, 7))] +
        [("NOT/%d" % a, ("KV_OP=INSTR_NOT", "KA=%d" % a, "KB=3", "KV_UNARY")) for a in (3, 4, 5, 6, 7)], assumptions=VM_ASM, **VM)

# --- UTF-8 ------------------------------------------------------------------------------
LEN = "element count / byte length as in the case name"
UTF = ["KOS_utf8_get_len", "KOS_utf8_decode_8", "KOS_utf8_decode_16", "KOS_utf8_decode_32", "parse_escape_sequence"]
U("utf8_enc", "utf8.c", "P08", UTF + ["KOS_utf8_calc_buf_size_%d" % w for w in (8, 16, 32)] + ["KOS_utf8_encode_%d" % w for w in (8, 16, 32)],
  files=["core/kos_utf8.c"], kind="bounded", bound="up to 3 code points per call, every value", unwind=14, solver="sat",
  cases=[("w%d/n%d" % (w, n), ("KV_MODE=0", "KV_W=%d" % w, "KV_N=%d" % n)) for w in (8, 16, 32) for n in (1, 3)])
U("utf8_dec", "utf8.c", "P08", UTF, files=["core/kos_utf8.c"], kind="bounded", bound="every byte sequence of up to 6 bytes, plus an 8-byte aligned ASCII prefix",
  unwind=14, solver="sat",
  cases=[("fast/m2", ("KV_MODE=2", "KV_W=32", "KV_N=11", "KV_OFF=0", "KV_ASCII=9"))] + [("plain/w%d/n%d" % (w, n), ("KV_MODE=1", "KV_W=%d" % w, "KV_N=%d" % n, "KV_OFF=0")) for w, n in ((32, 1), (8, 4), (16, 4), (32, 6))] +
        [("esc/w%d/n%d" % (w, n), ("KV_MODE=2", "KV_W=%d" % w, "KV_N=%d" % n, "KV_OFF=3")) for w, n in ((32, 1), (8, 4), (16, 4), (32, 5))] +
        [("fast/m1", ("KV_MODE=1", "KV_W=32", "KV_N=11", "KV_OFF=0", "KV_ASCII=9"))] +
        [("fastoff/m1", ("KV_MODE=1", "KV_W=32", "KV_N=12", "KV_OFF=6", "KV_ASCII=11"))],
  thorough_cases=[("fastoff/m2", ("KV_MODE=2", "KV_W=32", "KV_N=12", "KV_OFF=6", "KV_ASCII=11"))])

# --- constant folding -------------------------------------------------------------------
OPT = ["kos_optimize", "visit_node", "process_scope", "push_scope", "pop_scope", "operator_token", "collapse", "kos_get_const"]
OT = dict(ADD="ADD", SUB="SUB", MUL="MUL", DIV="DIV", MOD="MOD", SHL="SHL", SHR="SHR", SHRU="SHRU", AND="AND", OR="OR", XOR="XOR", NOT="NOT")
FOLDF = ["core/kos_compiler_optim.c", "core/kos_misc.c", "core/kos_red_black.c"]
FOLD_REC = {"visit_node": 6, "process_scope": 3, "rb_walk": 2}
FOLD = dict(files=FOLDF, unwind=6, add_stubs=["fmod", "KOS_mempool_alloc"], recur=FOLD_REC)
U("fold_binary", "fold.c", "P04", OPT + ["optimize_binary_op", "collapse_numeric"],
  cases=[("%s/%d%d" % (op, a, b), ("KV_MODE=0", "KV_OP=INSTR_" + op, "KV_OT=OT_" + op, "KA=%d" % a, "KB=%d" % b) + (("KV_CAN_FAIL",) if op in ("DIV", "MOD") or (op in BITW and a + b) else ()) + (("KV_SPEC_FLOOR",) if op[0] == "S" or a + b == 2 else ()))
         for op in ARITH + BITW for a in (0, 1) for b in (0, 1)], **FOLD)
U("fold_unary", "fold.c", "P04", OPT + ["optimize_unary_op", "collapse_numeric"],
  cases=[("%s/%d" % (op, a), ("KV_MODE=1", "KV_OP=INSTR_" + op, "KV_OT=OT_" + op, "KA=%d" % a) + (("KV_CAN_FAIL",) if op == "NOT" and a else ())) for op in ("ADD", "SUB", "NOT") for a in (0, 1)], **FOLD)
U("fold_logical", "fold.c", "P04", OPT + ["kos_node_is_truthy", "kos_node_is_falsy", "get_nonzero", "promote"],
  cases=[("%s/%d" % (op, a), ("KV_MODE=2", "KV_OT=OT_" + op, "KV_NUM=%d" % n, "KA=%d" % a))
         for op, n in (("LOGNOT", 1), ("LOGAND", 2), ("LOGOR", 2), ("LOGTRI", 3)) for a in range(6)], **FOLD)
COND_OFF = ["assignment", "identifier", "function_literal", "class_literal", "interpolated_string", "invocation", "switch_stmt", "try_stmt",
            "for_in_stmt", "repeat_stmt", "operator_token", "stringify"]
U("fold_if", "fold.c", "P04", OPT + ["if_stmt", "kos_node_is_truthy", "kos_node_is_falsy", "get_nonzero", "promote"],
  cases=[("%d" % a, ("KV_MODE=3", "KV_OT=0", "KV_TYPE=NT_IF", "KA=%d" % a)) for a in range(6)], unreachable=COND_OFF, **FOLD)
U("fold_while", "fold.c", "P04", OPT + ["while_stmt", "kos_node_is_truthy", "kos_node_is_falsy", "get_nonzero", "collapse"],
  cases=[("%d" % a, ("KV_MODE=4", "KV_OT=0", "KV_TYPE=NT_WHILE", "KA=%d" % a) + (("KV_KEPT",) if a in (2, 5) else ("KV_NOBODY",) if a < 2 else ())) for a in range(6)],
  unreachable=COND_OFF + ["if_stmt", "case_stmt"], **dict(FOLD, unwind=4, loops={"kos_red_black_walk": 1, "process_scope": 2, "visit_child_nodes": 1}, recur={"visit_node": 4, "process_scope": 2, "while_stmt": 1, "visit_child_nodes": 1}))
U("fold_typeof", "fold.c", "P04", OPT + ["collapse_typeof"],
  cases=[("%d" % a, ("KV_MODE=6", "KA=%d" % a)) for a in range(6)] + [("text%d" % n, ("KV_MODE=6", "KA=6", "KV_LEN=%d" % n)) for n in (1, 2, 3)], unreachable=COND_OFF[:-2], **dict(FOLD, unwind=12))
U("fold_string", "fold.c", "P04", OPT + ["add_strings", "is_raw_str"], kind="bounded", bound="strings of up to 4 bytes",
  cases=[("%s/%d%d" % (n, x, y), ("KV_MODE=5", "KV_RAW=%d" % raw, "KV_TA=" + ta, "KV_TB=" + tb, "KV_NA=%d" % x, "KV_NB=%d" % y))
         for n, raw, ta, tb in (("plain", 0, "TT_STRING", "TT_STRING"), ("open", 0, "TT_STRING_OPEN", "TT_STRING"), ("open2", 0, "TT_STRING", "TT_STRING_OPEN"), ("raw", 1, "TT_STRING", "TT_STRING"))
         for x, y in ((4, 3), (0, 2)) if not (x == 0 and "open" == n)], **dict(FOLD, unwind=9))
U("fold_literal", "fold.c", "P04", OPT + ["kos_node_is_truthy", "kos_node_is_falsy", "get_nonzero"], kind="bounded", bound="literals of up to 2 characters (3 in the thorough tier)",
  cases=[("%s/text%d" % (op, n), ("KV_MODE=2", "KV_OT=OT_" + op, "KV_NUM=%d" % k, "KA=6", "KV_LEN=%d" % n)) for op, k in (("LOGNOT", 1), ("LOGTRI", 3)) for n in (1, 2)],
  thorough_cases=[("LOGNOT/text3", ("KV_MODE=2", "KV_OT=OT_LOGNOT", "KV_NUM=1", "KA=6", "KV_LEN=3"))],
  **dict(FOLD, unwind=12))
U("fold_listed", "fold.c", "P04", OPT + ["kos_node_is_truthy", "kos_node_is_falsy", "get_nonzero"], kind="bounded", bound="the listed literals",
  cases=[("listed/" + t, ("KV_MODE=2", "KV_OT=OT_LOGNOT", "KV_NUM=1", "KA=6", "KV_LEN=%d" % len(t), 'KV_TEXT="%s"' % t)) for t in ("1e-324", "9e-324", "0x00", "0.0e5", "0_0.1", "0b0")],
  **dict(FOLD, unwind=12, loops={"kos_parse_double": 340}))

# --- arrays -----------------------------------------------------------------------------
ARR_F = ["KOS_new_array", "KOS_array_read", "KOS_array_write", "alloc_buffer", "atomic_fill_ptr", "get_data", "KOS_get_array_size"]
ARR = dict(files=["core/kos_array.c", "core/kos_threads.c", "core/kos_utils.c", "core/kos_instance.c", "core/kos_constants.c", "core/kos_malloc.c"],
           cfg=("KV_ARR=34",), unwind=18, kind="bounded", bound="arrays of up to 6 elements, every index", solver="sat")


def arr(name, fn, cases, **k):
    U("array_" + name, "array.c", "P10", ARR_F + fn, cases=cases, **dict(ARR, **k))


arr("access", ["KOS_array_cas"], [("n%d/pre%d%s" % (n, p, x), ("KV_MODE=0", "KV_N=%d" % n, "KV_PRE=%d" % p) + ((x,) if x else ()))
                                  for n, p in ((1, 0), (4, 0), (3, 1), (3, 2), (3, 3)) for x in ("", "KV_CAS")],
    loops={"KOS_array_read": 2, "KOS_array_write": 2, "KOS_array_cas": 2})
arr("range", ["KOS_array_cas"], [("n%d%s" % (n, x), ("KV_MODE=0", "KV_OUT", "KV_N=%d" % n) + ((x,) if x else ())) for n in (0, 1, 3) for x in ("", "KV_CAS")],
    loops={"KOS_array_read": 2, "KOS_array_write": 2, "KOS_array_cas": 2}, unreachable=["copy_buf"])
arr("resize", ["KOS_array_resize", "KOS_array_reserve", "resize_storage", "copy_buf"],
    [("%d-%d-%d/pre%d" % (a, b, c, p), ("KV_MODE=1", "KV_N=%d" % a, "KV_N1=%d" % b, "KV_N2=%d" % c, "KV_PRE=%d" % p))
     for a, b, c in ((0, 1, 0), (3, 5, 2), (4, 1, 4), (2, 2, 7), (3, 0, 2))for p in (0, 1, 2)])
EDGE = ["INT64_MIN", "-4294967295", "2147483648", "4294967296", "4294967297", "INT64_MAX"]


def grid(n, edge=0):
    """index pairs: 0: all in range; 1: every begin to the end; 2: every end from the start"""
    a, b = [",".join(map(str, x)) for x in (list(range(n + 1)), list(range(-n - 1, n + 2)) + EDGE)]
    return ("KV_GRID=" + (a, b, "0")[edge], "KV_GRID2=" + (a, str(n), b)[edge])


GB = dict(bound="arrays of up to 5 elements; every in-range pair of indices; every in-range, negative, one-off and extreme value of each index")
arr("slice", ["KOS_array_slice", "KOS_fix_index", "KOS_array_push"], [("n%d/grid%d/pre%d" % (n, g, p), ("KV_MODE=2", "KV_N=%d" % n, "KV_PRE=%d" % p) + grid(n, g))
     for n, p in ((0, 0), (1, 0), (3, 1), (3, 2), (3, 3)) for g in (0, 1, 2) if p == 0 or g == 0], **GB)
arr("fill", ["KOS_array_fill", "KOS_fix_index"], [("n%d/grid%d" % (n, g), ("KV_MODE=5", "KV_N=%d" % n) + grid(n, g)) for n in (0, 1, 3) for g in (0, 1, 2)], **GB)
arr("insert", ["KOS_array_insert", "KOS_fix_index", "kos_atomic_move_ptr"],
    [("n%d/grid%d/src%d[%d,%d]" % (n, g, m, b, e), ("KV_MODE=3", "KV_N=%d" % n, "KV_M=%d" % m, "KV_SB=%d" % b, "KV_SE=%d" % e) + grid(n, g))
     for n, m, b, e, g in ((0, 2, 0, 2, 1), (3, 0, 0, 5, 0), (2, 2, 0, 2, 1), (2, 2, 0, 2, 2), (3, 3, 1, 2, 0), (2, 3, -2, -1, 0), (3, 4, 0, 4, 0), (3, 2, 5, 5, 0), (3, 2, -9, 9, 0))], **GB)
arr("self", ["KOS_array_insert", "KOS_fix_index", "kos_atomic_move_ptr"],
    [("n4[%d,%d]/pre%d" % (b, e, p), ("KV_MODE=3", "KV_SELF=1", "KV_N=4", "KV_SB=%d" % b, "KV_SE=%d" % e, "KV_PRE=%d" % p) + grid(4)) for b in range(0, 4) for e in range(b + 1, 5) for p in (0,)] +
    [("n5[%d,%d]/pre1" % (b, e), ("KV_MODE=3", "KV_SELF=1", "KV_N=5", "KV_SB=%d" % b, "KV_SE=%d" % e, "KV_PRE=1") + grid(5)) for b, e in ((0, 5), (1, 3), (3, 4), (2, 2))], **GB)
arr("push", ["KOS_array_push", "KOS_array_pop", "KOS_array_resize", "copy_buf"], [("n%d/pre%d" % (n, p), ("KV_MODE=4", "KV_N=%d" % n, "KV_PRE=%d" % p)) for n in (0, 1, 4) for p in (0, 1, 2, 3)])
arr("reserve", ["KOS_array_reserve", "resize_storage", "copy_buf"], [("n%d-%d" % (n, k), ("KV_MODE=6", "KV_N=%d" % n, "KV_N1=%d" % k)) for n, k in ((0, 0), (0, 3), (3, 2), (3, 8))])
arr("readonly", ["KOS_array_write", "KOS_array_resize", "KOS_array_insert", "KOS_array_push", "KOS_array_fill", "KOS_array_reserve"],
    [("m%d" % m, ("KV_MODE=%d" % m, "KV_RO", "KV_N=3", "KV_M=1", "KV_N1=%d" % n1, "KV_N2=0", "KV_GRID=0,2", "KV_GRID2=2", "KV_SB=0", "KV_SE=1")) for m, n1 in ((1, 2), (3, 0), (4, 0), (5, 0), (6, 9))])
U("fix_index", "fix_index.c", "P10", ["KOS_fix_index"], files=["core/kos_utils.c"])
arr("builtin", ["KOS_array_resize", "KOS_array_push", "KOS_array_pop"],
    [("resize%d-%d-%d" % (a, b, c), ("KV_MODE=1", "KV_N=%d" % a, "KV_N1=%d" % b, "KV_N2=%d" % c)) for a, b, c in ((3, 5, 2), (4, 1, 4))] +
    [("push%d" % n, ("KV_MODE=4", "KV_N=%d" % n)) for n in (1, 4)], cfg=("KV_ARR=10",))

# --- buffers ----------------------------------------------------------------------------
BUF_F = ["KOS_new_buffer", "KOS_new_external_buffer", "alloc_buffer", "get_data", "get_storage", "KOS_buffer_reserve", "KOS_fix_index"]
BUFM = [("new", 0, []), ("reserve", 1, ["KOS_buffer_reserve"]), ("resize", 2, ["KOS_buffer_resize"]), ("make_room", 3, ["KOS_buffer_make_room", "KOS_buffer_data_volatile"]),
        ("fill", 4, ["KOS_buffer_fill"]), ("copy", 5, ["KOS_buffer_copy"]), ("slice", 6, ["KOS_buffer_slice"]), ("data", 7, ["KOS_buffer_data"])]
BUFS = ["core/kos_buffer.c", "core/kos_threads.c", "core/kos_utils.c", "core/kos_instance.c", "core/kos_constants.c"]
for _x in ((), ("KV_EXT",)):
    for _n, _m, _f in BUFM:
        if _x and _n == "data":
            continue
        U("buffer_%s%s" % (_n, "_ext" if _x else ""), "buffer.c", "P11", BUF_F + _f, files=BUFS, cfg=("NDEBUG=1", "KV_GHOST") + _x, unwind=7, soft=True, solver="cadical" if _n == "copy" else "race", loops={"KOS_buffer_reserve": 2, "KOS_buffer_make_room": 2},
          cases=[("any%s" % v, ("KV_MODE=%d" % _m,) + d) for v, d in ((("", ()), ("/self", ("KV_SELF",))) if _n == "copy" else (("", ()),))] +
                ([("readonly", ("KV_MODE=%d" % _m, "KV_RO"))] if _n in ("reserve", "resize", "make_room", "fill", "copy", "data") and not _x else []),
          assumptions=["memcpy, memmove and memset meet the C standard (assumed contracts; their preconditions are obligations)"])

U("buffer_small", "buffer.c", "P11", BUF_F + ["KOS_buffer_fill", "KOS_buffer_copy", "KOS_buffer_slice", "KOS_buffer_resize", "KOS_buffer_make_room"], files=BUFS, cfg=("NDEBUG=1", "KV_BUF=136"), unwind=12, kind="bounded",
  bound="buffers of up to 5 bytes, real memory contents", loops={"KOS_buffer_reserve": 2, "KOS_buffer_make_room": 2}, solver="cadical",
  cases=[("%s/n%d%s" % (n, k, v), ("KV_MODE=%d" % m, "KV_N=%d" % k) + d) for n, m, f in BUFM for k in ((0, 5) if n in ("reserve", "resize", "make_room") else (5,)) for v, d in ((("", ()), ("/self", ("KV_SELF",))) if n == "copy" else (("", ()),)) if n != "data" and not (n in ("fill","copy","slice") and k == 0)])

# --- strings ----------------------------------------------------------------------------
STR_FILES = ["core/kos_string.c", "core/kos_utf8.c", "core/kos_instance.c", "core/kos_constants.c", "core/kos_utils.c", "core/kos_array.c", "core/kos_threads.c", "core/kos_entity.c"]
W3 = (0, 1, 2)


def st(name, fn, mode, cases, bound="strings of up to 4 characters, every code point, every width", quick=lambda n: True, **k):
    cases = [(n, ("KV_MODE=%d" % mode,) + tuple(d)) for n, d in cases]
    U("string_" + name, "string.c", "P09", fn + ["KOS_new_const_string", "new_empty_string"], files=STR_FILES, kind="bounded", bound=bound, solver=k.pop("solver", "sat"), unwind=k.pop("unwind", 6),
      extra=["--max-field-sensitivity-array-size", "128"], cfg=k.pop("cfg", ("KV_STR=112", "KV_ARR=6")), cases=[c for c in cases if quick(c[0])], thorough_cases=[c for c in cases if not quick(c[0])],
      assumptions=["wcscoll orders single characters by code point (\"C\" locale); towupper/towlower are functions from 16-bit characters to 16-bit characters"], **k)


def sd(**k):
    return ["KV_%s=%s" % (x, y) for x, y in sorted(k.items())]


CMPF = ["KOS_string_compare", "compare_slice", "strcmp_8_16", "strcmp_8_32", "strcmp_16_32", "kos_unicode_compare"]
st("compare", CMPF, 0, [("w%d%d/n%d%d" % (a, b, x, y), sd(WA=a, WB=b, NA=x, NB=y, SA=s)) for a in W3 for b in W3 for x, y, s in ((3, 3, 0), (2, 3, 1), (3, 1, 0), (0, 2, 0))])
st("compare_long", CMPF, 0, [("w%d/n%d%d/off%d/diff%d" % (w, n, m, o, d), sd(WA=w, WB=w, NA=n, NB=m, OA=o, DIFF=d)) for w, n, m, o, ds in
((0, 26, 26, 3, (4, 20)), (0, 30, 31, 0, (7, 27)), (1, 14, 14, 1, (2, 11)), (2, 9, 9, 1, (1, 6)), (2, 8, 9, 0, (4,))) for d in ds],
   quick=lambda n: n in ("w0/n2626/off3/diff4", "w0/n3031/off0/diff27", "w1/n1414/off1/diff11", "w2/n99/off1/diff6", "w2/n89/off0/diff4"), bound="strings of the same width of up to 36 bytes, aligned and unaligned, differing in up to three neighbouring characters", unwind=34)
st("compare_slice", CMPF + ["KOS_string_compare_slice"], 1, [("w%d%d" % (a, b), sd(WA=a, WB=b, NA=3, NB=2)) for a, b in ((0, 0), (0, 1), (1, 1), (2, 1), (2, 2), (0, 2))], bound="strings of 3 and 2 characters, every code point, every 64-bit index")
SG = {n: ("0,1,%d" % n, "-%d,-1,%d,%d,INT64_MIN,INT64_MAX" % (n + 1, n - 1, n + 1)) for n in (1, 3, 6, 20)}
st("slice", ["KOS_string_slice"], 2, [("w%d/n%d/s%d/%d%s" % (w, n, s, g, ag), ["KV_GRID=" + SG[n][g], "KV_GRID2=" + SG[n][h]] + sd(WA=w, NA=n, SA=s) + ([ag] if ag else []))
   for w, n, s, ag in ((0, 3, 0, ""), (0, 1, 1, ""), (1, 3, 1, ""), (2, 6, 0, ""), (2, 6, 1, "KV_AGAIN"), (0, 20, 1, "KV_AGAIN")) for g, h in ((0, 0), (0, 1), (1, 0), (1, 1)) if g + h == 0 or n == 3 or (n == 6 and not ag)],
   bound="strings of up to 20 characters; in-range, negative, one-off and extreme indices", unwind=24)
st("char", ["KOS_string_get_char", "KOS_string_get_char_code", "string_size_from_max_code"], 3, [("w%d/s%d" % (w, s), sd(WA=w, NA=3, SA=s)) for w in W3 for s in (0, 1)], bound="strings of 3 characters, every code point, every index")
st("add", ["KOS_string_add_n", "init_empty_string"], 4, [("w%d%d/n%d%d/x%d" % (a, b, x, y, k), sd(WA=a, WB=b, NA=x, NB=y, NUM=k, SA=a & 1)) for a in W3 for b in W3 for x, y, k in ((2, 3, 2), (2, 1, 3))] +
   [("empty%d%d/%d%d" % (a, b, x, y), sd(WA=a, WB=b, NA=x, NB=y, NUM=2)) for a, b, x, y in ((0, 0, 0, 2), (1, 0, 2, 0), (0, 2, 0, 1), (0, 0, 0, 0))] + [("one", sd(WA=1, WB=0, NA=2, NB=0, NUM=1))], unwind=10)
st("add_long", ["KOS_string_add_n"], 4, [("w%d%d" % (a, b), ["KV_TOTAL"] + sd(WA=a, WB=b, NA=1, NB=1, NUM=2)) for a, b in ((0, 0), (1, 2))], unreachable=["init_empty_string"], bound="every pair of lengths")
st("find", ["KOS_string_find", "string_find_brute_force", "compare_slice", "KOS_string_scan"], 5, [("w%d%d/p%d/rev%d" % (a, b, n, r), sd(WA=a, WB=b, NA=5 - n, NB=n, REV=r)) for a in W3 for b in W3 for r in (0, 1) for n in (1, 2) if a == b or n == 2 or r == 0], quick=lambda n: n[1] == n[2] or "rev0" in n, bound="text of 3 or 4 characters, pattern of up to 2, every position")
st("scan", ["KOS_string_scan"], 6, [("w%d%d/inc%d/rev%d/p%d" % (a, b, i, r, n), sd(WA=a, WB=b, NA=4, NB=n, REV=r, INC=i)) for a in W3 for b in W3 for i in (0, 1) for r in (0, 1) for n in (1, 2) if n == 2 or (a, b) in ((0, 0), (1, 0))], quick=lambda n: n[1] == n[2] or ("inc1/rev0" in n or "inc0/rev1" in n), bound="text of 4 characters, up to 2 characters to look for, every position")
st("reverse", ["KOS_string_reverse"], 7, [("w%d/n%d" % (w, n), sd(WA=w, NA=n)) for w in W3 for n in (0, 1, 4)])
st("repeat", ["KOS_string_repeat"], 8, [("w%d/x%d" % (w, n), sd(WA=w, NA=2, NUM=n)) for w in W3 for n in (0, 1, 3)], unwind=10)
st("case", ["KOS_string_lowercase", "KOS_string_uppercase"], 9, [("w%d/up%d/n%d" % (w, u, n), sd(WA=w, NA=n, UP=u)) for w in W3 for u in (0, 1) for n in (0, 2)])
st("hash", ["KOS_string_get_hash"], 10, [("w%d%d/n%d" % (a, b, n), sd(WA=a, WB=b, NA=n, SB=1)) for a in W3 for b in W3 for n in (1, 3)])
st("codes", ["KOS_new_string_from_codes", "KOS_init_string_iter", "KOS_string_iter_peek_next_code"], 11, [("n3", sd(WA=2, NA=3, BAD=1)), ("n1", sd(WA=2, NA=1, BAD=0x200000))])
