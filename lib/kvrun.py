"""Verification engine: builds goto programs from /repo's current tree, discharges the
obligations of a unit with CBMC (SAT and SMT back ends), guards against vacuity, and
replays counterexamples against the real code compiled natively."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
CC_FLAGS = ["-DCONFIG_THREADS=0", "-Dvolatile=", "-D_BSD_SOURCE", "-D_DEFAULT_SOURCE", "-D_POSIX_C_SOURCE=200112L"]
NATIVE_FLAGS = ["-O1", "-g", "-w", "-fwrapv", "-D_BSD_SOURCE", "-D_DEFAULT_SOURCE", "-D_POSIX_C_SOURCE=200112L"]
CORES = os.cpu_count() or 4
# C library functions for which cbmc carries its own model
LIBC = "malloc|free|calloc|realloc|memcpy|memmove|memset|memcmp|strlen|strcmp|strncmp|floor|ceil|trunc|fabs|isnan|isinf|abs|labs|__builtin_.*"
# functions replaced by an assumed contract in kv_rt_cbmc.c
DEFAULT_STUBS = ["KOS_raise_exception", "KOS_raise_exception_cstring", "KOS_raise_printf", "kos_wrap_exception",
                 "kos_validate_context", "kos_alloc_object", "kos_lock_mutex", "kos_unlock_mutex"]


class Undecided(Exception):
    pass


_procs = set()
_plock = threading.Lock()


def run(cmd, timeout=None, cwd=None, mem_gb=None, stdin=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre,
                         stdin=subprocess.DEVNULL, text=True, errors="replace")
    with _plock:
        _procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        kill(p)
        try:
            o, e = p.communicate(timeout=5)
        except Exception:
            o, e = "", ""
        return None, o, e
    finally:
        with _plock:
            _procs.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


def stop_all(*a):
    with _plock:
        ps = list(_procs)
    for p in ps:
        if p.poll() is None:
            kill(p)
    if a:
        for d in _dirs:
            shutil.rmtree(d, ignore_errors=True)
        os._exit(3)


_dirs = []
signal.signal(signal.SIGTERM, stop_all)


class Workspace:
    """Overlaid copy of the sources + compiled goto libraries, in a scratch directory."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="kosverif.")
        _dirs.append(self.dir)
        self.src = os.path.join(self.dir, "src")
        self.libs = {}
        self.lock = threading.Lock()
        self.locks = {}
        self.native_lock = threading.Lock()
        self.native = {}
        os.mkdir(self.src)
        for d in ("core", "inc", "modules", "interpreter"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.src, d))
        self.overlay_notes = []
        self._overlay()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _sub(self, rel, pat, rep):
        p = os.path.join(self.src, rel)
        try:
            s = open(p, encoding="utf-8", errors="surrogateescape").read()
        except OSError:
            return
        s2, n = re.subn(pat, rep, s)
        if n:
            open(p, "w", encoding="utf-8", errors="surrogateescape").write(s2)
        self.overlay_notes.append("%s: %s x%d" % (rel, rep, n))

    def _overlay(self):
        self._sub("core/kos_object_internal.h", r"\bitems\[1\];", "items[KV_ITEMS];")
        self._sub("core/kos_object_internal.h", r"\bbuf\[1\];", "buf[KV_ARR];")
        self._sub("core/kos_array.c", r"\*\)\(\(uintptr_t\)(\w+) \+ ", r"*)((char *)\1 + ")
        # alignment tests and rounding, without integer-to-pointer casts
        for f in ("core/kos_string.c", "core/kos_utf8.c"):
            self._sub(f, r"\((const uint8_t|const uint64_t|const char) \*\)\(\(uintptr_t\)(\w+) & ~\(uintptr_t\)7U?\)",
                      r"(\1 *)((const char *)\2 - (__CPROVER_POINTER_OFFSET(\2) & 7U))")
            self._sub(f, r"\(\(uintptr_t\)(\w+) & 7U?\)", r"(__CPROVER_POINTER_OFFSET(\1) & 7U)")
        self._sub("inc/kos_buffer.h", r"\bbuf\[1\];", "buf[KV_BUF];")
        self._sub("inc/kos_entity.h", r"\bdata\[1\];", "data[KV_STR];")
        self._sub("inc/kos_entity.h", r"\bbytecode\[1\];", "bytecode[KV_BC];")
        self._sub("inc/kos_instance.h", r"\bbuf\[1\];", "buf[KV_STK];")
        p = os.path.join(self.src, "inc/kos_entity.h")
        with open(p, "a") as f:
            f.write(open(os.path.join(LIB, "overlay_entity.h")).read())

    # -- goto library for a configuration
    def lib(self, unit):
        key = (tuple(unit.cfg), tuple(unit.stubs), tuple(unit.unreachable), tuple(unit.modules), tuple(unit.files or ()))
        with self.lock:
            lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if key not in self.libs:
                try:
                    self.libs[key] = self._build_lib(unit, key)
                except Undecided as e:
                    self.libs[key] = e
            r = self.libs[key]
        if isinstance(r, Undecided):
            raise r
        return r

    def flags(self, unit):
        return CC_FLAGS + ["-D" + c for c in unit.cfg] + ["-include", os.path.join(LIB, "kv_cfg.h"),
                "-I", self.src, "-I", os.path.join(self.src, "inc"), "-I", os.path.join(self.src, "core"), "-I", LIB]

    def _build_lib(self, unit, key):
        d = os.path.join(self.dir, "gb_" + hashlib.sha1(repr(key).encode()).hexdigest()[:10])
        os.mkdir(d)
        if unit.files:
            srcs = [os.path.join(self.src, f) for f in unit.files]
        else:
            srcs = sorted(glob.glob(os.path.join(self.src, "core", "*.c")))
        srcs += [os.path.join(self.src, "modules", m) for m in unit.modules]
        fl = self.flags(unit)

        def comp(c):
            o = os.path.join(d, os.path.basename(c)[:-2] + ".gb")
            rc, so, se = run(["goto-cc", "-c", "--export-file-local-symbols"] + fl + [c, "-o", o], timeout=120)
            return (rc, o, so + se, c)
        with cf.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(comp, srcs + [os.path.join(LIB, "kv_rt_cbmc.c")]))
        for rc, o, txt, c in res:
            if rc != 0:
                raise Undecided("goto-cc failed on %s: %s" % (os.path.basename(c), txt[-400:]))
        objs = [r[1] for r in res[:-1]]
        rt = res[-1][1]
        l0, l1, l2 = [os.path.join(d, "_lib%d.gb" % i) for i in range(3)]
        step(["goto-cc"] + objs + ["-o", l0])
        rm = [f for f in list(unit.stubs) + list(unit.unreachable)]
        args = []
        if unit.unreachable:
            rc, so, se = run(["goto-instrument", "--list-goto-functions", l0], timeout=60)
            for fn in sorted(set(re.findall(r"/\* (__CPROVER_file_local_\S+) \*/", so))):
                if fn.split("_c_", 1)[-1] in unit.unreachable:
                    rm.append(fn)
        for f in rm:
            args += ["--remove-function-body", f]
        step(["goto-instrument"] + args + [l0, l1] if args else ["cp", l0, l1])
        step(["goto-cc", l1, rt, "-o", l2])
        return l2

    # -- native build of the real code (archive) for replay
    def native_lib(self, modules):
        with self.native_lock:
            if "objs" not in self.native:
                d = os.path.join(self.dir, "native")
                os.mkdir(d)

                def comp(c):
                    o = os.path.join(d, os.path.basename(c)[:-2] + ".o")
                    rc, so, se = run(["gcc", "-c"] + NATIVE_FLAGS + [c, "-o", o], timeout=120)
                    return rc, o, se
                srcs = sorted(glob.glob(os.path.join(REPO, "core", "*.c"))) + sorted(glob.glob(os.path.join(REPO, "modules", "*.c")))
                with cf.ThreadPoolExecutor(CORES) as ex:
                    res = list(ex.map(comp, srcs))
                self.native["objs"] = [o for rc, o, se in res if rc == 0]
                a = os.path.join(d, "libkosnative.a")
                run(["ar", "rcs", a] + self.native["objs"], timeout=60)
                self.native["a"] = a
        return self.native["a"]

    def native_bin(self, unit, defs):
        a = self.native_lib(unit.modules)
        key = hashlib.sha1(repr((unit.name, defs)).encode()).hexdigest()[:10]
        with self.native_lock:
            b = os.path.join(self.dir, "native", "h_" + key)
            if os.path.exists(b):
                return b
            src = [os.path.join(VERIF, "harness", unit.file), os.path.join(LIB, "kv_rt_native.c")]
            fl = ["-DKV_NATIVE"] + ["-D" + x for x in defs] + ["-I", REPO, "-I", os.path.join(REPO, "inc"),
                  "-I", os.path.join(REPO, "core"), "-I", os.path.join(REPO, "modules"), "-I", LIB]
            rc, so, se = run(["gcc"] + NATIVE_FLAGS + fl + src + [a, "-o", b, "-lm", "-lpthread", "-ldl", "-Wl,-z,muldefs"], timeout=120)
            if rc != 0:
                raise Undecided("native build of harness failed: " + se[-600:])
            return b


def step(cmd):
    rc, so, se = run(cmd, timeout=200)
    if rc != 0:
        raise Undecided("%s failed: %s" % (cmd[0], (so + se)[-500:]))


class Unit:
    def __init__(self, name, file, prop, functions, cfg=(), stubs=None, add_stubs=(), drop_stubs=(), unreachable=(), modules=(),
                 files=None, cases=(("all", ()),), unwind=4, loops=None, solver="race", kind="proof", bound="", timeout=200,
                 assumptions=(), native=True, native_ok=True, checks=(), thorough_cases=(), extra=(), reach=True, contracts=(), what="", weight=1, recur=None, soft=False):
        self.soft = soft
        self.recur = dict(recur or {})
        self.weight = weight
        self.name, self.file, self.prop, self.functions = name, file, prop, list(functions)
        self.cfg = list(cfg)
        st = list(DEFAULT_STUBS if stubs is None else stubs) + list(add_stubs)
        self.stubs = [s for s in st if s not in drop_stubs]
        self.unreachable = list(unreachable)
        self.modules, self.files = list(modules), files
        self.cases = list(cases)
        self.thorough_cases = list(thorough_cases)
        self.unwind, self.loops = unwind, dict(loops or {})
        self.solver, self.kind, self.bound, self.timeout = solver, kind, bound, timeout
        self.assumptions = list(assumptions)
        self.native = native
        self.checks = list(checks)
        self.extra = list(extra)
        self.reach = reach
        self.contracts = list(contracts)
        self.what = what


class Result:
    def __init__(self, unit, case):
        self.unit, self.case = unit, case
        self.status = None      # proved / refuted / undecided
        self.obligations = 0
        self.discharged = 0
        self.solver = ""
        self.time = 0.0
        self.detail = ""
        self.failed = []
        self.inputs = None
        self.replayed = None
        self.reach = (0, 0)
        self.native_runs = 0
        self.bound_note = ""


PROP_RE = re.compile(r"^\[([^\]]+)\] (?:file \S+ )?(?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)\s*$")


def parse_props(out):
    d = {}
    for l in out.splitlines():
        m = PROP_RE.match(l)
        if m:
            d[m.group(1)] = (m.group(2), m.group(3))
    return d


def housekeeping(pid, desc):
    return "unwinding assertion" in desc or ".unwind." in pid or "recursion unwinding" in desc \
        or "[limit]" in desc or "undefined function should be unreachable" in desc or ".no-body." in pid or "no body for callee" in desc


class Engine:
    def __init__(self, tier="quick", budget=640):
        self.ws = Workspace()
        self.tier = tier
        self.t0 = time.time()
        self.budget = budget

    def left(self):
        return self.budget - (time.time() - self.t0)

    def goto(self, unit, label, defs, reach):
        lib = self.ws.lib(unit)
        d = tempfile.mkdtemp(prefix="u_", dir=self.ws.dir)
        h, a, b, c = [os.path.join(d, x) for x in ("h.gb", "a.gb", "b.gb", "c.gb")]
        fl = self.ws.flags(unit) + ["-D" + x for x in defs] + (["-DKV_REACH_MODE"] if reach else [])
        rc, so, se = run(["goto-cc", "-c"] + fl + [os.path.join(VERIF, "harness", unit.file), "-o", h], timeout=60)
        if rc != 0:
            raise Undecided("harness does not compile against the current tree: " + (so + se)[-600:])
        step(["goto-cc", h, lib, "-o", a])
        step(["goto-instrument", "--drop-unused-functions", a, b])
        step(["goto-instrument", "--generate-function-body", r"(?!(nondet_.*|__CPROVER.*|__VERIFIER.*|main|harness|" + LIBC + r")$).*",
              "--generate-function-body-options", "assert-false-assume-false", b, c])
        return c

    def unwindset(self, unit, gb, extra=None):
        rc, so, se = run(["cbmc", gb, "--show-loops", "--no-standard-checks"], timeout=120)
        sets = []
        for m in re.finditer(r"^Loop (\S+):", so, re.M):
            lid = m.group(1)
            fn = lid.rsplit(".", 1)[0]
            short = fn.split("_c_", 1)[1] if fn.startswith("__CPROVER_file_local_") and "_c_" in fn else fn
            n = None
            for k, v in unit.loops.items():
                if k == short or k == lid or k == fn:
                    n = v
            if extra and lid in extra:
                n = extra[lid]
            if n:
                sets.append("%s:%d" % (lid, n))
        if unit.recur:
            rc, so, se = run(["goto-instrument", "--list-goto-functions", gb], timeout=60)
            for fn in set(re.findall(r"/\* (\S+) \*/", so)):
                short = fn.split("_c_", 1)[1] if fn.startswith("__CPROVER_file_local_") and "_c_" in fn else fn
                if short in unit.recur:
                    sets.append("%s:%d" % (fn, unit.recur[short]))
        return sets

    def cbmc_args(self, unit, gb, extra=None):
        a = ["cbmc", gb, "--no-standard-checks"] + unit.checks + ["--unwind", str(unit.unwind), "--unwinding-assertions",
             "--drop-unused-functions", "--slice-formula"] + unit.extra
        us = self.unwindset(unit, gb, extra)
        if us:
            a += ["--unwindset", ",".join(us)]
        return a

    # one obligation set; returns Result
    def discharge(self, unit, label, defs):
        r = Result(unit, label)
        t0 = time.time()
        try:
            gb = self.goto(unit, label, defs, False)
            extra = {}
            for attempt in range(3):
                tl = min(unit.timeout, self.left())
                if tl < 5:
                    raise Undecided("time budget of the check used up")
                st, info = self.solve(unit, gb, extra, tl, r)
                if st != "bound":
                    break
                for lid in info:
                    extra[lid] = max(extra.get(lid, unit.loops.get(lid, unit.unwind)), unit.unwind) * 2
                r.bound_note = "unwinding raised for %s" % ",".join(info)
            if st == "bound":
                raise Undecided("loop bound not sufficient: " + ",".join(info)[:300])
            r.status = st
        except Undecided as e:
            r.status, r.detail = "undecided", str(e)
        r.time = time.time() - t0
        return r

    def solve(self, unit, gb, extra, tl, r):
        args = self.cbmc_args(unit, gb, extra)
        done = threading.Event()
        out = {}
        lock = threading.Lock()
        procs = []

        def finish(name, val):
            with lock:
                if not done.is_set() and val[0] != "unknown":
                    out["r"] = (name, val)
                    done.set()
                out.setdefault("notes", []).append((name, val[0], str(val[1])[:300]))

        def spawn(cmd):
            with lock:
                if done.is_set():
                    raise Undecided("stopped")
                p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                     stdin=subprocess.DEVNULL, preexec_fn=os.setsid)
                procs.append(p)
            with _plock:
                _procs.add(p)
            return p

        def sat(name, opts):
            p = spawn(args + opts)
            so, _ = p.communicate()
            props = parse_props(so)
            if p.returncode in (0, 10) and props and "VERIFICATION" in so:
                finish(name, ("props", props))
            else:
                finish(name, ("unknown", so[-300:]))

        def smt(name, solver):
            if unit.solver == "race" and done.wait(3):       # most cases take the SAT back end less than that
                return
            f = os.path.join(os.path.dirname(gb), name.replace(" ", "_") + ".smt2")
            p = spawn(args + ["--smt2", "--fpa", "--outfile", f])
            so, _ = p.communicate()
            if done.is_set():
                return
            if p.returncode == 0 and "VERIFICATION SUCCESSFUL" in so:
                finish(name, ("unsat", self.count_props(unit, gb)))
                return
            if p.returncode != 0 or "Running SMT2" not in so or not os.path.exists(f):
                finish(name, ("unknown", so[-300:]))
                return
            fix_smt(f)
            u = abstract_fp(f)
            if u:
                p = spawn(solver + [u])
                try:
                    so2, _ = p.communicate(timeout=min(60, tl / 2))
                except subprocess.TimeoutExpired:
                    kill(p)
                    so2 = ""
                if done.is_set():
                    return
                if (so2.split() or [""])[0] == "unsat":
                    finish(name + " (float operators uninterpreted)", ("unsat", self.count_props(unit, gb)))
                    return
            p = spawn(solver + [f])
            so2, _ = p.communicate()
            first = (so2.split() or [""])[0]
            if first == "unsat":
                finish(name, ("unsat", self.count_props(unit, gb)))
            elif first == "sat":
                finish(name, ("sat", smt_inputs(so2)))
            else:
                finish(name, ("unknown", so2[:300]))

        modes = {"sat": [("minisat", sat, [])], "cadical": [("cadical", sat, ["--sat-solver", "cadical"])],
                 "smt": [("z3", smt, ["z3-new"])], "cvc5": [("cvc5", smt, ["cvc5"])]}
        sel = unit.solver.split("+") if unit.solver != "race" else ["sat", "smt"]
        if unit.solver == "all":
            sel = ["sat", "cadical", "smt", "cvc5"]
        ths = []
        pend = [0]
        for s in sel:
            for name, fn, o in modes[s]:
                def body(fn=fn, name=name, o=o):
                    try:
                        fn(name, o)
                    except Exception as e:
                        finish(name, ("unknown", repr(e)))
                    with lock:
                        pend[0] -= 1
                        if pend[0] == 0:
                            done.set()
                pend[0] += 1
                ths.append(threading.Thread(target=body))
        for t in ths:
            t.start()
        done.wait(tl)
        with lock:
            done.set()
        for p in procs:
            if p.poll() is None:
                kill(p)
            with _plock:
                _procs.discard(p)
        for t in ths:
            t.join(10)
        if "r" not in out:
            raise Undecided("no answer within %d s (%s)" % (tl, out.get("notes")))
        name, (kind, val) = out["r"]
        r.solver = name
        if kind == "unsat":
            r.obligations = r.discharged = val
            return "proved", None
        if kind == "sat":
            # which obligation?  ask for the housekeeping ones first
            r.inputs = val
            return self.name_failure(unit, gb, args, r)
        props = val
        hk = [(i, p) for i, p in props.items() if housekeeping(i, p[0]) and p[1] == "FAILURE"]
        bad = [(i, p) for i, p in props.items() if not housekeeping(i, p[0]) and p[1] == "FAILURE"]
        r.obligations = len(props)
        r.discharged = sum(1 for p in props.values() if p[1] == "SUCCESS")
        if hk:
            und = [i for i, p in hk if "unwind" not in p[0] and ".unwind." not in i]
            if und:
                raise Undecided("calls a function outside the verified set: " + ", ".join("%s" % i for i in und)[:300])
            return "bound", [unw_id(i) for i, p in hk]
        if bad:
            r.failed = ["%s: %s" % (i, p[0]) for i, p in bad]
            r.inputs = self.trace(unit, args, [i for i, p in bad][0])
            return "refuted", None
        if any(p[1] != "SUCCESS" for p in props.values()):
            raise Undecided("undetermined obligations")
        return "proved", None

    def all_loops(self, gb):
        rc, so, se = run(["cbmc", gb, "--show-loops", "--no-standard-checks"], timeout=120)
        return re.findall(r"^Loop (\S+):", so, re.M)

    def count_props(self, unit, gb):
        rc, so, se = run(["cbmc", gb, "--show-properties", "--no-standard-checks"] + unit.checks, timeout=60)
        return len(re.findall(r"^Property ", so, re.M))

    def trace(self, unit, args, pid):
        for opts in ([], ["--sat-solver", "cadical"]):
            rc, so, se = run(args + opts + ["--property", pid, "--trace", "--json-ui"], timeout=max(5, min(unit.timeout, self.left())))
            if rc == 10:
                try:
                    return trace_inputs(json.loads(so))
                except Exception:
                    return None
        return None

    def name_failure(self, unit, gb, args, r):
        rc, so, se = run(["cbmc", gb, "--show-properties", "--no-standard-checks", "--json-ui"] + unit.checks, timeout=60)
        hk, real = [], []
        try:
            for m in json.loads(so):
                for p in m.get("properties", []):
                    (hk if housekeeping(p["name"], p["description"]) else real).append((p["name"], p["description"]))
        except Exception:
            pass
        def ask(names):
            f = gb + ".q.smt2"
            a = [x if x != "--unwinding-assertions" else "--no-unwinding-assertions" for x in args]
            for n in names:
                a += ["--property", n]
            rc, so, se = run(a + ["--smt2", "--fpa", "--outfile", f], timeout=120)
            if rc == 0 and "VERIFICATION SUCCESSFUL" in so:
                return "unsat", None
            if rc != 0 or "Running SMT2" not in so:
                return "unknown", None
            fix_smt(f)
            rc, so2, se = run(["z3-new", f], timeout=max(5, min(60, self.left())))
            first = (so2.split() or ["unknown"])[0]
            return first, smt_inputs(so2)
        # narrow down by the harness' own obligations, then everything else
        kvp = [n for n, dsc in real if dsc.startswith("KV:")]
        others = [n for n, dsc in real if not dsc.startswith("KV:")]
        for n, dsc in real:
            if dsc.startswith("KV:"):
                st, inp = ask([n])
                if st == "sat":
                    r.failed.append("%s: %s" % (n, dsc))
                    r.inputs = inp or r.inputs
                    break
        if not r.failed and others:
            st, inp = ask(others)
            if st == "sat":
                r.failed.append("an assertion in the code")
                r.inputs = inp or r.inputs
        # unwinding assertions are not in --show-properties before unwinding: if nothing else is refuted it is those
        if not r.failed:
            return "bound", self.all_loops(gb)
        return "refuted", None

    def reachability(self, unit, label, defs):
        try:
            gb = self.goto(unit, label, defs, True)
        except Undecided as e:
            return None
        args = self.cbmc_args(unit, gb)
        rc, so, se = run(["cbmc", gb, "--show-properties", "--no-standard-checks"], timeout=60)
        ids = re.findall(r"^Property (\S+):\n(?:.*\n){1,2}\s+REACH:", so, re.M)
        if not ids:
            return (0, 0)
        a = list(args)
        a.remove("--unwinding-assertions")
        a += ["--no-unwinding-assertions"]
        for i in ids:
            a += ["--property", i]
        rc, so, se = run(a, timeout=max(5, min(unit.timeout, self.left())))
        props = parse_props(so)
        got = sum(1 for p in props.values() if p[1] == "FAILURE" and p[0].startswith("REACH:"))
        if not props:
            return None
        return (got, len(ids))

    def replay(self, unit, defs, inputs):
        """-> (True, text) when the real code violates the contract on these inputs"""
        b = self.ws.native_bin(unit, defs)
        rc, so, se = run([b, "file"] + [str(x) for x in (inputs or [])], timeout=60, cwd=self.ws.dir)
        return (rc == 1 and "KV-FAIL" in so), so + se[-2000:]

    def native_random(self, unit, defs, secs, seed):
        b = self.ws.native_bin(unit, defs)
        rc, so, se = run([b, "rand", str(seed), str(secs)], timeout=secs + 60, cwd=self.ws.dir)
        m = re.search(r"runs=(\d+)", so)
        fail = rc == 1 and "KV-FAIL" in so
        inputs = None
        if fail:
            mm = re.search(r"KV-INPUTS((?: f?\d+)*)", so)
            inputs = mm.group(1).split() if mm else []
        return fail, inputs, so + se[-2000:], int(m.group(1)) if m else 0


def unw_id(pid):
    m = re.match(r"(.*)\.unwind\.(\d+)$", pid)
    return "%s.%s" % (m.group(1), m.group(2)) if m else pid


NAME_RE = r"\|(kv_f?in(?:!\d+)?(?:@\d+)?#(\d+))\|"


def fix_smt(f):
    s = open(f, errors="replace").read()
    s = s.replace("(set-logic QF_AUFBV)", "(set-logic ALL)")
    s = s.replace("|mod|", "|mod_|")
    keep = [l for l in s.splitlines() if not l.startswith("(get-value")]
    names = sorted(set(x[0] for x in re.findall(NAME_RE, s)))
    out = []
    for l in keep:
        if l.startswith("(exit)"):
            for n in names:
                out.append("(get-value (|%s|))" % n)
        out.append(l)
    open(f, "w").write("(set-option :produce-models true)\n" + "\n".join(out) + "\n")


def abstract_fp(f):
    """The same obligation with + - * / on doubles replaced by uninterpreted functions: a
    weaker assumption, so "unsat" carries over to the original.  None when there are none."""
    s = open(f, errors="replace").read()
    fp, d, n = "(_ FloatingPoint 11 53)", "", 0
    for o in ("add", "sub", "mul", "div"):
        a = "(fp.%s roundNearestTiesToEven " % o
        n += s.count(a)
        s = s.replace(a, "(kvuf_%s " % o)
        d += "(declare-fun kvuf_%s (%s %s) %s)\n" % (o, fp, fp, fp)
    if not n:
        return None
    k = s.index("(set-logic ALL)") + len("(set-logic ALL)")
    u = f[:-5] + ".uf.smt2"
    open(u, "w").write(s[:k] + "\n" + d + s[k:])
    return u


def _num(v):
    return int(v[2:], 16 if v[1] == "x" else 2)


def _fpval(v):
    v = v.strip()
    m = re.match(r"\(fp\s+(#\S+)\s+(#\S+)\s+(#\S+?)\)$", v)
    if m:
        return _num(m.group(1)) << 63 | _num(m.group(2)) << 52 | _num(m.group(3))
    for k, b in (("+zero", 0), ("-zero", 1 << 63), ("+oo", 0x7FF << 52), ("-oo", 0xFFF << 52), ("NaN", 0x7FF8 << 48)):
        if k in v:
            return b
    return 0


def smt_inputs(txt):
    vi, vf = {}, {}
    for m in re.finditer(r"\(\(\|?kv_(f?)in[^#]*#(\d+)\|?\s+(.*?)\)\)(?=\s|$)", txt):
        if m.group(1):
            vf[int(m.group(2))] = _fpval(m.group(3) + (")" if m.group(3).startswith("(fp ") else ""))
        else:
            vi[int(m.group(2))] = _num(m.group(3))
    return _order(vi) + ["f%d" % x for x in _order(vf)]


def _order(vals):
    if not vals:
        return []
    ks = sorted(vals)
    return [vals.get(k, 0) for k in range(min(2, ks[0]), ks[-1] + 1)]


def trace_inputs(js):
    vi, vf = [], []
    for item in js:
        for res in item.get("result", []) if isinstance(item, dict) else []:
            for st in res.get("trace", []) or []:
                if st.get("stepType") == "assignment" and st.get("lhs") in ("kv_in", "kv_fin") and not st.get("hidden"):
                    if (st.get("sourceLocation") or {}).get("function") not in ("kv_u64", "kv_f64"):
                        continue
                    v = st["value"]
                    n = int(v["binary"], 2) if "binary" in v else int(re.sub(r"[^0-9]", "", v.get("data", "0")) or 0)
                    (vf if st["lhs"] == "kv_fin" else vi).append(n)
            if vi or vf:
                return vi + ["f%d" % x for x in vf]
    return []
