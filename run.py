#!/usr/bin/env python3
"""check <property> [--tier quick|thorough]   decide one property on /repo's current tree
   replay <file>                             re-run a recorded counterexample on the real code"""
import concurrent.futures as cf
import json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import kvrun, units

EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")


def known(prop):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def do_case(eng, unit, label, defs, tier, seed):
    r = eng.discharge(unit, label, defs)
    r.defs = list(defs)
    r.reach = None
    r.native = ""
    if r.status == "proved" and unit.reach:
        r.reach = eng.reachability(unit, label, defs)
        if r.reach is None or r.reach[0] < r.reach[1] or r.reach[1] == 0:
            r.status = "undecided"
            r.detail = "vacuity guard: %s of the reachability marks are reachable" % (r.reach,)
    if unit.native:
        try:
            if r.status == "refuted":
                ok, txt = eng.replay(unit, defs, r.inputs)
                r.native = txt[-3000:]
                r.replayed = ok
                if not ok:
                    fail, inp, txt, n = eng.native_random(unit, defs, 8, seed)
                    r.native_runs += n
                    if fail:
                        r.replayed, r.inputs, r.native = True, inp, txt[-3000:]
                    elif unit.soft:
                        r.status = "undecided"
                        r.detail = "not proved: %s, no failing input" % "; ".join(r.failed)[:300]
            else:
                secs = (20 if tier == "thorough" else 6) if r.status == "undecided" else (5 if tier == "thorough" else 0.4)
                fail, inp, txt, n = eng.native_random(unit, defs, secs, seed)
                r.native_runs += n
                if fail:
                    r.was = r.status
                    r.status, r.replayed, r.inputs, r.native = "refuted", True, inp, txt[-3000:]
                    m = re.search(r"KV-FAIL (.*)", txt)
                    r.failed = ["native: " + (m.group(1) if m else "contract")]
                elif r.status == "undecided" and not n:
                    r.detail += " ; native evaluation: no run (%s)" % txt[-200:]
        except kvrun.Undecided as e:
            r.detail += " ; " + str(e)
    return r


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    us = [u for u in units.UNITS if u.prop == prop]
    eng = kvrun.Engine(tier, budget=780 if tier == "quick" else 7200)
    os.makedirs(EVID, exist_ok=True)
    results = []
    try:
        jobs = []
        for u in us:
            for label, defs in u.cases + (u.thorough_cases if tier == "thorough" else []):
                jobs.append((u, label, defs))
        jobs.sort(key=lambda j: -j[0].weight)
        with cf.ThreadPoolExecutor(max(2, min(8, kvrun.CORES))) as ex:
            fs = [ex.submit(do_case, eng, u, l, d, tier, seed) for u, l, d in jobs]
            for f in fs:
                try:
                    results.append(f.result())
                except Exception:
                    traceback.print_exc()
    finally:
        eng.ws.close()
    viol = []
    kf = known(prop)
    nk = 0
    for r in results:
        tag = "%s/%s" % (r.unit.name, r.case)
        line = "%-34s %-9s %4d/%-4d %-10s %5.1fs" % (tag, r.status, r.discharged, r.obligations, r.solver[:10], r.time)
        if r.status == "undecided":
            line += "  [%s; native contract evaluation, %d runs]" % (r.detail[:300], r.native_runs)
        print(line)
        if r.status == "refuted":
            f = [k for k in kf if k[0] == tag]
            if f:
                print("KNOWN-FINDING: property=%s %s" % (prop, f[0][1]))
                nk += 1
                continue
            viol.append(r)
    proof_units = [r for r in results if r.status == "proved"]
    backends, st = {}, 0.0
    for r in proof_units:
        backends[r.solver] = backends.get(r.solver, 0) + r.discharged
        st += r.time
    ob = sum(max(r.obligations, 1) for r in results)
    dis = sum(r.discharged for r in proof_units)
    bounded = sorted(set("%s: %s" % (u.name, u.bound) for u in us if u.kind == "bounded"))
    level = "proof" if not bounded else "mixed"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": units.LEVEL.get(prop, "proof"),
        "coverage": {
            "obligations": ob, "discharged": dis,
            "checker_cmd": "python3 /verif/run.py check %s --tier %s" % (prop, tier),
            "trusted_base": ["cbmc 6.11.0 symbolic execution, memory model and C library models", "minisat2/cadical/z3/cvc5 back ends",
                             "tag-macro overlay and struct tail lengths (DESIGN.md, Extraction)"],
            "functions_under_contract": sorted(set(f for u in us for f in u.functions)),
            "obligations_by_backend": backends,
            "solver_time_s": round(st, 1),
            "cases": len(results), "cases_proved": len([r for r in proof_units if r.unit.kind == "proof"]),
            "cases_bounded": len([r for r in proof_units if r.unit.kind == "bounded"]),
            "bounded_units": bounded,
            "undecided": ["%s/%s: %s" % (r.unit.name, r.case, r.detail[:300]) for r in results if r.status == "undecided"],
            "vacuity_marks_reached": sum(r.reach[0] for r in results if r.reach),
            "native_contract_evaluations": sum(r.native_runs for r in results),
            "known_findings": nk,
            "replaced_by_contract": sorted(set(s for u in us for s in u.stubs)),
            "required_unreachable": sorted(set(s for u in us for s in u.unreachable)),
        },
        "assumptions": sorted(set(a for u in us for a in u.assumptions)) + units.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, r in enumerate(viol):
        path = os.path.join(EVID, "%s-replay-%d.json" % (prop, k))
        with open(path, "w") as f:
            json.dump({"property": prop, "unit": r.unit.name, "case": r.case, "defines": r.defs, "failed_obligations": r.failed,
                       "inputs": r.inputs, "replayed_on_real_code": bool(r.replayed), "native_output": r.native,
                       "verifier": {"solver": r.solver, "detail": r.detail},
                       "how": "python3 /verif/run.py replay " + path}, f, indent=1)
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if r.replayed else " no-failing-input-found"))
        for x in r.failed[:4]:
            print("   failed obligation: " + x)
    print("%s %s: %d cases, %d proved, %d undecided, %d violations, %.0f s" % (
        prop, tier, len(results), len(proof_units), len([r for r in results if r.status == "undecided"]), len(viol), time.time() - t0))
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    u = [u for u in units.UNITS if u.name == d["unit"]][0]
    eng = kvrun.Engine()
    try:
        ok, txt = eng.replay(u, d["defines"], d["inputs"])
        print(txt)
        return 1 if ok else 0
    finally:
        eng.ws.close()


if __name__ == "__main__":
    a = sys.argv[1:]
    tier = "quick"
    if "--tier" in a:
        k = a.index("--tier")
        tier = a[k + 1]
        del a[k:k + 2]
    if a[0] == "check":
        sys.exit(check(a[1], tier))
    if a[0] == "replay":
        sys.exit(replay(a[1]))
