"""Runs the specifications of one property, each in its own process."""
import importlib
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


class Spec:
    def __init__(self, name, fn, targets, budget, unrolls):
        self.name, self.fn, self.targets, self.budget = name, fn, targets, budget
        # whether a run of a few iterations decides it: not where the contract gives the
        # verifier facts about a loop's values step by step
        self.unrolls = unrolls


def registry():
    specs = []

    def spec(*targets, budget=100, name=None, unrolls=True):
        def deco(fn):
            specs.append(Spec(name or fn.__name__, fn, list(targets), budget, unrolls))
            return fn

        return deco

    return specs, spec


def _values_of(m):
    """integers and strings of a counter-model, as hints for the search of a failing input"""
    import z3

    ints, strs, text = set(), set(), []
    try:
        for d in m.decls():
            v = m[d]
            text.append(f"{d.name()} = {str(v)[:300]}")
            stack = [v] if isinstance(v, z3.AstRef) else []
            n = 0
            while stack and n < 300:
                n += 1
                u = stack.pop()
                if z3.is_int_value(u):
                    if abs(u.as_long()) < 10**6:
                        ints.add(u.as_long())
                elif z3.is_string_value(u):
                    strs.add(u.as_string()[:60])
                elif z3.is_app(u):
                    stack.extend(u.children())
    except Exception:  # a model we cannot print is no obstacle
        pass
    return sorted(ints), sorted(strs), text[:60]


ITERATIONS = 3


def unrolled(s, explore):
    """the interpreter after a run of at most ITERATIONS iterations of each loop"""
    from pyvc.interp import Interp
    from pyvc.models import BASE

    vm = Interp(dict(BASE))
    vm.unroll = ITERATIONS
    vm.deadline = time.time() + min(60, s.budget)
    try:
        explore(vm)
    except Exception:  # the engine's own failure confirms nothing
        vm.failed = True
    return vm


def not_unrolled(prop):
    """the specifications that an unrolled run does not decide: it refutes them of the code
    they were proved of, for it lacks what their contracts say of a loop"""
    import json

    p = os.path.join(os.path.dirname(HERE), "contracts", "unrolled.json")
    return json.load(open(p)).get(prop, []) if os.path.exists(p) else []


def _confirm(prop, vm, s, explore):
    """a failed obligation about values that a loop's invariants are all that is known of may
    fail for want of an invariant: it is reported as violated if it also fails where the loops
    run up to ITERATIONS times as they stand, and as not proved otherwise"""

    def cut(o):
        return o.model is None or any(d.name().startswith(("h_", "folded!")) for d in o.model.decls())

    doubt = [o for o in vm.obligations if o.status == "refuted" and cut(o)]
    if not doubt:
        return
    fails = {}
    if s.unrolls and s.name not in not_unrolled(prop):
        fails = {o.name: o for o in unrolled(s, explore).obligations if o.status == "refuted"}
    for o in doubt:
        if o.name in fails:
            o.model, o.detail = fails[o.name].model, fails[o.name].detail
        else:
            o.status = "unknown"
            o.detail = f"no invariant proves it; holds of loops of up to {ITERATIONS} iterations, or is not decided for them. " + o.detail


def run_spec(prop, name, q, seed, only_unrolled=False):
    import z3

    t0 = time.time()
    out = {"spec": name, "obligations": [], "error": None, "functions": {}, "assumptions": [], "paths": 0, "queries": 0, "solver_s": 0.0}
    try:
        z3.set_param("smt.random_seed", 7)
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        mod = importlib.import_module("contracts." + prop)
        s = [x for x in mod.SPECS if x.name == name][0]
        from pyvc.interp import Interp
        from pyvc.models import BASE
        from pyvc.vm import PyExc, Unsupported, Budget

        vm = Interp(dict(BASE))
        vm.deadline = time.time() + s.budget

        def explore(vm):
            def body():
                try:
                    s.fn(vm)
                except PyExc as e:
                    vm.prove(f"{name}: raises nothing it should not", False, f"raises {e}")

            try:
                out["paths"] += vm.explore(body)
            except (Unsupported, Budget) as e:
                return f"undecided: {type(e).__name__}: {e}"
            except RecursionError:
                return "undecided: recursion"

        if only_unrolled:
            runs = unrolled(s, explore)
            bad = getattr(runs, "failed", False) or any(o.status == "refuted" for o in runs.obligations)
            q.put(dict(out, unrolled=not bad))
            return
        out["error"] = explore(vm)
        _confirm(prop, vm, s, explore)
        merged = {}
        for o in vm.obligations:
            merged.setdefault(o.name, []).append(o)
        for n, os_ in merged.items():
            real = [o for o in os_ if o.backend != "vacuous"]
            st = "discharged"
            bad = [o for o in os_ if o.status != "discharged"]
            if any(o.status == "refuted" for o in bad):
                st = "refuted"
            elif bad:
                st = "unknown"
            elif not real:
                st = "vacuous"
            worst = ([o for o in bad if o.status == "refuted"] or bad or os_)[0]
            ints, strs, text = _values_of(worst.model) if worst.model is not None else ([], [], [])
            out["obligations"].append(
                {"name": n, "status": st, "paths": len(os_), "secs": round(sum(o.secs for o in os_), 3),
                 "backend": worst.backend, "detail": worst.detail[:1500], "ints": ints, "strs": strs, "model": text})
        out["functions"] = dict(vm.functions)
        out["assumptions"] = sorted(vm.assumptions)
        out["queries"] = vm.queries
        out["solver_s"] = round(vm.solver_s, 3)
        out["loops"] = {f"{k[0]}:{k[1]}": v for k, v in getattr(vm, "loop_report", {}).items()}
    except MemoryError:
        out["error"] = "undecided: memory"
    except BaseException as e:  # the engine's own failure: undecided, never an alarm
        out["error"] = "engine error: " + "".join(traceback.format_exception_only(type(e), e)).strip()
        out["trace"] = traceback.format_exc()[-1500:]
    out["wall_s"] = round(time.time() - t0, 2)
    q.put(out)


def run(prop, jobs=8, seed=1, only=None, only_unrolled=False):
    try:
        mod = importlib.import_module("contracts." + prop)
    except ModuleNotFoundError:
        return []
    pending = [s for s in mod.SPECS if only is None or s.name == only]
    running, results = [], []
    ctx = mp.get_context("fork")
    while pending or running:
        while pending and len(running) < jobs:
            s = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=run_spec, args=(prop, s.name, q, seed, only_unrolled))
            p.start()
            running.append((s, p, q, time.time()))
        for r in list(running):
            s, p, q, t = r
            try:
                results.append(q.get(timeout=0.05))
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(r)
                continue
            except Exception:
                pass
            if time.time() - t > s.budget + 30 or (not p.is_alive() and q.empty()):
                if not p.is_alive():
                    try:
                        results.append(q.get(timeout=1))
                        running.remove(r)
                        continue
                    except Exception:
                        pass
                p.kill()
                results.append({"spec": s.name, "obligations": [], "error": "undecided: time or memory used up",
                                "functions": {}, "assumptions": [], "paths": 0, "queries": 0, "solver_s": 0.0,
                                "wall_s": round(time.time() - t, 1)})
                running.remove(r)
    return sorted(results, key=lambda r: r["spec"])


if __name__ == "__main__":
    import json

    for r in run(sys.argv[1], only=sys.argv[2] if len(sys.argv) > 2 else None):
        print("==", r["spec"], r.get("error") or "", f"{r['wall_s']}s", r["paths"], "paths", r["queries"], "queries")
        for f in sorted(r["functions"]):
            print("     fn", f)
        for k, v in r.get("loops", {}).items():
            print("     loop", k, v)
        for o in r["obligations"]:
            print("    ", o["status"], o["name"], o["secs"], "" if o["status"] == "discharged" else o["detail"][:600])
            if o["status"] == "refuted" and os.environ.get("M"):
                print("         ", o["model"])
        if r.get("trace"):
            print(r["trace"])
