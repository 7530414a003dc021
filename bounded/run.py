"""Evaluates the executable contract of a property on the real code."""
import argparse
import ast
import faulthandler
import gc
import importlib.util
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
faulthandler.enable()


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def constants(files):
    """integers and strings written in the code under contract: boundary values for the generators"""
    ints, strs = set(), set()
    repo = os.environ.get("PYTHONPATH", "/repo").split(":")[0]
    for f in files:
        try:
            with open(os.path.join(repo, f), encoding="utf8") as h:
                tree = ast.parse(h.read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) <= 20000:
                    ints.update({n.value - 1, n.value, n.value + 1})
                elif isinstance(n.value, str) and 0 < len(n.value) <= 24:
                    strs.add(n.value)
    return sorted(ints), sorted(strs)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--budget", type=float, default=20)
    a.add_argument("--out")
    a.add_argument("--hints")
    a.add_argument("--replay")
    a.add_argument("--intense", action="store_true")
    o = a.parse_args()
    sys.path.insert(0, HERE)
    spec = importlib.util.spec_from_file_location("bounded_" + o.prop, os.path.join(HERE, o.prop + ".py"))
    mod = importlib.util.module_from_spec(spec)
    res = {"evaluations": 0, "distinct": 0, "problems": [], "samples": [], "rule": "", "exhausted": False}
    try:
        spec.loader.exec_module(mod)
    except Exception as e:
        # the code under contract cannot even be imported
        res["problems"].append({"key": "import", "what": "the code cannot be imported: " + traceback.format_exc()[-600:], "case": None})
        res["rule"] = "import"
        if o.out:
            json.dump(res, open(o.out, "w"))
        else:
            print(res)
        return
    res["rule"] = (mod.__doc__ or "").strip()
    signal.signal(signal.SIGALRM, on_alarm)
    limit = getattr(mod, "CASE_LIMIT", 30)

    def evaluate(case):
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            ps = mod.check(case) or []
        except Hang:
            return [f"hang: no result within {limit} s"]
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            own = [f for f in tb if "/bounded/" in f.filename]
            site = tb[-1]
            return [f"raises: {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(site.filename)}:{site.lineno}, called from {own[-1].lineno if own else '?'})"]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ps

    if o.replay:
        d = json.load(open(o.replay))
        case = d["problem"]["case"]
        if isinstance(case, str):
            case = eval(case, {"__builtins__": {}}, getattr(mod, "ENV", {}))
        ps = evaluate(case)
        print("case:", repr(case)[:3000])
        print("problems:", ps)
        sys.exit(1 if ps else 0)

    hints = {"ints": [], "strs": []}
    if o.hints:
        hints = json.load(open(o.hints))
    ci, cs = constants(getattr(mod, "FILES", []))
    K = {"ints": sorted(set(ci) | set(hints["ints"])), "strs": sorted(set(cs) | set(hints["strs"]))}
    rng = random.Random(o.seed * 7919 + (1 if o.tier == "quick" else 2))
    seen = set()
    sys.unraisablehook = lambda *_: None
    warnings.simplefilter("ignore")
    if o.out:
        sys.stdout = open(os.devnull, "w")
    gc.collect()
    gc.freeze()
    t0 = time.perf_counter()
    keys = set()
    save = lambda: json.dump(res, open(o.out + ".tmp", "w"), default=repr) or os.replace(o.out + ".tmp", o.out)
    gen = mod.cases(rng, "thorough" if (o.intense or o.tier == "thorough") else "quick", K)
    for case in gen:
        if time.perf_counter() - t0 > o.budget:
            break
        r = repr(case)
        res["evaluations"] += 1
        if r in seen:
            pass
        else:
            seen.add(r)
            res["distinct"] = len(seen)
            if len(res["samples"]) < 4 and len(r) < 600:
                res["samples"].append(r)
        for p in evaluate(case):
            key = p.split(":")[0]
            if key not in keys:
                keys.add(key)
                res["problems"].append({"key": key, "what": p[:1500], "case": r})
                if o.out:
                    save()
        if len(res["problems"]) >= 5:
            break
    else:
        res["exhausted"] = True
    res["wall"] = round(time.perf_counter() - t0, 2)
    if o.out:
        save()
    else:
        print(json.dumps(res, indent=1, default=repr)[:6000])


if __name__ == "__main__":
    main()
    # background threads of the code under contract must not keep the process
    sys.stdout.flush()
    os._exit(0)
