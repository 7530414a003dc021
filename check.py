#!/usr/bin/env python3
"""check.py Cxx: decide one property on /repo's current source.

1. The deductive verifier (pyvc) generates the proof obligations of the property's
   contracts (contracts/Cxx.py) from the source and discharges them with z3.
2. The executable form of the contract (bounded/Cxx.py) is evaluated on the real code;
   it replays counter-models and stands in where an obligation is undecided.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY_VT = "/opt/veriftools/pyvenv/bin/python"
PY_APP = "/opt/venv/bin/python"
REPO = os.environ.get("PYVC_REPO", "/repo")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    from pyvc import runner

    results = runner.run(prop, seed=seed)
    obligations = [dict(o, spec=r["spec"]) for r in results for o in r["obligations"]]
    discharged = [o for o in obligations if o["status"] == "discharged"]
    refuted = [o for o in obligations if o["status"] == "refuted"]
    undecided = [o for o in obligations if o["status"] in ("unknown", "vacuous")]
    errors = [f"{r['spec']}: {r['error']}" for r in results if r.get("error")]
    base = {}
    try:
        with open(os.path.join(HERE, "contracts", "baseline.json")) as f:
            base = json.load(f).get(prop, {})
    except FileNotFoundError:
        pass
    lost = sorted(set(base) - {f"{o['spec']}/{o['name']}" for o in discharged})

    # executable contract on the real code
    hints = {"ints": sorted({i for o in refuted for i in o["ints"]})[:60],
             "strs": sorted({s for o in refuted for s in o["strs"]})[:60]}
    intense = bool(refuted or lost or errors)
    work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    bnd = {"evaluations": 0, "distinct": 0, "problems": [], "samples": [], "rule": "no executable contract", "missing": True}
    try:
        with open(os.path.join(work, "hints.json"), "w") as f:
            json.dump(hints, f)
        out = os.path.join(work, "out.json")
        budget = {"quick": 22, "thorough": 240}[tier]
        if intense and tier == "quick":
            budget = 60
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed % 1000))
        if os.path.exists(os.path.join(HERE, "bounded", prop + ".py")):
            cmd = [PY_APP, os.path.join(HERE, "bounded", "run.py"), prop, "--tier", tier, "--seed", str(seed),
                   "--budget", str(budget), "--out", out, "--hints", os.path.join(work, "hints.json")]
            if intense:
                cmd.append("--intense")
            cwd = os.path.join(work, "cwd")
            os.mkdir(cwd)
            with open(os.path.join(work, "log"), "wb") as log:
                p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=log, stderr=log, start_new_session=True)
                try:
                    p.wait(budget + 150)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    p.wait()
            if os.path.exists(out):
                with open(out) as f:
                    bnd = json.load(f)
            else:
                with open(os.path.join(work, "log"), errors="replace") as f:
                    bnd["crash"] = f.read()[-3000:]
    finally:
        shutil.rmtree(work, ignore_errors=True)

    # known findings
    known = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=" + prop + " "):
                    key = line.split(" key=")[1].split(" ")[0]
                    known.append((key, line.split(" key=")[1].split(" ", 1)[1].strip()))
    except FileNotFoundError:
        pass
    fresh, listed = [], set()
    for pr in bnd["problems"]:
        k = [x for x in known if pr["key"] == x[0]]
        if k:
            listed.add(k[0])
        else:
            fresh.append(pr)
    for k, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")

    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    violations = 0
    rp = os.path.join(HERE, "replays", f"{prop}.json")
    if os.path.exists(rp):
        os.remove(rp)
    newly_refuted = [o for o in refuted if f"{o['spec']}/{o['name']}" in base]
    if fresh:
        violations = len(fresh)
        with open(rp, "w") as f:
            json.dump({"property": prop, "kind": "failing input", "problem": fresh[0], "all": fresh[:10],
                       "failed_obligations": [{k: o[k] for k in ("spec", "name", "status", "detail", "model")} for o in refuted + undecided],
                       "lost_obligations": lost, "verifier_errors": errors,
                       "replay_cmd": f"cd /tmp && PYTHONPATH={REPO} {PY_APP} {HERE}/bounded/run.py {prop} --replay {rp}"}, f, indent=1)
        for pr in fresh[:5]:
            print(f"{prop}: {pr['key']}: {pr['what'][:400]}")
        for o in refuted[:5]:
            print(f"{prop}: obligation {o['spec']}/{o['name']} {o['status']}")
        print(f"VIOLATION property={prop} replay={rp}")
    elif newly_refuted:
        violations = len(newly_refuted)
        with open(rp, "w") as f:
            json.dump({"property": prop, "kind": "failed obligation",
                       "obligations": [{k: o[k] for k in ("spec", "name", "status", "detail", "model", "backend")} for o in newly_refuted],
                       "searched_inputs": bnd["evaluations"]}, f, indent=1)
        for o in newly_refuted[:5]:
            print(f"{prop}: obligation {o['spec']}/{o['name']} refuted: {o['detail'][:300]}")
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")

    functions = {}
    for r in results:
        for f, n in r["functions"].items():
            functions[f] = functions.get(f, 0) + n
    has_proof = bool(obligations)
    complete = has_proof and not refuted and not undecided and not errors and not lost
    assumptions = sorted({a for r in results for a in r["assumptions"]})
    assumptions += [
        "Python integers and floats are mathematical integers and reals; records are finite trees of JSON-like values",
        "built-ins and library functions behave as modelled in pyvc/models.py and the contract module",
        "logging calls have no effect; a generator runs when it is first consumed, in one go",
    ] if has_proof else []
    level = MANIFEST_LEVEL(prop)
    cov = {
        "obligations": len(obligations), "discharged": len(discharged),
        "checker_cmd": f"cd /verif && {PY_VT} -m pyvc.runner {prop}",
        "trusted_base": ["pyvc (VC generator)", "z3", "pyvc/models.py", f"contracts/{prop}.py (callee contracts and library models)"],
        "undecided_obligations": [f"{o['spec']}/{o['name']}: {o['status']}" for o in undecided + refuted],
        "undecided_specs": errors, "lost_since_baseline": lost,
        "functions_under_contract": sorted(functions),
        "obligations_by_back_end": {b: sum(1 for o in discharged if o["backend"] == b) for b in sorted({o["backend"] for o in discharged})},
        "solver_s": round(sum(r["solver_s"] for r in results), 2), "solver_queries": sum(r["queries"] for r in results),
        "paths": sum(r["paths"] for r in results),
        "samples": [{k: o[k] for k in ("spec", "name", "status", "backend", "secs", "paths")} for o in obligations[:40]] or bnd["samples"][:3],
        "bounded": {"evaluations": bnd["evaluations"], "distinct_nontrivial": bnd["distinct"], "rule": bnd["rule"],
                     "samples": bnd["samples"][:3], "crash": bnd.get("crash"), "exhausted": bnd.get("exhausted")},
        "evaluations": bnd["evaluations"], "distinct_nontrivial": bnd["distinct"], "rule": bnd["rule"],
        "loop_invariants": {k: v for r in results for k, v in r.get("loops", {}).items()},
        "explanation": "obligations discharged by the verifier are proofs; `bounded` counts executions of the contract on the real code and is never counted as proved"
        + ("" if complete else "; the undecided obligations and specs listed here were decided only by the bounded stand-in"),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {len(discharged)}/{len(obligations)} obligations discharged, {len(undecided)} undecided, "
          f"{len(refuted)} refuted, {len(errors)} specs out of reach; {bnd['evaluations']} executions of the contract; {ev['wall_s']} s")
    for e in errors:
        print("  ", e[:300])
    if bnd.get("crash"):
        print("   bounded run gave no result:", bnd["crash"][-600:])
    if "--update-baseline" in sys.argv and not violations:
        p = os.path.join(HERE, "contracts", "baseline.json")
        b = json.load(open(p)) if os.path.exists(p) else {}
        b[prop] = {f"{o['spec']}/{o['name']}": o["backend"] for o in discharged}
        json.dump(b, open(p, "w"), indent=1, sort_keys=True)
        p = os.path.join(HERE, "contracts", "unrolled.json")
        b = json.load(open(p)) if os.path.exists(p) else {}
        b[prop] = [r["spec"] for r in runner.run(prop, only_unrolled=True) if not r.get("unrolled")]
        json.dump(b, open(p, "w"), indent=1, sort_keys=True)
    if violations:
        return 1
    # neither a proof of everything nor a run of the executable contract: no answer
    return 2 if (bnd.get("crash") or bnd.get("missing")) and not complete else 0


def MANIFEST_LEVEL(prop):
    try:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                if c["property"] == prop:
                    return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "proof"


if __name__ == "__main__":
    if os.path.realpath(sys.executable) != os.path.realpath(PY_VT) and os.environ.get("_VT") != "1":
        os.environ["_VT"] = "1"
        os.execv(PY_VT, [PY_VT] + sys.argv)
    sys.exit(main())
