"""Writes MANIFEST.json from the contracts and executable contracts that exist."""
import json
import os

PY = "/opt/veriftools/pyvenv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C26": "the property is over schedules of several processes joined by queues; contracts on single-threaded Python functions cannot state it, and the code path is one the reader only takes for conditions (multiprocess with more than one blob, spawned interpreters) that no deductive verifier here can reach",
    "C27": "the adapters hand every byte to cloud client libraries which are not installed and would have to be assumed in full, so nothing of the property would be left to prove",
}
# property -> functions proved / what stays with the bounded stand-in
NOTES = json.load(open(os.path.join(HERE, "notes.json")))


def main():
    base = json.load(open(os.path.join(HERE, "contracts", "baseline.json")))
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
            continue
        n = len(base.get(p, {}))
        bounded = os.path.exists(os.path.join(HERE, "bounded", p + ".py"))
        if not n and not bounded:
            na.append({"property": p, "reason": "no check built yet"})
            continue
        note = NOTES.get(p, {})
        if n:
            tech = "contract-based deductive verification (symbolic execution of the source to proof obligations, z3), executable contracts as labelled bounded stand-in and replay"
            level = note.get("level", "proof")
            text = f"{n} obligations discharged for all inputs: {note.get('proved', '')} Bounded stand-in only: {note.get('bounded', 'the composition of these functions')} Trusts: pyvc, z3, the library models and callee contracts named in the evidence file."
        else:
            tech = "executable contracts evaluated on the real code (bounded stand-in; no obligation within the verifier's reach yet)"
            level = "exploration"
            text = "bounded stand-in for the contract, generated inputs, nothing is proved: " + note.get("bounded", "")
        checks.append({"property": p, "quick_cmd": f"{PY} check.py {p}", "thorough_cmd": f"{PY} check.py {p} --thorough", "technique": tech, "level": level, "level_note": text})
    m = {"version": 1, "setup_cmd": f"{PY} -m compileall -q pyvc contracts bounded check.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. properties.jsonl states the properties, DESIGN.md how each is decided, known_findings.txt the defects repaired."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
