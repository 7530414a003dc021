"""Random select expressions (fields, quoted and numeric literals, * and function calls nested up to four deep, AS names for
calls) over random records, against direct application of the function table; every record is evaluated after different
earlier records and by a fresh evaluator. Non-trivial when expression or records are distinct."""
import copy
import datetime
import json

import rcommon

from mabel.data import Reader
from mabel.data.readers.internals.inline_evaluator import Evaluator
from mabel.data.readers.internals.inline_functions import FUNCTIONS

FILES = ["mabel/data/readers/internals/inline_evaluator.py"]
D = datetime.date(2021, 2, 3)
FIELDS = ["a", "b", "c_1", "x.y", "when", "f-2"]
VALUES = ["", "abc", "é", "a,b", "x y", "(", 0, 1, 2.5, -3, None, True, "2021-03-04", "AS", "'", [1, 2], {"k": 1}]
LITS = [("1", 1), ("-2", -2), ("2.5", 2.5), ("'x'", "x"), ("'a, b'", "a, b"), ("'x (y)'", "x (y)"), ('"as"', "as"), ("'2021-03-04'", datetime.datetime(2021, 3, 4)), ("TRUE", True), ("false", False), ("NULL", None), ("''", "")]
SAFE = [("UPPER", 1), ("LOWER", 1), ("TRIM", 1), ("CONCAT", 2), ("CONCAT", 3), ("STRING", 1), ("BOOLEAN", 1), ("ISNONE", 1), ("HASH", 1), ("MD5", 1), ("LCASE", 1), ("YEAR", 1), ("MONTH", 1), ("DAY", 1), ("LEFT", "n"), ("RIGHT", "n"), ("MID", "nn")]


def cases(rng, tier, K):
    def term(d):
        k = rng.random()
        if d > 0 and k < 0.5:
            f, n = rng.choice(SAFE)
            args = [term(d - 1) for _ in range(n)] if isinstance(n, int) else [term(d - 1)] + [(str(i), ("lit", i, str(i))) for i in [rng.randrange(1, 4) for _ in n]]
            return rng.choice([f, f.lower()]) + rng.choice(["(", " ("]) + rng.choice([", ", ","]).join(t for t, _ in args) + ")", ("call", f, [a for _, a in args])
        if k < 0.8:
            f = rng.choice(FIELDS)
            return f, ("field", f)
        t, v = rng.choice(LITS)
        return t, ("lit", v, t)

    def rec():
        return {f: rng.choice(VALUES) for f in FIELDS if rng.random() < 0.8}

    N = 6000 if tier == "quick" else 60000
    for i in range(N):
        parts, exprs, star = [], [], False
        for j in range(rng.randrange(1, 5)):
            if rng.random() < 0.1:
                parts.append("*")
                star = True
                continue
            t, e = term(rng.choice([0, 1, 2, 4]))
            if e[0] == "call" and rng.random() < 0.5:
                name = f"n{j}"
                t += rng.choice([" AS ", " as "]) + name
            else:
                name = None
            parts.append(t)
            exprs.append((name, e))
        yield {"sel": rng.choice([", ", ",", " , "]).join(parts), "exprs": exprs, "star": star, "recs": [rec() for _ in range(rng.randrange(1, 5))], "read": i % 5 == 0}


def value(e, r):
    if e[0] == "field":
        return r.get(e[1])
    if e[0] == "lit":
        return e[1]
    return FUNCTIONS[e[1]](*[value(a, r) for a in e[2]])


def label(e):
    """a call without an AS is named as it is written, its functions in upper case, without spaces"""
    return e[-1] if e[0] in ("field", "lit") else f"{e[1]}({','.join(label(a) for a in e[2])})"


def same(x, y):
    return x == y and type(x) is type(y) or (x != x and y != y)


def check(case):
    out = []
    ev = Evaluator(case["sel"])
    recs = case["recs"]
    for n, r in enumerate(recs + recs[::-1] + recs):
        x = copy.deepcopy(r)
        try:
            want = [value(e, r) for _, e in case["exprs"]]
        except Exception:
            continue
        got = ev(x)
        if x != r:
            out.append(f"changed: {r!r} became {x!r}")
        fresh = Evaluator(case["sel"])(copy.deepcopy(r))
        if list(got.items()) != list(fresh.items()) and repr(got) != repr(fresh):
            out.append(f"history: {case['sel']!r} on {r!r} gives {got!r}, on its own {fresh!r}")
        cols = {k: v for k, v in got.items() if k != "*"}
        names = set()
        for (name, e), w in zip(case["exprs"], want):
            if name is not None:
                ks = [name]
            elif e[0] == "field":
                ks = [e[1]]
            elif e[0] == "call":
                ks = [label(e)]
            else:
                ks = [k for k in cols]
            names.update(ks if e[0] != "lit" else [])
            if not any(k in cols and same(cols[k], w) for k in ks):
                out.append(f"value: {case['sel']!r} on {r!r} gives {got!r}, {name or e} should be {w!r}")
        if case["star"]:
            for k, v in r.items():
                if k not in cols or (k not in names and not same(cols[k], v)):
                    out.append(f"star: {case['sel']!r} loses {k!r} of {r!r}: {got!r}")
        elif len(cols) > len(case["exprs"]):
            out.append(f"extra: {case['sel']!r} gives {got!r}")
        if out:
            return out
    if case["read"] and not any(isinstance(v, datetime.datetime) for v in []):
        Mem, _, _ = rcommon.store({"p/a.jsonl": rcommon.encode("jsonl", recs)})
        try:
            want = [Evaluator(case["sel"])(copy.deepcopy(r)) for r in recs]
        except Exception:
            return out
        if case["sel"].strip() == "*":
            want = recs
        got = list(Reader(dataset="p", partitions=None, inner_reader=Mem, start_date=D, end_date=D, select=case["sel"]))
        if repr(got) != repr(want):
            out.append(f"reader: select {case['sel']!r} reads {got!r}, should be {want!r}")
    return out
