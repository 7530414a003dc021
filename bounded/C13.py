"""Random tuple filters (single tuple, list of tuples, lists of lists, nested, empty) over every operator and over records with
missing, None and typed values, evaluated by an own reading of the normal form; applied to a data set and to a read.
Non-trivial when filter or records are distinct."""
import datetime
import re

import rcommon

from mabel.data import DictSet, Reader
from mabel.data.internals.dnf_filters import DnfFilters
from mabel.errors import DataNotFoundError

FILES = ["mabel/data/internals/dnf_filters.py", "mabel/data/internals/dictset.py", "mabel/data/readers/internals/parallel_reader.py"]
D = datetime.date(2021, 2, 3)


def like(v, p):
    rx = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in p)
    return re.fullmatch(rx, str(v), re.I | re.S) is not None


OPS = {
    "=": lambda x, y: x == y, "==": lambda x, y: x == y, "is": lambda x, y: x == y, "!=": lambda x, y: x != y, "<>": lambda x, y: x != y,
    "<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y, "like": like,
    "in": lambda x, y: x in y, "!in": lambda x, y: x not in y, "not in": lambda x, y: x not in y,
    "contains": lambda x, y: y in x, "!contains": lambda x, y: y not in x,
    "matches": lambda x, y: re.search(y, x) is not None, "~": lambda x, y: re.search(y, x) is not None,
}
# values by type of field: n numbers, s text, l lists, b truth values
VALS = {"n": [0, 1, 2, -1, 1.5, 2.0, 10], "s": ["", "a", "b", "ab", "A", "a\nb", "%"], "l": [[], [1], [1, 2], ["a"]], "b": [True, False]}


def cases(rng, tier, K):
    def tup():
        f = rng.choice("nnssslb")
        v = rng.choice(VALS[f])
        if f in "ns":
            op = rng.choice(["=", "==", "is", "!=", "<>", "<", ">", "<=", ">=", "in", "!in", "not in", "like", "contains"])
        else:
            op = rng.choice(["=", "!=", "<>", "in", "!in"] + (["contains", "!contains"] if f == "l" else []))
        if op in ("in", "!in", "not in"):
            v = rng.choice([list, tuple])(rng.choice(VALS[f]) for _ in range(rng.randrange(0, 4)))
        if op == "like":
            v = rng.choice(["a%", "_", "%b", "", "%", "1%", "A", "a_b"])
        if op in ("contains", "!contains"):
            if f == "n":
                op, v = "<", 1
            elif f == "l":
                v = rng.choice([1, 2, "a", 5])
        if f == "s" and rng.random() < 0.1:
            op, v = rng.choice(["matches", "~"]), rng.choice(["a", "^a$", "b$", "."])
        op = rng.choice([op, op.upper(), op.title()])
        return (f if rng.random() < 0.93 else "zz", op, v)

    def filt(depth=0):
        k = rng.random()
        if k < 0.15 and depth == 0:
            return tup()
        if k < 0.55:
            return [tup() for _ in range(rng.randrange(0 if depth else 0, 4))]
        return [[tup() for _ in range(rng.randrange(0, 3))] if depth or rng.random() < 0.8 else filt(1) for _ in range(rng.randrange(1, 4))]

    def recs():
        out = []
        for i in range(rng.randrange(0, 8)):
            r = {"i": i}
            for f in "nslb":
                z = rng.random()
                if z < 0.7:
                    r[f] = rng.choice(VALS[f])
                elif z < 0.85:
                    r[f] = None
            out.append(r)
        return out

    yield {"flt": None, "recs": [{"i": 0}]}
    N = 9000 if tier == "quick" else 60000
    for _ in range(N):
        yield {"flt": filt(), "recs": recs()}


def holds(p, r):
    if p is None:
        return True
    if isinstance(p, tuple):
        k, op, v = p
        x = r.get(k)
        return x is not None and bool(OPS[op.lower()](x, v))
    if all(isinstance(q, tuple) for q in p):
        return all([holds(q, r) for q in p])
    return any([holds(q, r) for q in p])


def check(case):
    flt, recs = case["flt"], case["recs"]
    want = [r for r in recs if holds(flt, r)]
    copy = [dict(r) for r in recs]
    out = []
    got = list(DnfFilters(flt).filter_dictset(iter(recs)))
    if got != want:
        out.append(f"filter: {flt!r} keeps {[r['i'] for r in got]}, should keep {[r['i'] for r in want]} of {recs!r}"[:900])
    if recs != copy:
        out.append("changed: the records were changed")
    if flt is not None:
        got = list(DictSet(list(recs)).filter(flt))
        if got != want:
            out.append(f"dictset: {flt!r} keeps {[r['i'] for r in got]}, should keep {[r['i'] for r in want]}")
        if recs:
            Mem, _, _ = rcommon.store({"p/a.jsonl": rcommon.encode("jsonl", recs)})
            got = list(Reader(dataset="p", partitions=None, inner_reader=Mem, start_date=D, end_date=D, filters=flt))
            if got != want:
                out.append(f"reader: {flt!r} keeps {[r['i'] for r in got]}, should keep {[r['i'] for r in want]}")
    return out
