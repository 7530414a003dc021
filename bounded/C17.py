"""Random records (missing fields, None, repeated values) held as a list, a generator and in every storage class, the data set
operations against the same operations on the list. Non-trivial when operation, arguments or records are distinct."""
import logging

from mabel.data import DictSet, STORAGE_CLASS

logging.disable(logging.CRITICAL)
FILES = ["mabel/data/internals/dictset.py"]
COLS = ["a", "b", "c", "*"]


def cases(rng, tier, K):
    ints = [i for i in K["ints"] if 0 <= i <= 300]

    def recs(n):
        return [{k: v for k, v in {"a": rng.choice([0, 1, 2, 3, -1, 2.5]), "b": rng.choice([None, None, 1, 2, 3]), "c": rng.choice(["x", "y", "", "None", "*"]), "i": i}.items() if k == "i" or rng.random() < 0.8} for i in range(n)]

    ops = ["select", "filter", "take", "itake", "sort", "distinct", "collect", "keys", "reduce", "first", "chain", "collect_all"]
    n = 0
    while n < (12000 if tier == "quick" else 30000):
        n += 1
        op = ops[n % len(ops)]
        rs = recs(rng.choice([0, 1, 2, 3, 5, 9, 30] + ([120, 700] if n % 40 == 0 else [])))
        held = rng.choice(["list", "gen", "MEMORY", "DISK", "COMPRESSED_MEMORY"])
        if op == "select":
            arg = rng.choice([["a"], ["a", "b"], ["z", "c"], "a", ("c", "a"), "*", ["*"], ["a", "*"], [], ["i", "i"]])
        elif op == "filter":
            arg = rng.choice(["none", "all", "a>1", "b", "truthy"])
        elif op in ("take", "itake"):
            arg = rng.choice([0, 1, 2, len(rs), len(rs) + 1, max(len(rs) - 1, 0), rng.choice(ints or [1])])
        elif op == "sort":
            arg = (rng.choice(["a", "b", "i", "c", "zz"]), rng.choice([0, 1, 2, 3, 5, len(rs), 5000]), rng.random() < 0.5)
        elif op == "distinct":
            arg = rng.choice([(), ("a",), ("b",), ("a", "b"), ("b", "c"), ("zz",)])
            if not arg:
                rs = [{k: v for k, v in r.items() if k != "i"} for r in rs]
                rs = [dict(reversed(r.items())) if rng.random() < 0.3 else r for r in rs]
        elif op == "collect":
            arg = rng.choice(["a", "b", "c", "zz"])
        elif op == "keys":
            arg = rng.choice([None, 1, 2, 3, 100])
        elif op == "reduce":
            arg = (rng.choice(["min", "max", "sum", "min_max"]), rng.choice(["a", "i"]))
        elif op == "chain":
            arg = (rng.choice([1, 3, 5]), rng.choice(["a", "b"]), rng.random() < 0.5)
        else:
            arg = None
        yield (op, arg, held, rs)


PRED = {"none": lambda r: False, "all": lambda r: True, "a>1": lambda r: r.get("a", 0) > 1, "b": lambda r: r.get("b") is None, "truthy": lambda r: r.get("a")}


def order(rs, col, n, desc):
    missing = [r for r in rs if r.get(col) is None]
    there = [r for r in rs if r.get(col) is not None]
    out = []
    for r in there:  # stable insertion
        j = len(out)
        while j and (out[j - 1][col] < r[col] if desc else out[j - 1][col] > r[col]):
            j -= 1
        out.insert(j, r)
    return (out + missing if desc else missing + out)[:n]


def same(x):
    return repr([sorted(r.items(), key=lambda kv: kv[0]) if isinstance(r, dict) else r for r in x]) if isinstance(x, list) else repr(x)


def check(case):
    op, arg, held, rs = case
    rs = [dict(r) for r in rs]
    if held == "list":
        d = DictSet(rs)
    elif held == "gen":
        d = DictSet(r for r in rs)
    else:
        d = DictSet(iter(rs), storage_class=STORAGE_CLASS[held])
    if op == "select":
        got = list(d.select(arg))
        if arg == "*" or "*" in arg:
            want = rs if arg in ("*", ["*"]) else [{k: v for k, v in r.items() if k != "*"} for r in rs]
        else:
            want = [{k: r.get(k) for k in ([arg] if isinstance(arg, str) else arg)} for r in rs]
    elif op == "filter":
        got = list(d.filter(PRED[arg]))
        want = [r for r in rs if PRED[arg](r)]
    elif op == "take":
        got = list(d.take(arg))
        want = rs[:arg]
    elif op == "itake":
        got = list(d.itake(arg))
        want = rs[:arg]
    elif op == "sort":
        got = list(d.sort_and_take(arg[0], arg[1], arg[2]))
        want = order(rs, *arg)
    elif op == "distinct":
        got = list(d.distinct(*arg))
        seen, want = [], []
        for r in rs:
            k = sorted((c, repr(r[c])) for c in (arg or r) if c in r)
            if k not in seen:
                seen.append(k)
                want.append(r)
    elif op == "collect":
        got = d.collect_list(arg)
        want = [r[arg] for r in rs if arg in r]
    elif op == "collect_all":
        got = d.collect_list()
        want = rs
    elif op == "keys":
        got = d.keys(arg) if arg else d.keys()
        want = []
        for r in rs[:arg]:
            want += [k for k in r if k not in want]
    elif op == "reduce":
        vals = [r[arg[1]] for r in rs if arg[1] in r]
        if not vals and arg[0] != "sum":
            return []
        got = getattr(d, arg[0])(arg[1])
        lo = hi = vals[0] if vals else None
        tot = 0
        for v in vals:
            lo, hi, tot = (v if v < lo else lo), (v if v > hi else hi), tot + v
        want = {"min": lo, "max": hi, "sum": tot, "min_max": (lo, hi)}[arg[0]]
        return [] if got == want else [f"reduce: {arg} of a {held} data set gives {got}, not {want}"]
    elif op == "first":
        got = d.first()
        want = rs[0] if rs else None
    elif op == "chain":
        n, col, desc = arg
        got = list(DictSet(d.filter(PRED["all"]).select([col, "i"]).take(n * 3).sort_and_take(col, n, desc)).distinct(col))
        base = order([{col: r.get(col), "i": r["i"]} for r in rs[: n * 3]], col, n, desc)
        want, seen = [], []
        for r in base:
            if repr(r[col]) not in seen:
                seen.append(repr(r[col]))
                want.append(r)
    if same(got) != same(want):
        return [f"{op}: {op}({arg!r}) of a {held} data set gives {str(got)[:300]}, not {str(want)[:300]}"]
    return []
