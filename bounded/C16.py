"""Random SELECT statements (WHERE, GROUP BY, HAVING, AS, DISTINCT, ORDER BY, LIMIT, sub-queries) over random records in a
memory store, against the same clauses applied in order to a list. Non-trivial when statement or records are distinct."""
import datetime

import rcommon

from mabel import SqlReader
from mabel.errors import DataNotFoundError

FILES = ["mabel/data/readers/internals/sql_reader.py", "mabel/data/internals/dictset.py"]
D = datetime.date(2021, 2, 3)
COLS = ["a", "b", "c"]
CONDS = [("a > 1", lambda r: r.get("a") is not None and r["a"] > 1), ("a = 1", lambda r: r.get("a") == 1), ("c = 'x'", lambda r: r.get("c") == "x"), ("b IS NULL", lambda r: r.get("b") is None),
         ("NOT a = 2", lambda r: r.get("a") != 2), ("a > 0 AND c = 'y'", lambda r: r.get("a") is not None and r["a"] > 0 and r.get("c") == "y"),
         ("a = 0 OR b = 3", lambda r: r.get("a") == 0 or r.get("b") == 3), ("c = 'order by z limit'", lambda r: r.get("c") == "order by z limit"), ("c LIKE 'x%'", lambda r: str(r.get("c")).startswith("x"))]


def cases(rng, tier, K):
    def recs():
        return [{k: v for k, v in {"a": rng.choice([0, 1, 2, 3]), "b": rng.choice([None, 1, 2, 3, 4.5]), "c": rng.choice(["x", "y", "xx", "order by z limit", "Ab"])}.items() if rng.random() < 0.95} for _ in range(rng.randrange(1, 14))]

    def kw(w):
        return rng.choice([w, w.lower()])

    def sp():
        return rng.choice([" ", " ", "\n", "  "])

    def query(depth):
        q = {"sub": query(depth - 1) if depth and rng.random() < 0.3 else None, "where": rng.choice([None, None] + list(range(len(CONDS)))), "group": None, "having": None, "distinct": False, "order": None, "limit": None}
        k = rng.random()
        if k < 0.35 and not q["sub"]:
            q["group"] = rng.choice([["a"], ["c"], ["a", "c"]])
            aggs = rng.sample([("COUNT", "*"), ("SUM", "b"), ("MIN", "b"), ("MAX", "b"), ("COUNT", "b"), ("AVG", "b"), ("MAX", "a")], rng.randrange(1, 4))
            cols = [(g, None) for g in q["group"] if rng.random() < 0.8] + [(x, rng.choice([None, None, f"n{i}", x[0].lower() + ("" if [a for a, _ in aggs].count(x[0]) == 1 else str(i))])) for i, x in enumerate(aggs)]
            q["cols"] = cols
            if rng.random() < 0.4 and ("COUNT", "*") in aggs:
                q["having"] = rng.randrange(0, 4)
            names = [n or (x if isinstance(x, str) else f"{x[0]}({x[1]})") for x, n in cols]
        elif k < 0.45:
            q["cols"] = [(("COUNT", "*"), rng.choice([None, "n", "count"]))]
            q["all"] = True
            names = []
        elif k < 0.6:
            q["cols"] = None
            names = COLS
        else:
            q["cols"] = [(c, rng.choice([None, None, None, f"r{i}"])) for i, c in enumerate(rng.sample(COLS, rng.randrange(1, 4)))]
            if rng.random() < 0.2:
                q["cols"].append((("UPPER", "c"), rng.choice([None, "u", "upper"])))
            if rng.random() < 0.1:
                q["cols"].append((q["cols"][0][0], "again"))
            if rng.random() < 0.25:
                q["cols"] = rng.choice([[("a", "b"), ("b", "a")], [("b", "a"), ("a", "b"), ("c", None)], [("a", "b"), ("c", None)], [("b", "a"), ("a", "b"), ("a", "again")], [("a", "b"), ("b", "n")]])
            names = [n or x for x, n in q["cols"] if isinstance(x, str)]
            q["distinct"] = rng.random() < 0.3
        if names and rng.random() < 0.45:
            q["order"] = [rng.choice([n for n in names]), rng.choice([None, "ASC", "DESC"])]
        if rng.random() < 0.45:
            q["limit"] = rng.choice([0, 1, 2, 3, 5, 100] + [i for i in K["ints"] if 0 <= i < 50][:6])
        return q

    def text(q):
        def col(x, n):
            s = x if isinstance(x, str) else f"{x[0]}({x[1]})"
            return s + (f" {kw('AS')} {n}" if n else "")

        s = kw("SELECT") + sp() + (kw("DISTINCT") + " " if q["distinct"] else "") + ("*" if q["cols"] is None else ", ".join(col(*c) for c in q["cols"]))
        s += sp() + kw("FROM") + sp() + ("(" + text(q["sub"]) + ")" if q["sub"] else "lake.t")
        if q["where"] is not None:
            s += sp() + kw("WHERE") + " " + CONDS[q["where"]][0]
        if q["group"]:
            s += sp() + kw("GROUP BY") + " " + ", ".join(q["group"])
        if q["having"] is not None:
            s += sp() + kw("HAVING") + f" COUNT(*) > {q['having']}"
        if q["order"]:
            s += sp() + kw("ORDER BY") + " " + q["order"][0] + (" " + q["order"][1] if q["order"][1] else "")
        if q["limit"] is not None:
            s += sp() + kw("LIMIT") + f" {q['limit']}"
        return s

    for n in (0, 1, 10000, 10001):
        yield {"sql": f"SELECT a FROM lake.t ORDER BY a{' LIMIT %d' % n if n < 10000 else ''}", "q": {"sub": None, "where": None, "group": None, "having": None, "distinct": False, "order": ["a", None], "limit": n if n < 10000 else None, "cols": [("a", None)]}, "n": n + 3}
    for bad in ["SELECT * FROM lake.t WHERE", "SELECT FROM lake.t LIMIT x", "a b c", "SELECT * lake.t", "FROM lake.t", "SELECT a, b FROM lake.t GROUP BY a", "SELECT * FROM lake.t LIMIT 1 1", "SELECT * FROM (SELECT * FROM lake.t", "SELECT * FROM lake.t ) ", "SELECT *"]:
        yield {"bad": bad}
    N = 2500 if tier == "quick" else 20000
    for _ in range(N):
        q = query(2)
        yield {"sql": text(q), "q": q, "recs": recs()}


def run(q, rows):
    rows = run(q["sub"], rows) if q["sub"] else [dict(r) for r in rows]
    if q["where"] is not None:
        rows = [r for r in rows if CONDS[q["where"]][1](r)]
    name = lambda x, n: n or (x if isinstance(x, str) else f"{x[0]}({x[1]})")
    if q["group"] or q.get("all"):
        groups = {}
        for r in rows:
            key = tuple(str(r.get(g, "")) if all(x in r for x in q["group"]) else f"{r.get(g, '')}" for g in q["group"]) if q["group"] else ()
            groups.setdefault(key, []).append(r)
        out = []
        for key, rs in groups.items():
            o = {g: rs[0].get(g) for g in (q["group"] or [])}
            for x, n in q["cols"]:
                if isinstance(x, str):
                    continue
                vs = [r[x[1]] for r in rs if r.get(x[1]) is not None] if x[1] != "*" else rs
                o[f"{x[0]}({x[1]})"] = len(vs) if x[0] == "COUNT" else None if not vs else {"SUM": lambda: sum(vs), "MIN": lambda: min(vs), "MAX": lambda: max(vs), "AVG": lambda: sum(vs) / len(vs)}[x[0]]()
            out.append(o)
        rows = out
        if q["having"] is not None:
            rows = [r for r in rows if r["COUNT(*)"] > q["having"]]
        rows = [{name(x, n): r.get(x if isinstance(x, str) else f"{x[0]}({x[1]})") for x, n in q["cols"]} for r in rows]
    elif q["cols"] is not None:
        rows = [{name(x, n): (r.get(x) if isinstance(x, str) else str(r.get("c")).upper()) for x, n in q["cols"]} for r in rows]
    if q["distinct"]:
        seen, out = [], []
        for r in rows:
            k = sorted((a, repr(b)) for a, b in r.items())
            if k not in seen:
                seen.append(k)
                out.append(r)
        rows = out
    if q["order"]:
        c = q["order"][0]
        rows = sorted(rows, key=lambda r: (r.get(c) is not None, r.get(c) if r.get(c) is not None else 0), reverse=q["order"][1] == "DESC")[: 10000]
    if q["limit"] is not None:
        rows = rows[: q["limit"]]
    return rows


def canon(r):
    return tuple(sorted((k, "None" if v is None else f"{float(v):.9g}" if not isinstance(v, (str, bool)) else repr(v)) for k, v in r.items()))


def check(case):
    if "bad" in case:
        Mem, looked, _ = rcommon.store({"lake/t/x.jsonl": b'{"a":1}\n'})
        try:
            got = list(SqlReader(case["bad"], inner_reader=Mem, partitions=None, start_date=D, end_date=D))
        except BaseException as e:
            if type(e).__name__ == "Hang":
                return [f"hang: {case['bad']!r}"]
            return []
        return [] if case["bad"].endswith("WHERE") else [f"accepted: {case['bad']!r} gives {got}"]
    q = case["q"]
    recs = case.get("recs") or [{"a": (i * 7919) % 10007} for i in range(case["n"])]
    Mem, _, _ = rcommon.store({"lake/t/x.jsonl": rcommon.encode("jsonl", recs)})
    got = [dict(r) for r in SqlReader(case["sql"], inner_reader=Mem, partitions=None, start_date=D, end_date=D)]
    want = run(q, recs)
    g, w = [canon(r) for r in got], [canon(r) for r in want]
    grouped = lambda q: q and (q["group"] or grouped(q["sub"]))
    if grouped(q):
        # the order of groups is free: compare the ordering column and, when nothing is cut, the rows
        cut = lambda q: q and (q["limit"] is not None or cut(q["sub"]))
        if cut(q["sub"]):
            return []
        if len(g) != len(w) or (not cut(q) and sorted(g) != sorted(w)):
            return [f"groups: {case['sql']!r} over {recs} gives {got}, should be {want}"]
        if q["order"] and not (q["sub"] and cut(q["sub"])):
            c = q["order"][0]
            if [str(r.get(c)) for r in got] != [str(r.get(c)) for r in want] and [float(r.get(c) or 0) if not isinstance(r.get(c), str) else r.get(c) for r in got] != [float(r.get(c) or 0) if not isinstance(r.get(c), str) else r.get(c) for r in want]:
                return [f"order: {case['sql']!r} over {recs} gives {got}, should be {want}"]
        return []
    if g != w:
        return [f"rows: {case['sql']!r} over {recs[:14]} gives {got[:14]}, should be {want[:14]}"]
    return []
