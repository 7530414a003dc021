"""Random records grouped by one to three columns with one to four aggregates, in every order of the records, against a direct
grouping of the list. Non-trivial when records or aggregates are distinct."""
import decimal
import logging

from mabel.data import DictSet

logging.disable(logging.CRITICAL)
FILES = ["mabel/data/internals/group_by.py"]
AGGS = ["SUM", "MAX", "MIN", "COUNT", "AVG"]


def cases(rng, tier, K):
    n = 0
    while n < (6000 if tier == "quick" else 25000):
        n += 1
        names = ["a", "b", "c"]
        txt = rng.choice([["x", "y"], ["", "None", None], ["1", 1, True, "True"], ["a, b", "a", "b", "', '"], [0, "0", 0.0], ["x', 'y", "x", "y"]])
        rs = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 17])):
            r = {"a": rng.choice(txt), "b": rng.choice(txt), "c": rng.choice([1, 2]), "v": rng.choice([None, 0, 0, 1, -1, 2, 7, 10**18]), "w": rng.choice([0, 5, -5, None, 0.5, 0.25]), "t": rng.choice(["p", "q", None, ""])}
            rs.append({k: v for k, v in r.items() if rng.random() < 0.93})
        cols = rng.choice([["a"], ["a", "b"], ["b", "a"], ["a", "b", "c"], "a", ("c",)])
        aggs = []
        for _ in range(rng.randrange(1, 5)):
            f = rng.choice(AGGS)
            aggs.append((f, rng.choice(["v", "w", "v", "*"] if f == "COUNT" else ["v", "w", "t"] if f in ("MIN", "MAX") else ["v", "w"])))
        how = rng.choice(["aggregate"] * 6 + ["method", "groups"])
        yield (rs, cols, aggs, how, rng.randrange(1 << 30))


def ref(rs, cols, aggs):
    groups = {}
    for r in rs:
        k = tuple(str(r[c]) if c in r else "" for c in cols)
        groups.setdefault(k, []).append(r)
    out = {}
    for k, g in groups.items():
        row = {}
        for f, c in aggs:
            vals = ["*" for _ in g] if c == "*" else [r[c] for r in g if r.get(c) is not None]
            if f == "COUNT":
                v = len(vals)
            elif not vals:
                v = None
            elif f == "MIN":
                v = sorted(vals)[0]
            elif f == "MAX":
                v = sorted(vals)[-1]
            else:
                v = sum(decimal.Decimal(x) for x in vals)
                if f == "AVG":
                    v = v / len(vals)
            row[f"{f}({c})"] = v
        out[k] = row
    return groups, out


def key(row, cols):
    return tuple("" if c not in row else str(row[c]) for c in cols)


def check(case):
    rs, cols, aggs, how, seed = case
    clist = [cols] if isinstance(cols, str) else list(cols)
    groups, want = ref(rs, clist, aggs)
    probs = []

    def run(records):
        g = DictSet([dict(r) for r in records]).group_by(cols)
        if how == "groups":
            return list(g.groups())
        if how == "method":
            f, c = aggs[0]
            if f == "COUNT":
                return list(g.count())
            return list({"SUM": g.sum, "MAX": g.max, "MIN": g.min, "AVG": g.average}[f](c))
        return list(g.aggregate(list(aggs)))

    asked = aggs
    if how == "method":
        asked = [("COUNT", "*")] if aggs[0][0] == "COUNT" else aggs[:1]
        groups, want = ref(rs, clist, asked)
    elif how == "groups":
        asked = []

    def same_value(f, a, b):
        if b is None or a is None:
            return a is None and b is None
        if f == "AVG":
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
        return a == b

    def stands(row, k):
        return any(all(repr(r.get(c)) == repr(row.get(c)) for c in clist) for r in groups[k])

    def holds(row, k):
        return all(same_value(f, row.get(f"{f}({c})"), want[k][f"{f}({c})"]) for f, c in asked)

    def judge(rows, what):
        for row in rows:
            extra = set(row) ^ (set(clist) | {f"{f}({c})" for f, c in asked})
            if extra:
                return f"columns: {what} row {row} lacks or adds {extra}"
            ks = [k for k in groups if stands(row, k)]
            if not ks:
                return f"group: {what} a row for no group {row}"
            if not any(holds(row, k) for k in ks):
                bad = next(f for f, c in asked if not all(same_value(f, row[f"{f}({c})"], want[k][f"{f}({c})"]) for k in ks)) if len(ks) == 1 else "value"
                return f"{bad}: {what} row {row} is not that of the group: {want[ks[0]]}"
        # one row for each group: a perfect matching
        taken = {}

        def place(i, seen):
            for k in groups:
                if k not in seen and stands(rows[i], k) and holds(rows[i], k):
                    seen.add(k)
                    if k not in taken or place(taken[k], seen):
                        taken[k] = i
                        return True
            return False

        for i in range(len(rows)):
            if not place(i, set()):
                return f"group: {what} more than one row for a group: {rows}"
        if len(rows) != len(groups):
            return f"group: {what} {len(rows)} rows for {len(groups)} groups"

    import random

    shuffled = list(rs)
    random.Random(seed).shuffle(shuffled)
    for r, what in ((rs, "in order,"), (rs[::-1], "reversed,"), (shuffled, "shuffled,")):
        p = judge(run(r), what)
        if p:
            probs.append(p)
            break
    return probs
