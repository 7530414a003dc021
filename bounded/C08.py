"""Generated partition trees (hours, alternative 'by' folders, frames with completion and ignore markers, names sharing
prefixes, BACKOUT data, filters) listed by a real reader over a store in memory; the result is compared with an own
reading of the rules. Non-trivial when the tree or filter is distinct."""
import datetime
import re

import rcommon

FILES = ["mabel/data/readers/internals/base_inner_reader.py"]
D = datetime.datetime(2021, 2, 3, 0)
ROOT = "lake/s/year_2021/month_02/day_03"


def cases(rng, tier, K):
    fixed = [
        ["as_at_1/a.jsonl", "as_at_1/frame.complete", "as_at_10/a.jsonl"],
        ["as_at_1/a.jsonl", "as_at_1/frame.complete", "as_at_1/frame.ignore"],
        ["as_at_2/a.jsonl", "as_at_1/b.jsonl", "as_at_1/frame.complete", "c.jsonl"],
        ["a.jsonl", "b.jsonl", "BACKOUT/c.jsonl"], [], ["as_at_1/frame.complete"],
        ["by_u/u=1/as_at_1/a.jsonl", "by_u/u=1/as_at_1/frame.complete", "by_u/u=10/as_at_2/a.jsonl", "by_u/u=10/as_at_2/frame.complete"],
        ["by_u/u=1/a.jsonl", "by_v/v=1/a.jsonl", "by_u/u=2/b.jsonl"],
        ["by_ab/ab=1/a.jsonl", "by_a/a=1/b.jsonl"], ["x/y/a.jsonl", "as_at_3/x/y.jsonl", "as_at_3/frame.complete"],
    ]
    for f in fixed:
        yield {"blobs": f, "filter": None, "days": 1}
        yield {"blobs": f, "filter": ["u", "=", "1"], "days": 1}
        yield {"blobs": f, "filter": ["a", "==", "1"], "days": 2}
    N = 9000 if tier == "quick" else 80000
    for _ in range(N):
        frames = rng.choice([["as_at_1", "as_at_10", "as_at_2"], ["as_at_20210203-000000", "as_at_20210203-000001", "as_at_20210203-000010"]])
        bys = rng.choice([[None], [None], ["by_u"], ["by_u", "by_v"], ["by_u", "by_uv"], ["by_hour"], [None, "by_u"]])
        blobs = set()
        for by in bys:
            subs = [""] if by is None else [f"{by[3:]}={x}" for x in rng.sample(["1", "10", "2", "a", "ab"], rng.randrange(1, 4))]
            for s in subs:
                pre = "/".join(x for x in [by, s] if x)
                pre = pre + "/" if pre else ""
                kind = rng.random()
                if kind < 0.25:
                    for i in range(rng.randrange(0, 3)):
                        blobs.add(pre + rng.choice(["a.jsonl", "b.parquet", "as.jsonl", "sub/c.jsonl", "a.complete.jsonl", "complete.jsonl", "frame.jsonl", "ignore.jsonl", "_x.jsonl", "_t/a.jsonl"]))
                else:
                    for f in rng.sample(frames, rng.randrange(1, 4)):
                        for i in range(rng.randrange(0, 3)):
                            blobs.add(pre + f + "/" + rng.choice(["a.jsonl", "b.parquet", "c.jsonl", "d/e.jsonl", "complete.jsonl", "frame.jsonl", "ignore.jsonl", "_x.jsonl", "_t/a.jsonl", ".a.jsonl", "A.JSONL"]))
                        if rng.random() < 0.65:
                            blobs.add(pre + f + "/frame.complete")
                        if rng.random() < 0.25:
                            blobs.add(pre + f + "/frame.ignore")
                    if rng.random() < 0.2:
                        blobs.add(pre + "loose.jsonl")
                if rng.random() < 0.15:
                    blobs.add(pre + "BACKOUT/z.jsonl")
                if by and rng.random() < 0.05:
                    # a folder whose name ends as another's
                    blobs |= {f"{by}/x{s}/as_at_10/q.jsonl", f"{by}/x{s}/as_at_10/frame.complete"}
        blobs = sorted(blobs)
        rng.shuffle(blobs)
        yield {"blobs": blobs, "filter": rng.choice([None, None, ["u", "=", rng.choice(["1", "10", "a"])], ["uv", "==", "1"], ["zz", "=", "1"], ["u", "=", "1/../.."]]), "days": rng.choice([1, 1, 2])}


def chosen(blobs, by):
    """the blobs of a partition folder when the partitioning `by` is read"""
    groups = {}
    for b in blobs:
        parts = b.split("/")
        groups.setdefault(parts[parts.index(by) + 1] if by else "", []).append(b)
    res = []
    for g in groups.values():
        frame = lambda b: next((p for p in b.split("/") if p.startswith("as_at_")), None)
        frames = {frame(b) for b in g} - {None}
        if not frames:
            res += g
            continue
        stem = lambda b: b[: b.index("/" + frame(b) + "/")] if frame(b) else None
        good = [f for f in frames if any(b.endswith(f"/{f}/frame.complete") for b in g) and not any(b.endswith(f"/{f}/frame.ignore") for b in g)]
        if good:
            res += [b for b in g if f"/{max(good)}/" in b and not b.endswith("/frame.complete")]
    return sorted(res)


def allowed(blobs, flt):
    blobs = [b for b in blobs if "BACKOUT" not in b]
    bys = sorted({p for b in blobs for p in b.split("/")[:-1] if p.startswith("by_")})
    if flt:
        clean = lambda s: "".join(c for c in s if c.isascii() and (c.isalnum() or c.isspace()))
        by = "by_" + clean(flt[0])
        if by in bys:
            return [chosen([b for b in blobs if f"/{by}/{clean(flt[0])}={clean(flt[2])}/" in b], by)]
    if not bys:
        return [chosen(blobs, None)]
    return [chosen([b for b in blobs if f"/{by}/" in b], by) for by in bys]


def check(case):
    day = lambda n: f"lake/s/year_2021/month_02/day_{n:02d}/"
    all_blobs = [day(3 + i) + b for i in range(case["days"]) for b in case["blobs"]] + ["lake/s/year_2021/month_02/day_030/x.jsonl", "lake/t/year_2021/month_02/day_03/x.jsonl"]
    Mem, looked, _ = rcommon.store({b: b"" for b in all_blobs})
    r = Mem(dataset="lake/s", partitions=["year_{yyyy}/month_{mm}/day_{dd}"], partition_filter=tuple(case["filter"]) if case["filter"] else None,
            start_date=D, end_date=D + datetime.timedelta(days=case["days"] - 1, hours=5))
    got = r.get_list_of_blobs()
    out = []
    if len(set(got)) != len(got):
        out.append(f"twice: {sorted(b for b in got if got.count(b) > 1)[:4]} listed more than once")
    for i in range(case["days"]):
        part = sorted(b for b in got if b.startswith(day(3 + i)))
        opts = allowed([b for b in all_blobs if b.startswith(day(3 + i))], case["filter"])
        if part not in opts:
            out.append(f"frames: reads {[b[len(day(3)):] for b in part]}, should be one of {[[b[len(day(3)):] for b in o] for o in opts]}")
    if any(not b.startswith(tuple(day(3 + i) for i in range(case["days"]))) for b in got):
        out.append(f"elsewhere: {got}")
    if sorted(got) != got:
        out.append(f"order: blobs are not in a consistent order: {got}")
    return out
