"""Datasets (nested, dotted, absolute, one component), partition patterns and dates (dates, date-times and ISO texts, years
below 1000) given to the real writers over a store in memory and to a reader recording the folder it looks in; template
substitution against an own tokeniser; blob paths split and rebuilt. Non-trivial when distinct."""
import datetime
import itertools
import os
import posixpath
import re

import rcommon
import wcommon
from rcommon import norm

from mabel.data import BatchWriter, StreamWriter
from mabel.data.writers.writer import Writer
from mabel.utils import paths

FILES = ["mabel/utils/paths.py", "mabel/data/writers/writer.py", "mabel/data/writers/batch_writer.py", "mabel/data/writers/internals/base_inner_writer.py",
         "mabel/data/readers/internals/base_inner_reader.py"]
DATASETS = ["lake/a", "lake", "lake/data.v1", "lake/x.y/z", "/abs/folder/set", "a/b/c/d/e", "lake/{yyyy}", "lake/day", "lake/yyyy-mm", "lake/a-b_c.d.e", "lake/mm/dd", "lake/{dd}{dd}", "lake/.h/x", "lake//d", ".lake/set"]
PARTS = [["year_{yyyy}/month_{mm}/day_{dd}"], None, ["{yyyy}", "{mm}", "{dd}"], ["{yyyy}{mm}{dd}", "hour={HH}"], ["by_hour/hour={HH}"], ["v.{dd}"], ["{yyyy}-{yyyy}", "{mm}{dd}"],
         ["{HH}{dd}"], ["y={yyyy}", "m={mm}"], ["{dd}/{mm}/{yyyy}"]]
DATES = [datetime.date(2021, 2, 3), datetime.datetime(1999, 12, 31, 23), datetime.datetime(2000, 1, 1, 0), datetime.date(2024, 2, 29), datetime.datetime(987, 10, 20, 9),
         "2021-11-05", "2021-01-02T03:00:00", datetime.datetime(2021, 10, 11, 12), datetime.datetime(2021, 6, 7, 8)]


def subst(t, d):
    v = {"yyyy": str(d.year), "mm": f"{d.month:02d}", "dd": f"{d.day:02d}", "HH": f"{getattr(d, 'hour', 0):02d}", "MM": f"{getattr(d, 'minute', 0):02d}", "SS": f"{getattr(d, 'second', 0):02d}"}
    return re.sub(r"\{(yyyy|mm|dd|HH|MM|SS)\}", lambda m: v[m.group(1)], t)


def cases(rng, tier, K):
    for ds, p, d in itertools.product(DATASETS, PARTS, DATES[: 4 if tier == "quick" else None]):
        yield {"ds": ds, "parts": p, "date": d}
    for ds, d in itertools.product(DATASETS, DATES):
        yield {"ds": ds, "parts": rng.choice(PARTS), "date": d}
    bits = ["{yyyy}", "{mm}", "{dd}", "{HH}", "{MM}", "{SS}", "{col}", "a", "/", "{", "}", "{{mm}}", "{MM", "é", ".", "-", "{yy}", "{YYYY}", "%Y"] + K["strs"]
    N = 3000 if tier == "quick" else 60000
    for i in range(N):
        d = datetime.datetime(rng.choice([1, 99, 999, 1000, 1970, 2021, 9999, rng.randrange(1, 10000)]), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(10**6))
        if i % 4 == 0:
            d = d.date()
        yield {"template": "".join(rng.choice(bits) for _ in range(rng.randrange(1, 9))), "date": d}
    names = ["a", "b.c", "x y", "year=1", "é", "as_at_1", "f-1", ".h", "a.b.c"]
    for i in range(N // 6):
        n = rng.randrange(1, 5)
        yield {"path": "/".join(rng.choice(names) for _ in range(n)), "stem": rng.choice(["s", "18e-f", "a.b", "frame"]), "ext": rng.choice([".jsonl", ".parquet", ".complete", ".x"])}
    for i in range(400 if tier == "quick" else 1500):
        ds = "/".join(rng.choice(["lake", "a", "b.c", "d_e", "{yyyy}", "x{mm}", ".h", "_t", "lake.", "a b"]) for _ in range(rng.randrange(1, 4)))
        yield {"ds": ds, "parts": rng.choice(PARTS), "date": datetime.datetime(rng.randrange(1971, 2100), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24))}


def check(case):
    out = []
    if "template" in case:
        got, want = paths.date_format(case["template"], case["date"]), subst(case["template"], case["date"])
        if got != want:
            out.append(f"date_format: {case['template']!r} at {case['date']} gives {got!r}, should be {want!r}")
        if case["template"].endswith("/") and "{stem}" not in want:
            g = paths.build_path(case["template"], case["date"])
            if g != want:
                out.append(f"build_path: {case['template']!r} at {case['date']} gives {g!r}, should be {want!r}")
        return out
    if "path" in case:
        p = case["path"] + "/" + case["stem"] + case["ext"]
        b, f, s, e = paths.get_parts(p)
        if norm(b + "/" + f + s + e) != p or "/" in s + e or "/" in b:
            out.append(f"get_parts: {p!r} is split into {(b, f, s, e)!r}")
        b, f, s, e = paths.get_parts(p + "/")
        return out
    ds, parts, date = case["ds"], case["parts"], case["date"]
    d = datetime.datetime.fromisoformat(date) if isinstance(date, str) else date
    h = d if isinstance(d, datetime.datetime) else datetime.datetime.combine(d, datetime.time.min)
    want = norm(subst(ds + ("/" + "/".join(parts) if parts else ""), d))
    Mem, looked, _ = rcommon.store({})
    r = Mem(dataset=ds, partitions=parts, start_date=h, end_date=h)
    r.get_list_of_blobs()
    if [norm(x) for x in looked] != [want]:
        out.append(f"reader: looks in {looked}, the partition is {want!r}")
    for W in (Writer, BatchWriter, StreamWriter):
        Inner = wcommon.store()
        w = W(dataset=ds, partitions=parts, date=date, schema=False, format="jsonl", inner_writer=Inner)
        if W is StreamWriter:
            w.run_pool_attendant = False
        w.append({"a": 1})
        w.finalize()
        for name, _ in Inner.log:
            f = norm(posixpath.dirname(name))
            if W is BatchWriter:
                f, last = posixpath.split(f)
                if not re.fullmatch(r"as_at_\d{8}-\d{6}", last):
                    out.append(f"frame: {name!r} is not in a frame")
            if f != want:
                out.append(f"{W.__name__}: stores {name!r}, the reader looks in {want!r}")
            if "{" in name.replace("{col}", ""):
                out.append(f"name: blob name {name!r}")
            if case["ds"].startswith("/") != name.startswith("/"):
                out.append(f"root: blob name {name!r} for the dataset {ds!r}")
        if len(Inner.log) != (2 if W is BatchWriter else 1):
            out.append(f"count: {W.__name__} stored {[n for n, _ in Inner.log]}")
    return out
