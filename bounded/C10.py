"""Reads of generated blobs (empty, single-record, many) over a store in memory, stopped after every number of records and
resumed from the cursor taken there (dictionary, JSON text), once and repeatedly; the records delivered before and after are
concatenated and compared with an uninterrupted read. Non-trivial when blobs, stops or form differ."""
import datetime
import json

import orjson
import rcommon

from mabel.data import Reader
from mabel.errors import DataNotFoundError

FILES = ["mabel/data/readers/internals/cursor.py", "mabel/data/readers/reader.py"]
D = datetime.date(2021, 2, 3)


def cases(rng, tier, K):
    for sizes in ([3], [2, 2], [1, 0, 2], [0, 0, 1], [1] * 9, [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], [0, 3, 0], [4, 1, 0, 2]):
        for stop in range(1, sum(sizes) + 1):
            for form in ("dict", "json", "repr"):
                yield {"sizes": sizes, "stops": [stop], "form": form, "flt": None}
        yield {"sizes": sizes, "stops": [1] * sum(sizes), "form": "dict", "flt": None}
        yield {"sizes": sizes, "stops": [1] * sum(sizes), "form": "json", "flt": None}
    N = 2500 if tier == "quick" else 20000
    for _ in range(N):
        sizes = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(rng.choice([1, 2, 3, 4, 7, 8, 9, 10, 17]))]
        stops = []
        left = sum(sizes)
        while left > 0 and len(stops) < 6 and rng.random() < 0.8:
            s = rng.randrange(1, left + 1)
            stops.append(s)
            left -= s
        yield {"sizes": sizes, "stops": stops, "form": rng.choice(["dict", "json", "repr"]), "flt": rng.choice([None, None, "n != 1", "n > 3"]), "dup": rng.random() < 0.2, "long": rng.random() < 0.5, "plain": rng.random() < 0.3,
               "none": [i for i in range(sum(sizes)) if rng.random() < 0.15] if rng.random() < 0.4 else []}


def check(case):
    blobs, n = {}, 0
    for i, s in enumerate(case["sizes"]):
        recs = []
        for _ in range(s):
            recs.append({} if n in case.get("none", ()) else {"n": 1 if case.get("dup") else n})
            n += 1
        blobs[f"p/b{i:02d}{'x' * (i * 7 % 5) if case.get('long') else ''}.jsonl" if not case.get("plain") else f"p/b{i}.jsonl"] = rcommon.encode("jsonl", recs)
    Mem, _, _ = rcommon.store(blobs)

    def read(cursor=None):
        kw = {"cursor": cursor} if cursor is not None else {}
        return Reader(dataset="p", partitions=None, inner_reader=Mem, start_date=D, end_date=D, filters=case["flt"], **kw)

    whole = list(read())
    got, cursor = [], None
    for s in case["stops"]:
        ds = read(cursor)
        it = iter(ds)
        for _ in range(s):
            try:
                got.append(next(it))
            except StopIteration:
                break
        c = ds.cursor
        if not hasattr(c, "get"):
            break
        cursor = c.get() if case["form"] != "repr" else repr(c)
        if case["form"] == "json":
            cursor = orjson.dumps(cursor).decode()
        elif case["form"] == "dict":
            cursor = json.loads(json.dumps(cursor))
    got += list(read(cursor))
    if got != whole:
        return [f"resumed: {[r.get('n') for r in got][:40]}, uninterrupted: {[r.get('n') for r in whole][:40]}"]
    return []
