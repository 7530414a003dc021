"""Records with scalar, list, missing and hostile values appended to streams whose paths hold date and column
placeholders; the multiset of (folder, record) reaching the blob writers is compared with the Cartesian product
of the values. A case is non-trivial when its path template, date or records are distinct."""
import copy
import datetime
import itertools
import posixpath
import re
import string
from collections import Counter

from wcommon import *

from mabel.data import StreamWriter

FILES = ["mabel/data/writers/stream_writer.py", "mabel/utils/text.py", "mabel/utils/paths.py"]
VALS = ["x", "a b", "../up", "a/b", "{c}", "{a}{b}", "{yyyy}", "", None, 0, 1, 2.5, -3, "é", "A", ".", "//", "x.y", "b\\c", "Ab9", "new\nline", "%", "{"]
PARTS = [["year_{yyyy}/month_{mm}/day_{dd}"], ["{HH}"], None, ["{a}"], ["{yyyy}", "by_{a}/{b}"], ["{MM}{SS}"]]
DATES = ["2021-03-04", "2000-12-31 23:59:58", "1999-01-01T01:02", "0987-10-20"]


def cases(rng, tier, K):
    yield {"ds": "lake/s", "parts": None, "date": DATES[0], "recs": [{"a": 1}, {"a": [1, 2]}], "size": 10**6, "noplace": True}
    yield {"ds": "lake/{a}/{b}", "parts": PARTS[0], "date": DATES[1], "recs": [{"a": [1, 2, 1], "b": ["x", "y", "x"]}, {"a": []}, {"b": 3}, {"a": ["a-b", "ab"], "b": "q"}], "size": 10**6}
    yield {"ds": "lake/{a}/{a}", "parts": PARTS[0], "date": DATES[1], "recs": [{"a": [1, 2]}, {}], "size": 1}
    for s in K["strs"]:
        yield {"ds": "lake/{a}", "parts": PARTS[0], "date": DATES[0], "recs": [{"a": s}, {"a": [s, "z"]}], "size": 10**6}
    N = 5000 if tier == "quick" else 9000
    for _ in range(N):
        def val():
            if rng.random() < 0.35:
                return [rng.choice(VALS) for _ in range(rng.randrange(0, 4))]
            return rng.choice(VALS)
        recs = []
        for i in range(rng.randrange(1, 5)):
            r = {"n": i}
            for c in "abc":
                if rng.random() < 0.75:
                    r[c] = val()
            recs.append(r)
        names = dict(zip("abc", rng.choice([["a", "b", "c"]] + [rng.sample(["user", "country", "id", "z", "Key", "b", "a", "x1", "day", "_k", "é"], 3)] * 3)))

        def named(t):
            return t and re.sub(r"\{([abc])\}", lambda m: "{" + names[m[1]] + "}", t)

        recs = [{names.get(k, k): v for k, v in r.items()} for r in recs]
        parts = rng.choice(PARTS)
        yield {"ds": named(rng.choice(["lake/{a}", "lake/{a}/x/{b}", "lake/s", "lake/p_{c}_{a}/t", "lake/{b}/{yyyy}{mm}{dd}", "lake/{a}{b}{c}"])),
               "parts": parts and [named(t) for t in parts], "date": rng.choice(DATES), "recs": recs, "size": rng.choice([1, 10**6])}


SAFE = string.ascii_letters + string.digits + string.whitespace


def clean(v):
    return "".join(c for c in str(v) if c in SAFE)


def norm(p):
    return [x for x in p.split("/") if x != ""]


def check(case):
    Inner0 = store()

    class Inner(Inner0):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.ds = kw["dataset"]

        def commit(self, byte_data, override_blob_name=None):
            got.append((self.ds, bytes(byte_data)))
            return Inner0.commit(self, byte_data, override_blob_name)

    got, out = [], []
    w = StreamWriter(dataset=case["ds"], partitions=case["parts"], date=case["date"], schema=False, format="jsonl", inner_writer=Inner,
                     blob_size=case["size"], idle_timeout_seconds=10**6, writer_pool_capacity=1000)
    w.run_pool_attendant = False
    template = case["ds"] + ("/" + "/".join(case["parts"]) if case["parts"] else "")
    d = datetime.datetime.fromisoformat(case["date"])
    for k, v in {"yyyy": f"{d.year}", "mm": f"{d.month:02d}", "dd": f"{d.day:02d}", "HH": f"{d.hour:02d}", "MM": f"{d.minute:02d}", "SS": f"{d.second:02d}"}.items():
        template = template.replace("{" + k + "}", v)
    cols = sorted(set(re.findall(r"\{(.*?)\}", template)))
    want = Counter()
    for r in case["recs"]:
        x = copy.deepcopy(r)
        n = w.append(x)
        if x != r:
            out.append(f"changed: the record became {x!r}, was {r!r}")
        vs = [r.get(c) if isinstance(r.get(c), list) else [r.get(c)] for c in cols]
        combos = []
        for c in itertools.product(*vs):
            if c not in combos:
                combos.append(c)
        for c in combos:
            p = "".join(clean(c[cols.index(t[1:-1])]) if t.startswith("{") and t.endswith("}") else t for t in re.split(r"(\{.*?\})", template))
            want["/".join(norm(p)), json.dumps(r)] += 1
        if cols and n != len(combos):
            out.append(f"number: append returned {n} for {len(combos)} combinations of {r!r}")
    w.finalize()
    have = Counter()
    for ds, b in got:
        for x in decode("jsonl", b):
            have["/".join(norm(ds)), json.dumps(x)] += 1
    if have != want:
        out.append(f"copies: missing {list((want - have).items())[:4]}, too many {list((have - want).items())[:4]}")
    for n, b in Inner0.log:
        depth = len(norm(template))
        if ".." in n.split("/") or "{" in n:
            out.append(f"path: blob stored as {n}")
    return out
