"""Records with embedded newlines, separators, quotes, Unicode and empty values written by reference encoders to JSON lines,
zstandard, lzma, parquet, CSV and zip archives of these, with and without a final newline, read back by the real reader with
and without selection and filter, together with a blob that cannot be decoded. Non-trivial when format or records differ."""
import datetime
import json

import rcommon

from mabel.data import Reader
from mabel.errors import DataNotFoundError

FILES = ["mabel/data/readers/internals/decompressors.py", "mabel/data/readers/internals/parsers.py", "mabel/data/readers/internals/parallel_reader.py"]
FMTS = ["jsonl", "zstd", "lzma", "parquet", "csv", "zip+jsonl", "zip+csv", "zip+parquet", "zip+zstd", "zip+lzma"]
TEXTS = ["", "a", "é", "li\nne", 'q"uo', "x,y", ";", "a\tb", "\\n", " lead", "trail ", "{}", "0", "null", "a\r\nb", "'", "  ", "\u2028x", "z\x0by", "a\x1cb", "\x85", "\ufeff", "\ufeffx"]
D = datetime.date(2021, 2, 3)


def cases(rng, tier, K):
    for f in FMTS:
        for end in (True, False):
            yield {"fmt": f, "recs": [{"n": i, "s": t} for i, t in enumerate(TEXTS)], "end": end, "sel": "*", "flt": None, "bad": None}
            yield {"fmt": f, "recs": [{"n": 0, "s": "only"}], "end": end, "sel": "*", "flt": None, "bad": None}
    yield {"fmt": "jsonl", "recs": [{"n": 1}, {}, {"s": "x"}], "end": True, "sel": "*", "flt": None, "bad": None}
    for f in FMTS:
        for end in (True, False):
            yield {"fmt": f, "recs": [{"\ufeffn": 1, "s": "x"}, {"\ufeffn": 2, "s": "\ufeff"}], "end": end, "sel": "*", "flt": None, "bad": None}
            yield {"fmt": f, "recs": [{"n": 1, "s": "x"}, {"n": None, "s": None}, {"n": 2, "s": ""}, {"n": None, "s": None}], "end": end, "sel": "*", "flt": None, "bad": None}
        for m in ("a.b", "x", "d/e.f", "A B.c"):
            yield {"fmt": f, "recs": [{"n": 4, "s": "x"}, {"n": 1, "s": "y"}], "end": True, "sel": "*", "flt": None, "bad": None, "member": m}
    N = 1500 if tier == "quick" else 12000
    for _ in range(N):
        recs = [{"n": rng.randrange(5), "s": rng.choice(TEXTS), "t": rng.choice(TEXTS)} for _ in range(rng.choice([1, 2, 3, 5, 60]))]
        f = rng.choice(FMTS)
        yield {"fmt": f, "recs": recs, "end": rng.random() < 0.6, "sel": rng.choice(["*", "*", "n, s", "n"]), "flt": rng.choice([None, None, [["n", ">", 2]], [["n", "=", 3]], "n > 2", "n <= 2 AND NOT n = 1"]),
               "bad": rng.choice([None, None, "garbage", "truncated", "badline"])}


def check(case):
    recs, f = case["recs"], case["fmt"]
    ext = "zip" if f.startswith("zip+") else f
    text = f.endswith("csv")
    blobs = {f"p/m.{ext}": rcommon.encode(f, recs, case["end"], case.get("member", "a")), "p/z.jsonl": rcommon.encode("jsonl", [{"n": 3, "s": "last"}])}
    if case["bad"] == "garbage":
        blobs[f"p/a.{ext}"] = b"\xff\x00garbage"
    elif case["bad"] == "truncated":
        b = rcommon.encode(f, [{"n": 99, "s": "trunc", "t": "x" * 50}] * 3)
        blobs["p/a." + ext] = b[: len(b) // 2]
    elif case["bad"] == "badline":
        blobs["p/a.jsonl"] = b'{"n": 99'
    Mem, _, _ = rcommon.store(blobs)
    flt = case["flt"]
    if isinstance(flt, list):
        flt = [tuple(t) for t in flt]
    if text:
        flt = None
    kw = {"filters": flt} if flt is not None else {}
    got = list(Reader(dataset="p", partitions=None, inner_reader=Mem, start_date=D, end_date=D, select=case["sel"], **kw))
    got = [r if isinstance(r, dict) else r.as_dict() for r in got]
    keep = {None: lambda n: True, ">": lambda n: n > 2, "=": lambda n: n == 3}
    if flt is None:
        ok = lambda n: True
    elif isinstance(flt, list):
        ok = (lambda n: n > 2) if flt[0][1] == ">" else (lambda n: n == 3)
    else:
        ok = (lambda n: n > 2) if flt == "n > 2" else (lambda n: n <= 2 and n != 1)
    cols = None if case["sel"] == "*" else case["sel"].split(", ")
    sel = lambda r: r if cols is None else {c: r.get(c) for c in cols}
    src = [{k: "" if v is None else str(v) for k, v in r.items()} for r in recs] if text else recs
    want = [sel(r) for r in src if flt is None or ok(int(r["n"]))] + [sel(r) for r in [{"n": 3, "s": "last"}] if ok(3)]
    # what a damaged blob holds may be delivered in part
    got = [r for r in got if str(r.get("n")) != "99" and (case["bad"] is None or case["bad"] == "badline" or r in want)] if case["bad"] else got
    if got != want:
        i = next((i for i in range(max(len(got), len(want))) if got[i : i + 1] != want[i : i + 1]), 0)
        return [f"{f}: record {i} read as {got[i:i+1]}, written as {want[i:i+1]}; {len(got)} of {len(want)} records"]
    return []
