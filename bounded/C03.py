"""Conforming and non-conforming records appended to schema'd batch and stream writers, in random orders, with
missing fields, wrong types, nulls and extra fields; the stored blobs and the counters are compared with the
schema's own verdict on a copy. A case is non-trivial when its records or writer options are distinct."""
import copy
import random

from wcommon import *

from mabel.data import BatchWriter, StreamWriter
from mabel.data.writers.writer import Writer

FILES = ["mabel/data/writers/writer.py", "mabel/data/writers/stream_writer.py"]
COLSETS = [
    COLS,
    [{"name": "i", "type": "INTEGER", "nullable": False}, {"name": "s", "type": "VARCHAR", "nullable": True}],
]


def bad(rng, i):
    return rng.choice([
        {"i": "text", "s": "a", "f": 1.0, "b": True}, {"i": i, "s": 5, "f": 1.0, "b": True}, {"i": i, "s": "x", "f": "1.0", "b": True},
        {"i": i, "s": "x", "f": 1.0, "b": "yes"}, {"s": "no i"}, {}, {"i": i, "s": "x", "f": 1.0, "b": True, "extra": 1}, {"i": None, "s": None}, {"i": 1.5, "s": "q"},
    ])


def good(rng, i, cs):
    r = record(rng, i)
    return {k: r[k] for k in [c["name"] for c in COLSETS[cs]]}


def cases(rng, tier, K):
    N = 1560 if tier == "quick" else 6000
    for j in range(N):
        cs = rng.randrange(2)
        recs = [good(rng, i, cs) if rng.random() < 0.5 else bad(rng, i) for i in range(rng.randrange(1, 9))]
        yield {"kind": rng.choice(["batch", "writer", "stream"]), "fmt": rng.choice(["jsonl", "jsonl", "zstd", "parquet"]), "cs": cs, "recs": recs,
               "size": rng.choice([1, 100, 10**6]), "part": rng.random() < 0.4, "noschema": rng.random() < 0.1}


def check(case):
    from orso.schema import RelationSchema

    sc = RelationSchema.from_dict({"name": "t", "columns": [dict(c) for c in COLSETS[case["cs"]]]})
    oracle = RelationSchema.from_dict({"name": "t", "columns": [dict(c) for c in COLSETS[case["cs"]]]})
    fmt = case["fmt"]
    if case["noschema"]:
        sc = False
        fmt = "jsonl"
    Inner = store()
    kw = dict(format=fmt, inner_writer=Inner, schema=sc, blob_size=case["size"], date="2021-01-02")
    out = []

    def conforms(r):
        if sc is False:
            return True
        try:
            oracle.validate(copy.deepcopy(r))
            return True
        except Exception:
            return False

    if case["kind"] == "stream":
        ds = "lake/s/{s}" if case["part"] else "lake/s"
        w = StreamWriter(dataset=ds, idle_timeout_seconds=1000, **kw)
        w.run_pool_attendant = False
        good_, bad_ = [], []
        for r in case["recs"]:
            x = copy.deepcopy(r)
            ok = conforms(r)
            if fmt == "parquet" and not ok:
                continue  # a rejected record cannot be laid out in the schema's columns
            w.append(x)
            (good_ if ok else bad_).append(r)
            if x != r:
                out.append(f"changed: the record became {x!r}, was {r!r}")
        w.finalize()
        gb = [(n, d) for n, b in Inner.log for d in decode(fmt, b)]
        for n, d in gb:
            if "/BACKOUT/" in n and any(d == g for g in good_) and not any(d == b for b in bad_):
                out.append(f"backout: the conforming record {d!r} was written to {n}")
            if "/BACKOUT/" not in n and any(d == b for b in bad_) and not any(d == g for g in good_):
                out.append(f"leak: the rejected record {d!r} was written to {n}")
            if not n.startswith("lake/s/"):
                out.append(f"where: {n} is outside the dataset")
        inb = sum("/BACKOUT/" in n for n, _ in gb)
        if len(gb) != len(good_) + len(bad_) or inb != len(bad_):
            out.append(f"number: {len(good_)} conforming and {len(bad_)} rejected records became {len(gb) - inb} and {inb} stored ones")
        return out
    if case["kind"] == "batch":
        w = BatchWriter(dataset="lake/b", **kw)
    else:
        w = Writer(dataset="lake/b", **kw)
    want = []
    for r in case["recs"]:
        ok = conforms(r)
        n0 = (w.records, w.blob_writer.records_in_buffer, len(Inner.log))
        x = copy.deepcopy(r)
        try:
            w.append(x)
            got = True
        except Exception:
            got = False
        if got != ok:
            out.append(f"verdict: append of {r!r} {'returned' if got else 'raised'}, the schema {'accepts' if ok else 'rejects'} it")
        if ok:
            want.append(r)
        if x != r:
            out.append(f"changed: the record became {x!r}, was {r!r}")
        if not ok and (w.records, w.blob_writer.records_in_buffer, len(Inner.log)) != n0:
            out.append(f"effect: the rejected record {r!r} changed the writer")
        if ok and w.records != n0[0] + 1:
            out.append(f"count: {n0[0]} records became {w.records}")
    w.finalize()
    got = [d for n, b in Inner.log if not n.endswith("frame.complete") for d in decode(fmt, b)]
    if got != want:
        out.append(f"stored: {got!r}, conforming {want!r}")
    return out
