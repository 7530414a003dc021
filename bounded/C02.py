"""Sequences of appends, explicit commits and refused commits on a blob writer of every format and many blob
sizes; the stored blobs are decoded and compared with the accepted records. A case is non-trivial when its
format, size, refusals and operations are distinct."""
import random

import orso
from wcommon import *

from mabel.data.internals.records import flatten
from mabel.data.writers.internals.blob_writer import BlobWriter
from mabel.data.writers.writer import Writer

FILES = ["mabel/data/writers/internals/blob_writer.py"]


def cases(rng, tier, K):
    for fmt in ("jsonl", "zstd", "parquet", "text", "flat"):
        for size in (0, 1, 50, 100, 200, 10**6):
            for fail in ([], [0], [1], [0, 1]):
                yield {"fmt": fmt, "size": size, "fail": fail, "ops": "a" * 7, "via": "blob", "seed": 1}
        yield {"fmt": fmt, "size": 50, "fail": [], "ops": "", "via": "blob", "seed": 1}
        yield {"fmt": fmt, "size": 50, "fail": [], "ops": "cc", "via": "writer", "seed": 1}
        yield {"fmt": fmt, "size": 10**6, "fail": [], "ops": "aacaacca", "via": "writer", "seed": 1}
    N = 2500 if tier == "quick" else 9000
    for j in range(N):
        yield {"fmt": rng.choice(["jsonl", "zstd", "parquet", "text", "flat"]), "size": rng.choice([0, 1, 30, 75, 120, 200, 350, 1000, 10**6]),
               "fail": sorted(rng.sample(range(9), rng.choice([0, 0, 1, 2, 4]))),
               "ops": "".join(rng.choice("aaaaaac") for _ in range(rng.randrange(0, 25))), "via": rng.choice(["blob", "writer"]), "seed": rng.randrange(10**6)}
    for n in (99, 100, 101, 257, 1000):
        yield {"fmt": "jsonl", "size": 700, "fail": [], "ops": "a" * n, "via": "writer", "seed": 3}
        yield {"fmt": "parquet", "size": 700, "fail": [3], "ops": "a" * n, "via": "writer", "seed": 3}


class Mini:
    """a record that serialises itself"""

    def __init__(self, d):
        self.d = d
        self.mini = json.dumps(d).encode()


class Padded:
    """anything can be written as text"""

    def __init__(self, k):
        self.k = k

    def __str__(self):
        return f"  <{self.k}> "


def r_keys(x):
    return x if isinstance(x, dict) else ()


def check(case):
    rng = random.Random(case["seed"])
    fmt = case["fmt"]
    Inner = store(case["fail"], (case["size"], len(str(case))))
    if case["via"] == "blob":
        w = BlobWriter(inner_writer=Inner, blob_size=case["size"], format=fmt, schema=schema(), dataset="lake/c02/")
        bw, fin = w, w.commit
    else:
        w = Writer(inner_writer=Inner, blob_size=case["size"], format=fmt, schema=schema(), dataset="lake/c02", date="2021-01-01")
        bw, fin = w.blob_writer, w.finalize
    recs, status, ends = [], [], set()

    def commit(f):
        try:
            f()
            ends.add(len(Inner.log))
        except Refused:
            pass

    for k, op in enumerate(case["ops"]):
        if op == "c":
            commit(bw.commit)
            continue
        r = record(rng, k)
        x = r
        if fmt == "text":
            x = rng.choice([f"line {k}", f"line {k}".encode(), k, f" {k}\t", f"  {k} ".encode(), [k], Padded(k)] + ([""] if k == 2 else [b""] if k == 3 and "" not in recs else []))
            r = x.decode() if isinstance(x, bytes) else str(x)
        elif fmt == "flat":
            x = dict(r, n={"a": k, "l": [1, {"z": 2}]})
            r = flatten(x)
        elif case["via"] == "blob" and fmt in ("jsonl", "zstd") and rng.random() < 0.3:
            x = Mini(r)
        elif case["via"] == "blob" and fmt in ("jsonl", "zstd") and rng.random() < 0.1:
            # keys that are not text: written as text, or the record is refused
            x = rng.choice([{k: "int key", "a": 1}, {(k, 1): "tuple key", "a": k}, {"big": 10**30 + k}])
            r = {str(a): b for a, b in x.items()}
        keep = repr(r)
        try:
            (w.append if fmt != "text" and case["via"] == "writer" and fmt != "flat" else bw.append)(x)
            status.append(True)
        except Refused:
            status.append(False)
        except TypeError:
            if not any(isinstance(a, tuple) for a in r_keys(x)):
                raise
            continue
        recs.append(r)
    for _ in range(len(case["fail"]) + 1):
        try:
            fin()
            break
        except Refused:
            pass
    out, got, blobs = [], [], []
    for n, b in Inner.log:
        d = decode(fmt, b)
        blobs.append(d)
        got += d
        if not d:
            out.append(f"empty: an empty blob was stored ({len(b)} bytes)")
    # walk: accepted records exactly once and in order, refused ones at most once, at their place
    j = 0
    for r, ok in zip(recs, status):
        if j < len(got) and got[j] == r:
            j += 1
        elif ok:
            out.append(f"lost: record {r!r} (number {recs.index(r)}) is missing or misplaced: stored {[g.get('i') if isinstance(g, dict) else g for g in got]}, appended {len(recs)} with outcomes {status}")
            break
    else:
        if j != len(got):
            out.append(f"twice: {len(got)} records are stored, {j} of them explained by the appends: {[g.get('i') if isinstance(g, dict) else g for g in got]}")
    for i, (n, b) in enumerate(Inner.log[:-1]):
        if i + 1 in ends:
            continue
        if fmt == "parquet":
            df = orso.DataFrame(rows=[], schema=schema())
            for r in blobs[i]:
                df.append(r)
            size = df.nbytes()
        else:
            size = len(zstandard.decompress(b, max_output_size=1 << 28)) if fmt == "zstd" else len(b)
        if size <= case["size"]:
            out.append(f"early: blob {i} of {size} bytes was closed below the limit of {case['size']} without an explicit commit")
    if bw.records_in_buffer != 0:
        out.append(f"count: {bw.records_in_buffer} records are said to be buffered after a successful finalise")
    return out
