"""Batch writes against a store that refuses chosen commits: every sequence of up to 3 finalise calls with and
without a reported failure, with and without records, always_complete, frame identifiers and refused commits
(including the one of the marker); the log of the store is compared with the property after every call. A case
is non-trivial when its schedule (records, refusals, finalise calls, options) is distinct."""
import itertools
import os

from wcommon import *

from mabel.data import BatchWriter

FILES = ["mabel/data/writers/batch_writer.py", "mabel/data/writers/writer.py"]


def cases(rng, tier, K):
    fins = [list(x) for n in (1, 2, 3) for x in itertools.product([False, True], repeat=n)]
    for fmt in ("jsonl", "parquet"):
        for n in (0, 1, 3):
            for ac in (False, True):
                for f in fins:
                    for fail in ([], [0], [1], [0, 1], [2]):
                        yield {"fmt": fmt, "n": n, "ac": ac, "fins": f, "fail": fail, "size": 10**6, "frame": None}
    vals = [None, 0, 1, "", "x"]
    N = 1500 if tier == "quick" else 8000
    for _ in range(N):
        yield {"fmt": rng.choice(["jsonl", "zstd", "parquet", "text", "flat"]), "n": rng.choice([0, 1, 2, 5, 9]), "ac": rng.random() < 0.4,
               "fins": [rng.choice([True, False, False, rng.choice(vals)]) for _ in range(rng.randrange(1, 5))],
               "fail": sorted(rng.sample(range(8), rng.choice([0, 0, 1, 2, 3]))), "size": rng.choice([1, 60, 10**6]),
               "frame": rng.choice([None, None, "lake/tests/f1/"]), "more": rng.random() < 0.4,
               "parts": rng.choice([["year_{yyyy}/month_{mm}/day_{dd}"], ["hour_{HH}"], None]), "ds": rng.choice(["lake/tests/c01", "lake/a.b/c"])}


def check(case):
    import random

    rng = random.Random(5)
    Inner = store(case["fail"], (case["n"], case["size"], len(case["fins"])))
    kw = {}
    if case.get("frame"):
        kw["frame_id"] = case["frame"]
    if "parts" in case:
        kw["partitions"] = case["parts"]
    w = BatchWriter(dataset=case.get("ds", "lake/tests/c01"), format=case["fmt"], inner_writer=Inner, schema=schema(), blob_size=case["size"],
                    date="2021-03-04", always_complete=case["ac"], **kw)
    # the data blobs' folder
    folder = os.path.split(w.blob_writer.inner_writer.filename)[0]
    accepted, seen, k, out = [], False, 0, []

    def add(n):
        nonlocal k
        for _ in range(n):
            r = record(rng, k)
            k += 1
            try:
                w.append(r)
                accepted.append(r)
            except Refused:
                pass

    add(case["n"])
    attempted = case["n"]
    for j, hf in enumerate(case["fins"]):
        if case.get("more") and j:
            add(1)
        before = len(Inner.log)
        if hf:
            seen = True
        kws = {} if hf is None else {"has_failure": hf}
        try:
            w.finalize(**kws)
            ok = True
        except Refused:
            ok = False
        new = Inner.log[before:]
        markers = [x for x in new if x[0].endswith("frame.complete")]
        blobs = [x for x in Inner.log if not x[0].endswith("frame.complete")]
        if any("frame.complete" in x[0] and not x[0].endswith("/frame.complete") for x in new):
            out.append(f"name: marker named {new}")
        want = not seen and (w.records > 0 or case["ac"])
        if markers:
            if seen:
                out.append(f"failure: the marker was stored by finalise call {j} although a failure had been reported: {case['fins']}")
            if not accepted and not case["ac"]:
                out.append("empty: the marker was stored although no record was written")
            got = []
            for n, b in blobs:
                got += decode(case["fmt"], b)
            if case["fmt"] not in ("text",):
                missing = [r["i"] for r in accepted if r["i"] not in {g.get("i") for g in got}]
            else:
                missing = [r["i"] for r in accepted if str(r).replace("\n", "\\n") not in got]
            if missing:
                out.append(f"early: the marker was stored by finalise call {j} while records {missing} were not in any stored blob")
            for n, b in markers:
                if os.path.split(n)[0] != folder or b != b"":
                    out.append(f"folder: the marker is {n} with {b!r}, the blobs' folder is {folder}")
            for n, b in blobs:
                if os.path.split(n)[0] != os.path.split(markers[0][0])[0]:
                    out.append(f"folder: blob {n} and marker {markers[0][0]} are in different folders")
            if new[-1][0] != markers[-1][0]:
                out.append("order: a blob was stored after the marker in the same call")
        elif ok and want:
            out.append(f"absent: finalise call {j} returned normally, no failure was reported, {w.records} records, yet no marker was stored")
    return out
