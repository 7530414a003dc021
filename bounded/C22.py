"""Random nested records (objects, lists, empty containers, keys that are empty, numeric or hold the separator), flattened with an
own walk; and written in the flat format. Non-trivial when records are distinct."""
import copy
import json
import logging

import wcommon

from mabel.data.internals.records import flatten
from mabel.data.writers.internals.blob_writer import BlobWriter

logging.disable(logging.CRITICAL)
FILES = ["mabel/data/internals/records.py"]
KEYS = ["a", "b", "c", "0", "1", "", "a.b", "é", "items", "10", " "]
LEAVES = [None, 0, 1, -2.5, "", "x", True, False, "a.b", "é\n"]


def cases(rng, tier, K):
    def value(depth):
        k = rng.random()
        if depth == 0 or k < 0.4:
            return rng.choice(LEAVES)
        if k < 0.7:
            return {key: value(depth - 1) for key in rng.sample(KEYS, rng.randrange(0, 4))}
        return [value(depth - 1) for _ in range(rng.randrange(0, 4) if rng.random() < 0.95 else 12)]

    n = 0
    while n < (20000 if tier == "quick" else 60000):
        n += 1
        r = {key: value(rng.randrange(0, 5)) for key in rng.sample(KEYS, rng.randrange(0, 5))}
        yield (r, rng.choice([".", ".", "_", "::"]), n % 10 == 0)


def walk(v, path, out):
    if isinstance(v, dict):
        for k, x in v.items():
            walk(x, path + [k], out)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            walk(x, path + [str(i)], out)
    else:
        out.append((path, v))


def check(case):
    r, sep, write = case
    leaves = []
    walk(r, [], leaves)
    want = {}
    for p, v in leaves:
        want.setdefault(sep.join(p), []).append(v)
    before = copy.deepcopy(r)
    got = flatten(r) if sep == "." else flatten(r, sep)
    if repr(r) != repr(before):
        return [f"modified: the input became {r}"]

    def agree(flat, what):
        if set(flat) != set(want):
            return [f"{what}: paths {sorted(set(flat) ^ set(want))} of {r} are lost or made up"]
        for k, v in flat.items():
            if not any(repr(v) == repr(x) for x in want[k]):
                return [f"{what}: {k!r} of {r} holds {v!r}, not {want[k]!r}"]
        return []

    p = agree(got, "flatten")
    if p or not write or sep != ".":
        return p
    inner = wcommon.store()
    w = BlobWriter(inner_writer=inner, blob_size=1 << 20, format="flat", schema=False, dataset="lake/c22/")
    w.append(r)
    w.commit()
    lines = inner.log[0][1].split(b"\n")
    return agree(json.loads(lines[0]), "written") if len(lines) == 2 else [f"written: {inner.log[0][1]!r}"]
