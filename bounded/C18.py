"""Records of every JSON type held in each storage class: iterated more than once, counted, fetched by position, partly read then
read again; sizes around the batch size written in the code. Non-trivial when records or positions are distinct."""
import logging

from mabel.data import DictSet, STORAGE_CLASS

logging.disable(logging.CRITICAL)
FILES = ["mabel/data/internals/storage_classes/storage_class_compressed_memory.py", "mabel/data/internals/storage_classes/storage_class_disk.py", "mabel/data/internals/storage_classes/storage_class_memory.py"]
VALUES = [None, True, False, 0, 1, -7, 2**53, 1.5, -0.25, "", "é", "a\nb", "\r\n", "\u2028", "x\x00y", '"', "\\n", [], [1, [2]], {}, {"k": {"j": [None]}}, "   ", "\n"]


def cases(rng, tier, K):
    sizes = sorted({i for i in K["ints"] if 2 < i <= 1100} | {249, 250, 251, 499, 500, 501, 750})
    n = 0
    while n < (1600 if tier == "quick" else 8000):
        n += 1
        size = rng.choice([0, 1, 2, 3, 7]) if n % 8 else rng.choice(sizes)
        if size > 20:
            tail = {"t": rng.choice(VALUES)}
            spec = ("n", size, tail)
        else:
            spec = ("r", [{k: rng.choice(VALUES) for k in rng.sample(["a", "b", "é", "", "a b"], rng.randrange(0, 4))} for _ in range(size)])
        cls = ["MEMORY", "DISK", "COMPRESSED_MEMORY"][n % 3]
        k = rng.randrange(0, 5)
        locs = sorted(rng.sample(range(size), min(size, k)))
        if size > 20:
            locs = sorted(set(locs) | set(rng.sample([0, size - 1, 248 % size, 249 % size, 250 % size, 251 % size], 2)))
        yield (cls, spec, locs, rng.randrange(0, 4))
    if tier == "thorough":
        for cls in ("DISK", "COMPRESSED_MEMORY"):
            yield (cls, ("big", 20, 1024 * 1024), [0, 7, 19], 2)
    # more than the disk writer holds before it writes
    yield ("DISK", ("big", 9, 2 * 1024 * 1024), [0, 7, 8], 2)
    yield ("DISK", ("big", 2, 17 * 1024 * 1024), [1], 1)


def check(case):
    cls, spec, locs, part = case
    if spec[0] == "r":
        rs = spec[1]
    elif spec[0] == "n":
        rs = [dict(spec[2], i=i) for i in range(spec[1])]
    else:
        rs = [{"i": i, "s": chr(65 + i) * spec[2]} for i in range(spec[1])]
    probs = []
    d = DictSet((dict(r) for r in rs), storage_class=STORAGE_CLASS[cls])

    def cmp(what, got, want):
        if repr(got) != repr(want):
            probs.append(f"{what}: {cls} gives {str(got)[:200]} ({len(got)}), not {str(want)[:200]} ({len(want)})")

    cmp("iteration", list(d), rs)
    cmp("second-iteration", list(d), rs)
    if d.count() != len(rs):
        probs.append(f"count: {cls} counts {d.count()} of {len(rs)}")
    cmp("positions", list(d.get_items(*locs)), [rs[i] for i in locs])
    # a read left part way does not shorten the next one
    it = iter(d)
    for _ in range(min(part, len(rs))):
        next(it)
    cmp("after-partial", list(d), rs)
    cmp("positions-again", list(d.get_items(*locs)), [rs[i] for i in locs])
    cmp("iteration-after-positions", list(d), rs)
    if d.count() != len(rs):
        probs.append(f"count: {cls} counts {d.count()} of {len(rs)} after reads")
    return probs[:2]
