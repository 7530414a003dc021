"""Random record sets, hashed in every order of records and fields, with a chosen seed, and with one record appended.
Non-trivial when records are distinct."""
import itertools
import logging

from orso.cityhash import CityHash64

from mabel.data import DictSet, STORAGE_CLASS

logging.disable(logging.CRITICAL)
FILES = ["mabel/data/internals/dictset.py"]
VALUES = [None, 0, 1, 1.5, "", "a", True, [1, 2], {"k": 1}, "é", 2**53]


def cases(rng, tier, K):
    n = 0
    while n < (4000 if tier == "quick" else 12000):
        n += 1
        keys = rng.choice([["a", "b", "c", "d"], ["", "A", "a", "Z"], ["é", "f", "z", "10"]])
        rs = [{k: rng.choice(VALUES) for k in rng.sample(keys, rng.randrange(0, 5))} for _ in range(rng.choice([0, 1, 2, 3, 4, 9]))]
        if rs and rng.random() < 0.3:
            rs.append(dict(rng.choice(rs)))
        yield (rs, {k: rng.choice(VALUES) for k in rng.sample(keys, rng.randrange(0, 4))}, rng.choice([None, 0, 1, 703115, 2**63]), rng.randrange(1 << 30), rng.choice(["list", "MEMORY", "DISK", "COMPRESSED_MEMORY", "gen"]))


def check(case):
    import random

    rs, extra, seed, shuffle, held = case
    rng = random.Random(shuffle)

    def h(records):
        records = [dict(r) for r in records]
        if held == "list":
            d = DictSet(records)
        elif held == "gen":
            d = DictSet(r for r in records)
        else:
            d = DictSet(iter(records), storage_class=STORAGE_CLASS[held])
        return d.__hash__() if seed is None else d.__hash__(seed)

    base = h(rs)
    if not isinstance(base, int):
        return [f"type: {base!r}"]
    orders = list(itertools.permutations(rs)) if len(rs) <= 3 else [rng.sample(rs, len(rs)) for _ in range(3)]
    for o in orders:
        if h(o) != base:
            return [f"records: the hash of {o} differs from that of {rs}"]
    for r in rs:
        items = list(r.items())
        for _ in range(2):
            rng.shuffle(items)
            if h([dict(items) if x is r else x for x in rs]) != base:
                return [f"fields: the order of fields of {r} changes the hash"]
    s = 703115 if seed is None else seed
    if h([]) != s:
        return [f"empty: the hash of no records is {h([])}, not the seed"]
    one = h([extra]) ^ s
    if h(rs + [extra]) != base ^ one:
        return [f"append: appending {extra} changes the hash by something else than its own"]
    if h([extra] + rs) != base ^ one:
        return [f"append: putting {extra} first changes the hash by something else than its own"]
    # a record's own hash tells records apart
    if any(sorted(r.items(), key=lambda kv: kv[0]) != sorted(extra.items(), key=lambda kv: kv[0]) and h([r]) == h([extra]) for r in rs):
        if not any(repr(sorted(r.items())) == repr(sorted(extra.items())) for r in rs):
            return [f"collision: {extra} and another record of {rs} have one hash"]
    return []
