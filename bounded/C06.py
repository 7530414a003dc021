"""Appends, finalise calls and refused batches on a database writer; the batches offered to the inner writer and
the runs of the finaliser are compared with the appended records. A case is non-trivial when its record count,
refusals and operations are distinct."""
from wcommon import *

from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
from mabel.data.writers.database_writer import DatabaseWriter

FILES = ["mabel/data/writers/database_writer.py", "mabel/adapters/database/base_database_writer.py"]


def cases(rng, tier, K):
    counts = sorted({0, 1, 2, 99, 100, 101, 199, 200, 201, 300, 350} | {i for i in K["ints"] if 0 <= i <= 400})
    for n in counts:
        for fail in ([], [0], [0, 1], [1], [2]):
            yield {"ops": [n, "f"], "fail": fail, "fin": True}
        yield {"ops": [n, "f", "f", 3, "f", "f"], "fail": [], "fin": True}
        yield {"ops": [n, "f"], "fail": [], "fin": False}
    N = 900 if tier == "quick" else 4000
    for _ in range(N):
        ops = []
        for _ in range(rng.randrange(1, 7)):
            ops.append(rng.choice([rng.choice(counts), rng.randrange(0, 120), "f", "c"]))
        yield {"ops": ops, "fail": sorted(rng.sample(range(6), rng.choice([0, 0, 1, 2, 3]))), "fin": rng.random() < 0.8}


def check(case):
    offered, taken, events = [], [], []
    fail = set(case["fail"])

    class Inner(BaseDatabaseWriter):
        def commit(self, dataframe):
            rows = [tuple(r) for r in dataframe]
            n = len(offered)
            offered.append(rows)
            if n in fail:
                raise refusal(n, *fail, len(case["ops"]))(f"batch {n}")
            taken.append(rows)
            events.append("commit")

    def finalizer(*_):
        events.append("final")

    w = DatabaseWriter(schema=schema(), inner_writer=Inner, dataset="t", finalizer=finalizer if case["fin"] else None)
    recs, ok, k, out = [], [], 0, []
    done = False
    for op in case["ops"]:
        if op == "f" or op == "c":
            try:
                w.finalize() if op == "f" else w.commit()
                good = True
            except Exception:
                good = False
            flat = [r for b in taken for r in b]
            if good:
                missing = [i for i, o in zip(range(len(recs)), ok) if o and recs[i] not in flat]
                if missing:
                    out.append(f"late: {op} returned while records {missing[:5]} had not been handed over")
                if op == "f":
                    done = True
                    if case["fin"] and events.count("final") != 1:
                        out.append(f"finaliser: run {events.count('final')} times after a successful finalise")
            elif not done and "final" in events:
                out.append("finaliser: run although rows are still to be handed over")
            continue
        for _ in range(op):
            r = {"i": k, "s": f"s{k}", "f": k / 2, "b": k % 2 == 0}
            k += 1
            try:
                w.append(r)
                ok.append(True)
            except Refused:
                ok.append(False)
            recs.append(tuple(r.values()))
    for _ in range(8):
        try:
            w.finalize()
            break
        except Exception:
            pass
    flat = [r for b in taken for r in b]
    ev = list(events)
    j = 0
    for r, o in zip(recs, ok):
        if j < len(flat) and flat[j] == r:
            j += 1
        elif o:
            out.append(f"lost: record {r} is missing or misplaced; {len(recs)} appended, {len(flat)} handed over")
            break
    else:
        if j != len(flat):
            out.append(f"twice: {len(flat)} rows handed over, {j} of them explained by the appends")
    big = [len(b) for b in offered if len(b) > 100 or not b]
    if big:
        out.append(f"size: batches of {big} rows were offered")
    if case["fin"] and ev.count("final") != 1:
        out.append(f"finaliser: run {ev.count('final')} times")
    if not case["fin"] and "final" in ev:
        out.append("finaliser: run although there is none")
    w.commit = w.finalize = lambda *a: None
    return out
