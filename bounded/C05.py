"""Sequences of operations on a writer pool under a controlled clock, compared with a map of open writers; stream
writers whose pool records which locks the calling thread holds (the lock set common to all accesses must not be
empty); and threads appending while the pool is evicted, with every stored record counted. A case is non-trivial
when its operations are distinct."""
import random
import sys
import threading
import time

CLOCK = [1000.0]
SLEEP = [None]
_real_sleep = time.sleep
_held = threading.local()
_RealLock, _RealRLock = threading.Lock, threading.RLock


class TracedLock:
    def __init__(self):
        self._l = _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        r = self._l.acquire(blocking, timeout)
        if r:
            self._add()
        return r

    def _add(self):
        if not hasattr(_held, "s"):
            _held.s = []
        _held.s.append(self)

    def release(self):
        self._l.release()
        if hasattr(_held, "s") and self in _held.s:
            _held.s.remove(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()


class TracedRLock(TracedLock):
    def __init__(self):
        self._l = _RealRLock()

    def __enter__(self):
        self.acquire()
        return True


time.time = lambda: CLOCK[0]
time.monotonic = lambda: CLOCK[0]
time.sleep = lambda s: SLEEP[0](s) if SLEEP[0] else _real_sleep(min(s, 0.001))
threading.Lock = TracedLock
threading.RLock = TracedRLock

from wcommon import *

from mabel.data import StreamWriter
from mabel.data.writers.internals.writer_pool import WriterPool

threading.Lock, threading.RLock = TracedLock, _RealRLock
FILES = ["mabel/data/writers/internals/writer_pool.py", "mabel/data/writers/stream_writer.py"]
IDS = ["p/a", "p/b", "p/c", "p/d", "p/e", "p/aa", "p/A", "p/a ", "p//a"]


def cases(rng, tier, K):
    N = 900 if tier == "quick" else 8000
    for _ in range(N):
        ops = []
        for _ in range(rng.randrange(1, 40)):
            ops.append(rng.choice([["get", rng.choice(IDS)], ["get", rng.choice(IDS)], ["get", rng.choice(IDS)], ["app", rng.choice(IDS)],
                                   ["rem", rng.choice(IDS)], ["nom"], ["stale", rng.choice([0, 1, 5, 30])], ["tick", rng.choice([0.5, 1, 5, 31])], ["evict", rng.choice([0, 5, 30])], ["close"] if rng.random() < 0.2 else ["nom"]]))
        yield {"kind": "pool", "size": rng.choice([0, 1, 2, 3, 5]), "ops": ops}
    for _ in range(200 if tier == "quick" else 800):
        ops = [rng.choice([["app", rng.choice("abcdefAB")], ["app", rng.choice("abcdefAB")], ["att"], ["tick", rng.choice([1, 31, 40])]]) for _ in range(rng.randrange(1, 14))]
        yield {"kind": "stream", "cap": rng.choice([1, 2, 10]), "idle": rng.choice([30, 5]), "ops": ops, "place": rng.random() < 0.7, "size": rng.choice([1, 10**6])}
    for s in range(5 if tier == "quick" else 60):
        yield {"kind": "threads", "seed": s, "cap": rng.choice([1, 2]), "n": 120, "idle": rng.choice([-1, 0, 30])}


def idents(pool):
    return [w["identity"] if isinstance(w, dict) else w for w in pool.writers]


def check(case):
    CLOCK[0], SLEEP[0] = 1000.0, None
    return {"pool": check_pool, "stream": check_stream, "threads": check_threads}[case["kind"]](case)


def check_pool(case):
    Inner = store()
    pool = WriterPool(pool_size=case["size"], inner_writer=Inner, format="jsonl", schema=False)
    open_, out, k = {}, [], 0  # identity -> [writer, last access, records]
    stored = lambda: [r["k"] for n, b in Inner.log for r in decode("jsonl", b)]
    due = []

    def rem(i):
        pool.remove_writer(i)
        if i in open_:
            due.extend(open_.pop(i)[2])

    for op in case["ops"]:
        if op[0] in ("get", "app"):
            w = pool.get_writer(op[1])
            if op[1] in open_ and open_[op[1]][0] is not w:
                out.append(f"other: get_writer({op[1]}) returned another writer while one was open")
            if op[1] not in open_ and any(w is o[0] for o in open_.values()):
                out.append(f"shared: get_writer({op[1]}) returned another partition's writer")
            o = open_.setdefault(op[1], [w, 0, []])
            o[0], o[1] = w, CLOCK[0]
            if op[0] == "app":
                w.append({"k": k})
                o[2].append(k)
                k += 1
        elif op[0] == "rem":
            rem(op[1])
        elif op[0] == "tick":
            CLOCK[0] += op[1]
        elif op[0] == "close":
            pool.close()
            for o in open_.values():
                due.extend(o[2])
            open_.clear()
        else:
            if op[0] in ("nom", "evict"):
                nom = list(pool.nominate_writers_to_evict())
                excess = min(max(0, len(open_) - case["size"]), case["size"])
                ages = sorted(o[1] for o in open_.values())
                if len(set(nom)) != len(nom) or not set(nom) <= set(open_) or len(nom) != excess or sorted(open_[i][1] for i in nom) != ages[:excess]:
                    out.append(f"lru: nominated {nom} of {[(i, o[1]) for i, o in open_.items()]} with capacity {case['size']}")
            if op[0] in ("stale", "evict"):
                st = list(pool.get_stale_writers(op[1]))
                want = {i for i, o in open_.items() if CLOCK[0] - o[1] > op[1]}
                if sorted(st) != sorted(want):
                    out.append(f"stale: {st} are said to be idle for more than {op[1]} s, really {sorted(want)}")
            if op[0] == "evict":
                for i in st:
                    rem(i)
                for i in pool.nominate_writers_to_evict():
                    rem(i)
        ids = idents(pool)
        if sorted(ids) != sorted(open_):
            out.append(f"contents: after {op} the pool holds {sorted(ids)}, should hold {sorted(open_)}")
            break
        if sorted(due) != sorted(stored()):
            out.append(f"commit: after {op} records {sorted(stored())} are stored, those of removed writers are {sorted(due)}")
            break
    for i in list(open_):
        rem(i)
    if sorted(stored()) != list(range(k)):
        out.append(f"lost: {k} records appended, stored {sorted(stored())}")
    return out


class Spy:
    """the pool as the stream writer sees it: notes the locks held at every access"""

    def __init__(self, pool, acc):
        object.__setattr__(self, "_p", pool)
        object.__setattr__(self, "_acc", acc)

    def __getattr__(self, n):
        self._acc.append((n, set(id(x) for x in getattr(_held, "s", []))))
        return getattr(self._p, n)

    def __setattr__(self, n, v):
        self._acc.append((n, set(id(x) for x in getattr(_held, "s", []))))
        setattr(self._p, n, v)


def stream(case, Inner, start):
    st = threading.Thread.start
    if not start:
        threading.Thread.start = lambda self: None
    try:
        return StreamWriter(dataset="lake/{p}" if case.get("place", True) else "lake/q", partitions=None, date="2021-01-01", schema=False, format="jsonl",
                            inner_writer=Inner, blob_size=case.get("size", 10**6), idle_timeout_seconds=case["idle"], writer_pool_capacity=case["cap"])
    finally:
        threading.Thread.start = st


def check_stream(case):
    Inner = store()
    w = stream(case, Inner, False)
    acc, out, k, last = [], [], 0, {}
    w.writer_pool = Spy(w.writer_pool, acc)
    keep = []
    for op in case["ops"]:
        if op[0] == "app":
            w.append({"k": k, "p": op[1]})
            k += 1
            last[op[1] if case["place"] else ""] = CLOCK[0]
        elif op[0] == "tick":
            CLOCK[0] += op[1]
        else:
            def stop(s):
                w.run_pool_attendant = False

            SLEEP[0] = stop
            w.run_pool_attendant = True
            before = set(idents(w.writer_pool._p))
            w.pool_attendant()
            SLEEP[0] = None
            fresh = {i: t for i, t in last.items() if CLOCK[0] - t <= case["idle"]}
            want = max(len(fresh) - case["cap"], 0)
            want = len(fresh) - min(want, case["cap"])
            if len(idents(w.writer_pool._p)) != want:
                out.append(f"evict: the attendant left {idents(w.writer_pool._p)}, in use {fresh}, capacity {case['cap']}")
            last = {i: t for i, t in last.items() if any(x.rstrip("/").endswith("/" + i if i else "q") for x in idents(w.writer_pool._p))}
    w.finalize()
    if idents(w.writer_pool._p):
        out.append(f"open: finalise left {idents(w.writer_pool._p)} in the pool")
    got = sorted(r["k"] for n, b in Inner.log for r in decode("jsonl", b))
    if got != list(range(k)):
        out.append(f"lost: {k} records appended, stored {got}")
    common = None
    acc = [a for a in acc if a[0] != "_p"]
    for n, s in acc:
        common = s if common is None else common & s
    if acc and not common:
        out.append(f"lock: no lock is held at every access of the pool: {[(n, len(s)) for n, s in acc if not s][:6]}")
    return out


def check_threads(case):
    Inner = store()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        SLEEP[0] = lambda s: _real_sleep(0)
        w = stream(case, Inner, True)
        errs = []

        def work(t):
            r = random.Random(case["seed"] * 10 + t)
            for j in range(case["n"]):
                try:
                    w.append({"k": t * 1000 + j, "p": r.choice("abcd")})
                except Exception as e:
                    errs.append(repr(e))

        ts = [threading.Thread(target=work, args=(t,)) for t in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(20)
        w.finalize()
        w.thread.join(5)
    finally:
        sys.setswitchinterval(old)
        SLEEP[0] = None
    got = sorted(r["k"] for n, b in Inner.log for r in decode("jsonl", b))
    want = sorted(t * 1000 + j for t in range(3) for j in range(case["n"]))
    out = [f"threads: append raised {errs[:2]}"] if errs else []
    if got != want:
        out.append(f"threads: {len(want)} records appended by 3 threads, {len(got)} stored, missing {sorted(set(want) - set(got))[:5]}")
    return out
