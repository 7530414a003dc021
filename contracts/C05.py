"""C05: the stream writer pool never loses or duplicates a partition's open writer."""
from pyvc.spec import *

SPECS, spec = registry()
WP = "mabel.data.writers.internals.writer_pool.WriterPool"
BLOB = "mabel.data.writers.internals.blob_writer.BlobWriter"
SW = "mabel.data.writers.stream_writer.StreamWriter"


def sk(s):
    return V.str(z3.StringVal(s))


def ident(vm, w):
    return getd(vm, w, sk("identity"))


def entry(vm, w):
    """a pool's entry: an identity, its writer, and when it was last asked for"""
    la = at(vm, w, sk("last_access"))
    return z3.And(is_rec(w), has(vm, w, sk("identity")), V.is_str(ident(vm, w)), has(vm, w, sk("writer")), V.is_obj(at(vm, w, sk("writer"))),
                  z3.Not(ISDICT(at(vm, w, sk("writer")))), has(vm, w, sk("last_access")), V.is_int(la))


def named(vm, t, i):
    """the entries of a partition"""
    return filt(vm, t, lambda w: ident(vm, w) == i)


def others(vm, t, i):
    return filt(vm, t, lambda w: ident(vm, w) != i)


def split(vm, want):
    """a pool that has an entry of the partition, between others, or none (a partition has at most one)"""
    a = vm.fresh("before", SV)
    vm.every(a, lambda w: z3.And(entry(vm, w), ident(vm, w) != want))
    if not vm.choose("the partition has an open writer"):
        return a, a, None
    b, e = vm.fresh("behind", SV), vm.fresh("entry", V)
    vm.every(b, lambda w: z3.And(entry(vm, w), ident(vm, w) != want))
    vm.assume(z3.And(entry(vm, e), ident(vm, e) == want))
    return z3.Concat(a, z3.Unit(e), b), z3.Concat(a, b), e


def pool(vm, t=None):
    """a pool in any state; the log records what is committed, and the entries that are in the pool then"""
    if t is None:
        t = vm.fresh("writers", SV)
        vm.every(t, lambda w: entry(vm, w))
    p = PyObj(fn(vm, WP), {"writers": seqv(t), "pool_size": sint(vm, "pool_size", 0), "kwargs": PyDict((("format", "jsonl"),))})
    log = PyList(("items", ()))
    now = sint(vm, "now")
    vm.models["time.time"] = lambda vm, a, k: now

    def make(vm, c, a, k):
        vm.prove("a new writer is that of the partition", vm.to_V(k["dataset"]) == vm.want)
        w = sval(vm, "new_writer")
        vm.assume(z3.And(V.is_obj(w.t), z3.Not(ISDICT(w.t))))
        vm.append(log, ("new", w))
        return w

    vm.contracts[BLOB] = make
    vm.models["obj.commit"] = lambda vm, w, a, k: vm.append(log, ("commit", w, in_pool(vm, p)))
    return p, t, log, now


def in_pool(vm, p):
    return vm.seq_term(vm.getattr(p, "writers"), VAL)


@spec(WP + ".get_writer")
def get_writer(vm):
    i = sstr(vm, "identity")
    want = vm.want = V.str(i.t)
    t, rest, there = split(vm, want)
    p, t, log, now = pool(vm, t)
    if there is not None:
        w0 = at(vm, there, sk("writer"))
    kind, r = outcome(vm, vm.getattr(p, "get_writer"), i)
    vm.prove("a writer is given", kind == "ok")
    if kind != "ok":
        return
    after = in_pool(vm, p)
    if there is not None:
        vm.prove("the open writer of the partition is given", vm.to_V(r) == w0)
        vm.prove("no writer is opened", len(log.state[1]) == 0)
        vm.prove("no writer leaves the pool or enters it", after == t)
        vm.prove("the entry was last used now", at(vm, there, sk("last_access")) == V.int(now.t))
        vm.prove("the entry keeps its writer", z3.And(at(vm, there, sk("writer")) == w0, ident(vm, there) == want))
    else:
        vm.prove("one writer is opened", len(log.state[1]) == 1)
        vm.prove("it is the one that is given", vm.to_V(r) == vm.to_V(log.state[1][0][1]))
        vm.prove("one entry is added", z3.Length(after) == z3.Length(t) + 1)
        vm.prove("the others stay", z3.Extract(after, 0, z3.Length(t)) == t)
        e = after[z3.Length(t)]
        vm.prove("the entry is of the partition and its writer", z3.And(ident(vm, e) == want, at(vm, e, sk("writer")) == vm.to_V(r), at(vm, e, sk("last_access")) == V.int(now.t)))
        vm.prove("the partition has one writer", z3.Length(named(vm, after, want)) == 1)


@spec(WP + ".remove_writer")
def remove_writer(vm):
    i = sstr(vm, "identity")
    want = V.str(i.t)
    t, rest, there = split(vm, want)
    p, t, log, now = pool(vm, t)
    kind, r = outcome(vm, vm.getattr(p, "remove_writer"), i)
    vm.prove("it is removed without an error", kind == "ok")
    vm.prove("the writers of the other partitions stay, and no others", in_pool(vm, p) == rest)
    if there is not None:
        vm.prove("the removed writer is committed once", len(log.state[1]) == 1 and log.state[1][0][0] == "commit")
        if len(log.state[1]) == 1:
            vm.prove("it is that of the partition", vm.to_V(log.state[1][0][1]) == at(vm, there, sk("writer")))
    else:
        vm.prove("nothing is committed", len(log.state[1]) == 0)


@spec(WP + ".get_stale_writers")
def get_stale_writers(vm):
    p, t, log, now = pool(vm)
    limit = sint(vm, "idle_limit", 0)
    r = vm.call(vm.getattr(p, "get_stale_writers"), [limit], {})
    idle = filt(vm, t, lambda w: now.t - V.i(at(vm, w, sk("last_access"))) > limit.t)
    vm.prove("the writers that were idle for longer than the limit are nominated, and no others", vm.seq_term(r, VAL) == mapped(vm, idle, lambda w: z3.Unit(ident(vm, w))))
    vm.prove("nothing is committed or removed", z3.And(in_pool(vm, p) == t, z3.BoolVal(not log.state[1])))


@spec(WP + ".nominate_writers_to_evict")
def nominate(vm):
    p, t, log, now = pool(vm)
    size = vm.num(vm.getattr(p, "pool_size"), INT)
    OLDEST = ufun("oldest_first", SV, SV)

    def ordered(vm, a, k):
        e = vm.fresh("an_entry", V)
        vm.assume(entry(vm, e))
        key = vm.call(k["key"], [Sym(VAL, e)], {}) if k.get("key") is not None else Sym(VAL, e)
        vm.prove("writers are ordered by when they were last used", vm.to_V(key) == at(vm, e, sk("last_access")))
        vm.prove("the oldest first", k.get("reverse", False) is False)
        s = OLDEST(vm.seq_term(a[0], VAL))
        vm.assume(z3.Length(s) == z3.Length(vm.seq_term(a[0], VAL)))
        vm.every(s, lambda w: entry(vm, w))
        return seqv(s)

    vm.models["builtins.sorted"] = ordered
    n = z3.Length(t) - size if vm.branch(z3.Length(t) > size) else z3.IntVal(0)
    if vm.branch(n > size):
        n = size
    r = vm.call(vm.getattr(p, "nominate_writers_to_evict"), [], {})
    vm.prove("the least recently used writers in excess are nominated, never more than the capacity", vm.seq_term(r, VAL) == mapped(vm, z3.Extract(OLDEST(t), 0, n), lambda w: z3.Unit(ident(vm, w))))
    vm.prove("nothing is committed or removed", z3.And(in_pool(vm, p) == t, z3.BoolVal(not log.state[1])))


@spec(SW + ": shared lock")
def shared_lock(vm):
    """the pool is touched only under the shared lock; finalising removes every writer"""
    locks, uses, removed = [], [], PyList(("items", ()))

    def lock(vm, a, k):
        locks.append(PyObj(External("threading.Lock"), {"held": False}))
        return locks[-1]

    vm.models["threading.Lock"] = vm.models["threading.RLock"] = lock
    held = lambda: {id(l) for l in locks if l.state["held"] is True}

    def use(f):
        def g(vm, s, a, k):
            uses.append(held())
            return f(vm, s, a, k)

        return g

    t = vm.fresh("writers", SV)
    vm.every(t, lambda w: entry(vm, w))
    nominated, stale = vm.fresh("nominated", SV), vm.fresh("stale", SV)
    M = vm.models
    M["method:pool.get_writer"] = use(lambda vm, s, a, k: PyObj(External("blob_writer"), {}))
    M["method:blob_writer.append"] = use(lambda vm, s, a, k: 1)
    M["method:pool.get_stale_writers"] = use(lambda vm, s, a, k: (vm.prove("stale writers are those idle for the limit", a[0] is limit), seqv(stale))[1])
    M["method:pool.nominate_writers_to_evict"] = use(lambda vm, s, a, k: seqv(nominated))
    M["method:pool.remove_writer"] = use(lambda vm, s, a, k: vm.append(removed, Sym(VAL, vm.to_V(a[0]))))
    M["method:pool.close"] = use(lambda vm, s, a, k: vm.append(removed, "close"))
    M["attr:pool.writers"] = lambda vm, s: (uses.append(held()), seqv(t))[1]
    limit = sint(vm, "idle_timeout_seconds", 0)
    finals = PyList(("items", ()))
    vm.contracts["mabel.data.writers.writer.Writer.finalize"] = lambda vm, c, a, k: vm.append(finals, 1)
    vm.contracts["mabel.utils.text.sanitize"] = lambda vm, c, a, k: sstr(vm, "clean")
    vm.contracts["mabel.utils.paths.date_format"] = lambda vm, c, a, k: sstr(vm, "dated")
    M["str.replace"] = lambda vm, s, a, k: sstr(vm, "replaced")
    column = sstr(vm, "column")
    date = PyObj(External("datetime"), {})
    M["truth:datetime"] = lambda vm, o: True
    M["hasattr:dict"] = M["hasattr:dump_model"] = lambda vm, o: False

    def product(vm, a, k):
        c = vm.fresh("combinations", SV)
        vm.every(c, lambda v: z3.And(V.is_tup(v), z3.Length(V.t(v)) == 1))
        return PyIter(("seq", VAL, c))

    M["itertools.product"] = product
    w = PyObj(fn(vm, SW), {"writer_pool": PyObj(External("pool"), {}), "dataset_template": sstr(vm, "template"), "date": date, "schema": None,
                           "idle_timeout_seconds": limit, "writer_pool_capacity": sint(vm, "capacity", 0), "run_pool_attendant": True})

    def rest(vm, a, k):
        """the attendant is stopped while it rests"""
        vm.setattr(w, "run_pool_attendant", False)

    M["time.sleep"] = rest
    M["re.findall"] = lambda vm, a, k: PyList(("items", (column,) if many else ()))
    for which, many in (("append", False), ("append", True), ("pool_attendant", None), ("finalize", None)):
        vm.mut(removed, ("items", ()))
        kind, r = outcome(vm, vm.getattr(w, which), *([rec(vm, "record")] if which == "append" else []))
        vm.prove(which + " ends without an error", kind == "ok")
        vm.prove(which + " releases the lock", not held())
        gone = vm.seq_term(removed, VAL)
        if which == "append":
            vm.prove("appending removes no writer", gone == empty(SV))
        elif which == "pool_attendant":
            vm.prove("the attendant removes the stale writers, then those that are nominated", gone == z3.Concat(stale, nominated))
        else:
            vm.prove("finalising removes every writer that is open", gone == mapped(vm, t, lambda w: z3.Unit(ident(vm, w))))
            vm.prove("and finalises the stream", len(finals.state[1]) == 1)
    vm.prove("the pool is touched only under the shared lock", len(uses) > 0 and len(set.intersection(*uses)) > 0)
