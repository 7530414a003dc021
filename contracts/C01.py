"""C01: the completion marker is stored only when all of the frame's data is."""
from contracts.wr import *
from contracts import C02

SPECS, spec = registry()
BW = "mabel.data.writers.batch_writer.BatchWriter"
WR = "mabel.data.writers.writer.Writer"


def batch_writer(vm):
    g = ghost()
    inn = inner(vm, g)
    d = DIRNAME(inn.state["filename"].t)
    vm.assume(z3.And(z3.Length(d) > 0, z3.Not(z3.SuffixOf(z3.StringVal("/"), d))))
    blob = PyObj(fn(vm, BLOB), {"inner_writer": inn, "format": "jsonl"})

    def commit(vm, c, a, k):
        """contract of BlobWriter.commit, verified in C02: it raises, or everything pending is stored"""
        if vm.choose("a blob is refused"):
            raise any_exception("refused")
        vm.append(g, ("blobs", None))
        return sstr(vm, "blob_name")

    vm.contracts[BLOB + ".commit"] = commit
    w = PyObj(fn(vm, BW))
    w.state = {"blob_writer": blob, "seen_failures": sbool(vm, "seen_failures"), "records": sint(vm, "records", 0),
               "always_complete": sval(vm, "always_complete"), "finalized": sbool(vm, "finalized"), "dataset": sstr(vm, "dataset")}
    return w, g, inn


def tt(vm, v):
    t = vm.truth_term(v)
    return z3.BoolVal(t) if isinstance(t, bool) else t


@spec(BW + ".finalize", WR + ".finalize")
def finalize(vm):
    w, g, inn = batch_writer(vm)
    kw = {}
    hf = z3.BoolVal(False)
    if vm.choose("has_failure given"):
        kw["has_failure"] = sval(vm, "has_failure")
        hf = tt(vm, kw["has_failure"])
    seen, n, ac = w.state["seen_failures"].t, w.state["records"].t, tt(vm, w.state["always_complete"])
    kind, v = outcome(vm, vm.getattr(w, "finalize"), **kw)
    ev = g.state[1]
    marks = [i for i, e in enumerate(ev) if e[0] != "blobs"]
    vm.prove("a reported failure is remembered, however the call ends", tt(vm, w.state["seen_failures"]) == z3.Or(seen, hf))
    for i in marks:
        data, name = ev[i]
        vm.prove("the marker comes after the frame's data", any(e[0] == "blobs" for e in ev[:i]))
        vm.prove("nothing is stored after the marker", i == len(ev) - 1)
        vm.prove("no marker after a failure", z3.And(z3.Not(seen), z3.Not(hf)))
        vm.prove("no marker without a record, unless told to always complete", z3.Or(n > 0, ac))
        vm.prove("the marker is in the frame's folder", vm.term(name, STR) == z3.Concat(DIRNAME(inn.state["filename"].t), z3.StringVal("/frame.complete")))
        vm.prove("the marker is empty", vm.term(bytes_of(vm, data), BYTES) == z3.StringVal(""))
    if kind == "ok" and not marks:
        vm.prove("a call that returns normally has stored the marker otherwise", z3.Or(seen, hf, z3.And(n == 0, z3.Not(ac))))
    elif kind == "exc":
        vm.prove("only a refusal by the store makes it raise", v.cls == ANY_EXCEPTION)
    vm.prove("the writer's counters are kept", z3.And(vm.num(w.state["records"], INT) == n, tt(vm, w.state["always_complete"]) == ac))


@spec(BW + ".__init__")
def initial(vm):
    """a new writer has seen no failure and counts no record"""
    made = []

    def mk(vm, c, a, k):
        o = PyObj(fn(vm, BLOB), {"inner_writer": PyObj(External("inner"), {"filename": sstr(vm, "filename")}), "dataset": k.get("dataset")})
        made.append(o)
        return o

    vm.contracts[BLOB] = mk
    sch = PyObj(External("schema"), {})

    def super_init(vm, c, a, k):
        """contract of Writer.__init__ (verified in C07): it refuses a missing schema, or counts no record"""
        if vm.choose("refused"):
            raise PyExc(ValueError, ("schema",))
        for n, v in {"schema": sch, "records": 0, "finalized": False, "expectations": None, "batch_date": sval(vm, "batch_date"), "dataset": k.get("dataset")}.items():
            vm.setattr(a[0], n, v)

    vm.contracts[WR + ".__init__"] = super_init
    vm.contracts["mabel.utils.paths.build_path"] = lambda vm, c, a, k: Sym(STR, ufun("build_path", S, V, S)(vm.term(a[0], STR), vm.to_V(a[1])))
    vm.contracts[WR + "._get_writer_date"] = lambda vm, c, a, k: sval(vm, "date")
    vm.models["datetime.datetime.utcnow"] = lambda vm, a, k: PyObj(External("dt"), {})
    vm.models["method:dt.strftime"] = lambda vm, s, a, k: sstr(vm, "as_at")
    vm.models["orjson.dumps"] = lambda vm, a, k: b""
    ac = sval(vm, "always_complete")
    kw = {"dataset": sstr(vm, "dataset"), "always_complete": ac, "format": sstr(vm, "format"), "schema": sval(vm, "schema"), "inner_writer": PyObj(External("cls"), {"__name__": "I"})}
    if vm.choose("frame given"):
        kw["frame_id"] = sstr(vm, "frame_id")
    kind, w = outcome(vm, fn(vm, BW), **kw)
    if kind == "ok":
        vm.prove("a new writer has seen no failure", z3.Not(tt(vm, w.state["seen_failures"])))
        vm.prove("and counts no record", vm.num(vm.getattr(w, "records"), INT) == 0)
        vm.prove("always_complete is kept", tt(vm, w.state["always_complete"]) == tt(vm, ac))
        vm.prove("the blobs go to the frame's folder", vm.term(w.state["blob_writer"].state["dataset"], STR) == vm.term(w.state["dataset"], STR))
    else:
        vm.prove("only a missing schema is refused", v_is(w, ValueError))


def v_is(e, cls):
    return e.cls is cls


# what "stored" means for the pending records: the contract of BlobWriter.commit
for _f in ("jsonl", "zstd", "parquet", "text", "flat"):
    spec(BLOB + ".commit", name="commit_" + _f)(lambda vm, f=_f: C02.check_commit(vm, f))
