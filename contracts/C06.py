"""C06: the database writer hands over every row exactly once, then finalises once.

The abstract state is what was handed over followed by what is buffered; appending adds a row at its end,
committing and finalising change nothing of it, and a refused batch changes nothing of it either.
"""
from pyvc.spec import *

SPECS, spec = registry()
DW = "mabel.data.writers.database_writer.DatabaseWriter"
BW = "mabel.adapters.database.base_database_writer.BaseDatabaseWriter"
SIZE = z3.Int("batch_size")  # the contracts hold for any batch size; the one that is set is at most 100


def writer(vm):
    """a database writer between two calls, in any state: at most a full batch is buffered (a refused one)"""
    frame = vm.module_frame("mabel.data.writers.database_writer")
    try:
        size = vm.lookup("BATCH_SIZE", frame)
    except PyExc:
        raise Unsupported("the batch size is not where it was")
    vm.prove("the batch size is at most 100", isinstance(size, int) and 1 <= size <= 100)
    vm.assume(SIZE >= 1)
    vm.setvar(frame, "BATCH_SIZE", Sym(INT, SIZE))
    runs = PyList(("items", ()))
    over = PyList(("seq", VAL, vm.fresh("handed", SV)))
    rows = vm.fresh("rows", SV)
    vm.assume(z3.Length(rows) <= SIZE)
    done = sbool(vm, "finalized")

    def commit(vm, closure, a, k):
        df = a[1] if len(a) > 1 else k["dataframe"]
        t = df_rows(vm, df)
        vm.prove("a batch has at least one row and at most the batch size", z3.And(z3.Length(t) >= 1, z3.Length(t) <= SIZE))
        if vm.choose("the batch is refused"):
            raise any_exception("refused")
        vm.mut(over, ("seq", VAL, z3.Concat(vm.seq_term(over, VAL), t)))

    vm.contracts[BW + ".commit"] = commit
    w = PyObj(fn(vm, DW))

    def finalizer(vm, o, a, k):
        vm.prove("the finaliser runs after every row was handed over", z3.Length(df_rows(vm, w.state["wal"])) == 0)
        vm.append(runs, 1)

    vm.models["call:finalizer"] = finalizer
    given = vm.choose("a finaliser is given")
    inner = PyObj(fn(vm, BW), {"finalizer": PyObj(External("finalizer"), {}) if given else None, "finalized": done, "logger": vm.external("orso.logging.get_logger"),
                               "dataset": sstr(vm, "dataset"), "engine": None})
    w.state = {"dataset": sstr(vm, "dataset"), "schema": PyObj(External("schema"), {}), "expectations": None, "finalized": False, "inner_writer": inner,
               "records": sint(vm, "records", 0), "records_in_buffer": Sym(INT, z3.Length(rows)),
               "wal": PyObj(External("orso.DataFrame"), {"rows": seqv(rows)})}
    return w, inner, over, runs, done, given


def held(vm, w, over):
    return z3.Concat(vm.seq_term(over, VAL), df_rows(vm, w.state["wal"]))


def buffered(vm, w):
    return z3.Length(df_rows(vm, w.state["wal"]))


def counted(vm, w):
    """between calls the counter of buffered rows is right; where that cannot be shown nothing is decided"""
    n = w.state.get("records_in_buffer")
    if not (isinstance(n, (int, Sym)) and vm.entails(vm.num(n, INT) == buffered(vm, w))):
        raise Unsupported("the counter of buffered rows is not known to be right between calls")


@spec(DW + ".append")
def append(vm):
    w, inner, over, runs, done, given = writer(vm)
    before = held(vm, w, over)
    r = sval(vm, "record")
    # a record of a class derived from BaseModel is converted first; dictionaries are not
    vm.assume(z3.And(V.is_obj(r.t), ISDICT(r.t), z3.Not(z3.Contains(ufun("typestr", V, S)(r.t), z3.StringVal("BaseModel")))))
    vm.models["hasattr:dict"] = vm.models["hasattr:model_dump"] = lambda vm, o: False
    kind, v = outcome(vm, vm.getattr(w, "append"), r)
    after = held(vm, w, over)
    if kind == "ok":
        vm.prove("an accepted row is added once, at the end", after == z3.Concat(before, z3.Unit(r.t)))
        vm.prove("a full batch was handed over", buffered(vm, w) < SIZE)
    else:
        vm.prove("a refusal loses and repeats nothing", z3.Or(after == before, after == z3.Concat(before, z3.Unit(r.t))))
    vm.prove("at most a full batch is buffered", buffered(vm, w) <= SIZE)
    counted(vm, w)
    vm.prove("appending does not finalise", not runs.state[1])


@spec(DW + ".commit")
def commit(vm):
    w, inner, over, runs, done, given = writer(vm)
    before, n = held(vm, w, over), buffered(vm, w)
    kind, v = outcome(vm, vm.getattr(w, "commit"))
    vm.prove("committing loses and repeats nothing", held(vm, w, over) == before)
    vm.prove("what is buffered was handed over, or stays buffered", buffered(vm, w) == (0 if kind == "ok" else n))
    counted(vm, w)
    vm.prove("committing does not finalise", not runs.state[1])


@spec(DW + ".finalize")
def finalize(vm):
    w, inner, over, runs, done, given = writer(vm)
    before, n = held(vm, w, over), buffered(vm, w)
    kind, v = outcome(vm, vm.getattr(w, "finalize"))
    vm.prove("finalising loses and repeats nothing", held(vm, w, over) == before)
    after = inner.state["finalized"]
    after = z3.BoolVal(after) if isinstance(after, bool) else vm.term(after, BOOL)
    ran = len(runs.state[1])
    counted(vm, w)
    vm.prove("the finaliser runs once at most", ran <= 1)
    if kind == "ok":
        vm.prove("every row was handed over", buffered(vm, w) == 0)
        vm.prove("the finaliser ran now exactly when it had not run", z3.BoolVal(ran == 1) == z3.And(z3.BoolVal(given), z3.Not(done.t)))
        vm.prove("it is known to have run", after)
    else:
        vm.prove("a refusal does not finalise", z3.And(z3.BoolVal(ran == 0), after == done.t))
        vm.prove("the refused rows stay buffered", buffered(vm, w) == n)


@spec(DW + ".__init__")
def created(vm):
    """a new writer has nothing buffered and was not finalised"""
    vm.contracts["mabel.data.validator.schema_loader"] = lambda vm, c, a, k: a[0]
    fin = PyObj(External("finalizer"), {})
    kind, w = outcome(vm, fn(vm, DW), schema=PyObj(External("schema"), {}), inner_writer=fn(vm, BW), dataset=sstr(vm, "dataset"), finalizer=fin)
    vm.prove("a writer is made", kind == "ok")
    if kind == "ok":
        inner = w.state["inner_writer"]
        vm.prove("nothing is buffered", buffered(vm, w) == 0)
        counted(vm, w)
        vm.prove("its inner writer has the finaliser", inner.state["finalizer"] is fin)
        vm.prove("which has not run", inner.state["finalized"] is False)
