"""C03: what the schema rejects never reaches the dataset."""
from contracts.wr import *

SPECS, spec = registry()
WR = "mabel.data.writers.writer.Writer"
SW = "mabel.data.writers.stream_writer.StreamWriter"
VALID = ufun("conforms", V, DV, HV, z3.BoolSort())
MEETS = ufun("meets_expectations", V, DV, HV, z3.BoolSort())


def schema(vm):
    """a schema: validate raises exactly when the record does not conform"""

    def validate(vm, s, a, k):
        if not vm.branch(VALID(*content(vm, a[0]))):
            raise PyExc(ValueError, ("schema",))
        return True

    vm.models["method:schema.validate"] = validate
    return PyObj(External("schema"), {})


def setup(vm):
    g = ghost()

    def append(vm, s, a, k):
        if vm.choose("the store refuses"):
            raise any_exception("refused")
        vm.append(g, (s.state["identity"], a[0], content(vm, a[0])))
        return sint(vm, "in_buffer", 0)

    vm.models["method:blobs.append"] = append

    def evaluate(vm, a, k):
        if not vm.branch(MEETS(*content(vm, a[1]))):
            raise PyExc(ValueError, ("expectation",))

    vm.models["data_expectations.evaluate_record"] = evaluate
    r = rec(vm)
    # a record of a class derived from BaseModel is converted first; dictionaries are not
    vm.assume(z3.Not(z3.Contains(ufun("typestr", V, S)(r.t), z3.StringVal("BaseModel"))))
    vm.models["hasattr:dict"] = vm.models["hasattr:model_dump"] = vm.models["hasattr:dump_model"] = lambda vm, o: False
    vm.assumptions.add("records are dictionaries; pydantic models are converted to one by their own method first")
    return g, r


@spec(WR + ".append")
def batch_append(vm):
    g, r = setup(vm)
    has_schema, has_exp = vm.choose("schema"), vm.choose("expectations")
    w = PyObj(fn(vm, WR), {"schema": schema(vm) if has_schema else False, "expectations": PyObj(External("expectations"), {}) if has_exp else None,
                           "records": sint(vm, "records", 0), "blob_writer": PyObj(External("blobs"), {"identity": None})})
    c0, n0 = content(vm, r), w.state["records"].t
    kind, v = outcome(vm, vm.getattr(w, "append"), r)
    ev = g.state[1]
    n = vm.num(w.state["records"], INT)
    ok = VALID(*c0) if has_schema else z3.BoolVal(True)
    if kind == "ok":
        vm.prove("what is accepted conforms", ok)
        vm.prove("an accepted record is buffered once", len(ev) == 1)
        vm.prove("and counted once", n == n0 + 1)
    else:
        vm.prove("what is refused is not counted", n == n0)
        vm.prove("what is refused is not buffered", len(ev) == 0)
        meets = MEETS(*c0) if has_exp else z3.BoolVal(True)
        vm.prove("a conforming record is refused only by an expectation or the store", z3.Or(z3.Not(ok), z3.Not(meets), v.cls == ANY_EXCEPTION))
    for i, x, c in ev:
        vm.prove("nothing that does not conform is buffered", ok)
        vm.prove("the record is buffered unchanged", z3.And(vm.to_V(x) == r.t, *[p == q for p, q in zip(c, c0)]))


def pool(vm, identities=None):
    """contract of WriterPool.get_writer, verified in C05: the open writer of that partition"""

    def get(vm, s, a, k):
        return PyObj(External("blobs"), {"identity": a[0]})

    vm.models["method:pool.get_writer"] = get
    return PyObj(External("pool"), {})


DATEFMT = ufun("date_format", S, V, S)


def stream_writer(vm, sch):
    vm.contracts["mabel.utils.paths.date_format"] = lambda vm, c, a, k: Sym(STR, DATEFMT(vm.term(a[0], STR), vm.to_V(a[1])))
    now = PyObj(External("dt"), {"__term__": vm.fresh("now", V)})
    vm.models["datetime.datetime.utcnow"] = lambda vm, a, k: now
    d = sval(vm, "date") if vm.choose("date") else None
    if d is not None:
        vm.assume(vm.truth_term(d))
    w = PyObj(fn(vm, SW), {"schema": sch, "dataset_template": sstr(vm, "dataset_template"), "date": d, "writer_pool": pool(vm), "expectations": None, "records": 0})
    ident = DATEFMT(w.state["dataset_template"].t, vm.to_V(d if d is not None else now))
    return w, ident


@spec(SW + ".append")
def stream_append(vm):
    """paths without column placeholders; C04 covers the others"""
    g, r = setup(vm)
    has_schema = vm.choose("schema")
    w, ident = stream_writer(vm, schema(vm) if has_schema else False)
    vm.models["re.findall"] = lambda vm, a, k: PyList(("items", ()))
    c0 = content(vm, r)
    kind, v = outcome(vm, vm.getattr(w, "append"), r)
    ev = g.state[1]
    ok = VALID(*c0) if has_schema else z3.BoolVal(True)
    if kind == "ok":
        vm.prove("the record is written once", len(ev) == 1)
    else:
        vm.prove("only the store can refuse it", v.cls == ANY_EXCEPTION)
    for i, x, c in ev:
        it = vm.term(i, STR)
        vm.prove("a conforming record goes to the dataset's own path", z3.Implies(ok, it == ident))
        vm.prove("a rejected record goes under BACKOUT", z3.Implies(z3.Not(ok), it == z3.Concat(ident, z3.StringVal("/BACKOUT/"))))
        vm.prove("the record is written unchanged", z3.And(vm.to_V(x) == r.t, *[p == q for p, q in zip(c, c0)]))


@spec(BLOB + ".__init__")
def blob_init(vm):
    """a blob writer's append is the one its format calls for"""
    vm.contracts["mabel.data.validator.schema_loader"] = lambda vm, c, a, k: False
    made = []
    vm.models["Inner"] = lambda vm, a, k: made.append(k) or PyObj(External("inner"), {})
    fmt = sstr(vm, "format")
    kind, b = outcome(vm, fn(vm, BLOB), inner_writer=External("Inner"), format=fmt, schema=False, blob_size=sint(vm, "size", 0), dataset=sstr(vm, "dataset"))
    if kind == "exc":
        vm.prove("only an unknown format is refused", z3.And(*[fmt.t != z3.StringVal(x) for x in ("jsonl", "zstd", "parquet", "text", "flat")]))
        return
    f = b.state["append"]
    name = f.fn.name if isinstance(f, Bound) else None
    want = z3.If(fmt.t == z3.StringVal("parquet"), z3.BoolVal(name == "arrow_append"), z3.BoolVal(name == "text_append"))
    vm.prove("the append of the format is used", want)
    vm.prove("a new writer counts nothing", vm.num(b.state["records_in_buffer"], INT) == 0)
