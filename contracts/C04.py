"""C04: a streamed record is written once to each combination of its partition values."""
from pyvc.spec import *

SPECS, spec = registry()
SW = "mabel.data.writers.stream_writer.StreamWriter"
TX = "mabel.utils.text.sanitize"
PT = "mabel.utils.paths.date_format"
CLEAN = ufun("sanitized", STR.sort, STR.sort)
DATED = ufun("dated", STR.sort, STR.sort)
TEXT = ufun("text_of", V, STR.sort)
REPLACED = ufun("replaced", STR.sort, STR.sort, STR.sort, STR.sort)


@spec(TX)
def sanitize(vm):
    """only letters, digits and whitespace stay, in their order"""
    t = sstr(vm, "text")
    r = vm.call(fn(vm, TX), [t], {})
    between = lambda c, a, b: z3.And(z3.CharToInt(c) >= ord(a), z3.CharToInt(c) <= ord(b)) if hasattr(z3, "CharToInt") else z3.And(c.to_int() >= ord(a), c.to_int() <= ord(b))
    keep = lambda c: z3.Or(between(c, "a", "z"), between(c, "A", "Z"), between(c, "0", "9"), *[c == char_const(w) for w in " \t\n\r\x0b\x0c"])
    vm.prove("only letters, digits and whitespace stay, in their order", vm.term(r, STR) == filt(vm, t.t, keep))


def check_append(vm, n):
    """a record appended to a stream whose path has n column placeholders"""
    log = PyList(("items", ()))
    names = [sstr(vm, f"column{i}") for i in range(n)]
    vm.assume(z3.Distinct(*[c.t for c in names]) if n > 1 else z3.BoolVal(True))
    vm.models["re.findall"] = lambda vm, a, k: PyList(("items", tuple(names)))
    vm.assumptions.add("re.findall gives the names between braces; itertools.product gives each combination of a value of each list; a set of them holds each once, and is iterated in the same order each time")
    vm.contracts[TX] = lambda vm, c, a, k: Sym(STR, CLEAN(vm.term(a[0], STR)))
    date, today = PyObj(External("datetime"), {}), PyObj(External("datetime"), {})
    vm.models["truth:datetime"] = lambda vm, o: True
    vm.models["datetime.datetime.utcnow"] = lambda vm, a, k: today
    dated = vm.choose("the stream has a date")

    def format_date(vm, c, a, k):
        vm.prove("the date is that of the stream, or today's", a[1] is (date if dated else today))
        return Sym(STR, DATED(vm.term(a[0], STR)))

    vm.contracts[PT] = format_date

    def product(vm, a, k):
        """all the combinations of a value of each"""
        ts = [vm.seq_term(vm.iter_state(vm.narrow(x)), VAL) for x in a]
        c = vm.fresh("combinations", SV)
        vm.every(c, lambda v: z3.And(V.is_tup(v), z3.Length(V.t(v)) == len(ts)))
        asked.append(ts)
        made.append(c)
        return PyIter(("seq", VAL, c))

    asked, made = [], []

    vm.models["itertools.product"] = product
    vm.models["builtins.str"] = lambda vm, a, k: Sym(STR, TEXT(vm.to_V(a[0])))
    vm.models["str.replace"] = lambda vm, s, a, k: Sym(STR, REPLACED(vm.term(s, STR), vm.term(a[0], STR), vm.term(a[1], STR)))
    template, record = sstr(vm, "template"), rec(vm, "record")
    vm.models["hasattr:dict"] = vm.models["hasattr:dump_model"] = lambda vm, o: False

    def validate(vm, s, a, k):
        if vm.choose("the record does not fit the schema"):
            refused.append(1)
            raise PyExc(ValueError, ("schema",))

    refused = []
    vm.models["method:schema.validate"] = validate
    schema = PyObj(External("schema"), {}) if n <= 1 and vm.choose("a schema") else None

    def get_writer(vm, s, a, k):
        return PyObj(External("blob_writer"), {"path": a[0]})

    def append(vm, s, a, k):
        vm.prove("what is written is the record", vm.to_V(a[0]) == record.t)
        vm.append(log, s.state["path"])
        return 1

    vm.models["method:pool.get_writer"] = get_writer
    vm.models["method:blob_writer.append"] = append
    w = PyObj(fn(vm, SW), {"writer_pool": PyObj(External("pool"), {}), "dataset_template": template, "date": date if dated else None, "schema": schema})
    kind, r = outcome(vm, vm.getattr(w, "append"), record)
    vm.prove("the record is accepted", kind == "ok")
    if kind != "ok":
        return
    start = DATED(template.t)
    if refused:
        # kept apart from the data
        start = z3.Concat(start, z3.StringVal("/BACKOUT/"))
    if n == 0:
        vm.prove("a path without placeholders gets the record once", vm.seq_term(log, STR) == z3.Unit(start))
        return
    values = []
    for c in names:
        v = getd(vm, record.t, V.str(c.t))
        values.append(z3.If(V.is_list(v), V.l(v), z3.Unit(v)))
    text = lambda v: CLEAN(TEXT(v))
    put = lambda p, c, v: REPLACED(p, z3.Concat(z3.StringVal("{"), c.t, z3.StringVal("}")), text(v))
    if not made:
        raise Unsupported("the combinations are not made by itertools.product")
    vm.prove("the combinations are those of the record's values", z3.And(z3.BoolVal(len(made) == 1), *[a == b for a, b in zip(asked[0], values)]))
    combinations = apply_uniq(vm, made[0])

    def path(c):
        p = start
        for i, name in enumerate(names):
            p = put(p, name, V.t(c)[i])
        return z3.Unit(p)

    want = mapped(vm, combinations, path)
    vm.prove("each combination of values is written once, to its path", vm.seq_term(log, STR) == want)
    vm.prove("the copies are counted", vm.num(r, INT) == z3.Length(want))


def apply_uniq(vm, t):
    return vm.seq_term(vm.iter_state(vm.call(vm.external("builtins.set"), [seqv(t)], {})), VAL)


for _n in (0, 1, 2, 3):
    spec(SW + ".append", name=f"append_{_n}_placeholders")(lambda vm, n=_n: check_append(vm, n))
