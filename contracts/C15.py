"""C15: a select expression computes the named columns of each record independently."""
from pyvc.spec import *

SPECS, spec = registry()
IE = "mabel.data.readers.internals.inline_evaluator."
TL = "mabel.utils.token_labeler."
I, BS = z3.IntSort(), z3.BoolSort()
NAME, VALUE = ufun("name_of_column", V, V), ufun("value_of_column", V, V)
LABEL = ufun("label_of", I, S)
ARG = ufun("value_of_argument", I, V)
RESULT = ufun("result_of_function", S, SV, V)
SIMPLE = ["VARIABLE", "INTEGER", "LITERAL", "DATE", "FLOAT"]


def codes(vm):
    t = fn(vm, TL + "TOKENS")
    return {n: vm.getattr(t, n) for n in ("EVERYTHING", "FUNCTION", "AGGREGATOR", "BOOLEAN", "NULL", *SIMPLE)}


def token(kind, value, params=(), as_=None):
    return PyDict((("type", kind), ("value", value), ("parameters", PyList(("items", tuple(params)))), ("as", as_)))


def field(tok, k):
    return dict(tok.state)[k]


def mapping(vm, name):
    """an arbitrary dictionary"""
    has_, val = vm.fresh(name + "_has", z3.ArraySort(V, BS)), vm.fresh(name + "_values", z3.ArraySort(V, V))
    return PyDict(("map", VAL, VAL, has_, val)), has_, val


@spec(IE + "evaluate_field", name="fields_and_literals")
def fields_and_literals(vm):
    """a field is the value of the record, None when it is missing; a literal is what it is written as"""
    cs = codes(vm)
    DATEOF, INTOF, FLOATOF = (ufun(n, S, V) for n in ("date_of", "int_of", "float_of"))
    vm.models["builtins.int"] = lambda vm, a, k: Sym(VAL, INTOF(vm.term(a[0], STR)))
    vm.models["builtins.float"] = lambda vm, a, k: Sym(VAL, FLOATOF(vm.term(a[0], STR)))
    vm.contracts["mabel.utils.dates.parse_iso"] = lambda vm, c, a, k: Sym(VAL, DATEOF(vm.term(a[0], STR)))
    d = rec(vm)
    heap = (vm.HAS, vm.DICT)
    kinds = SIMPLE + ["BOOLEAN", "NULL", "EVERYTHING"]
    kind = kinds[pick(vm, "kind", len(kinds))]
    head, tail, body = vm.fresh("head", CHAR_SORT), vm.fresh("tail", S), vm.fresh("between_the_quotes", S)
    text = z3.Concat(z3.Unit(head), tail)
    inner = text
    if kind == "VARIABLE":
        tick = z3.StringVal("`")
        vm.assume(head != char_const("`"))
        vm.assume(z3.Not(z3.SuffixOf(tick, text)))
        if vm.choose("in backticks"):
            text = z3.Concat(tick, inner, tick)
    elif kind in ("LITERAL", "DATE"):
        q = z3.StringVal("'" if vm.choose("single quotes") else '"')
        text = z3.Concat(q, body, q)
    t = token(cs[kind], Sym(STR, text))
    k, r = outcome(vm, fn(vm, IE + "evaluate_field"), d, t)
    vm.prove("it has a value", k == "ok")
    if k != "ok":
        return
    name, value = (vm.to_V(vm.getitem(r, i)) for i in (0, 1))
    K = V.str(inner)
    if kind == "EVERYTHING":
        vm.prove("* stands for itself", z3.And(name == V.str(z3.StringVal("*")), value == name))
    else:
        vm.prove("it is named by how it is written", name == V.str(text))
        if kind == "VARIABLE":
            vm.prove("a field is the value of the record, None when it is missing", value == getd(vm, d.t, K))
        else:
            want = {"INTEGER": INTOF(text), "FLOAT": FLOATOF(text), "LITERAL": V.str(body), "DATE": DATEOF(body), "NULL": V.none,
                    "BOOLEAN": V.bool(UPPER(text) == z3.StringVal("TRUE"))}[kind]
            vm.prove(f"a literal ({kind.lower()}) is what it is written as", value == want)
    vm.prove("the record is as it was", z3.And(vm.HAS == heap[0], vm.DICT == heap[1]))
    vm.prove("the expression is as it was", field(t, "type") == cs[kind] and field(t, "as") is None and field(t, "value").t.eq(text))


@spec(IE + "evaluate_field", name="function_calls")
def function_calls(vm):
    """a call is the function applied to its evaluated arguments, for this record as for the ones before it"""
    cs = codes(vm)
    d = rec(vm)
    n = pick(vm, "arguments", 4)
    params = [PyObj(External("part"), {"i": i}) for i in range(n)]
    named = vm.choose("with AS")
    alias = sstr(vm, "alias")
    vm.assume(z3.Length(alias.t) > 0)
    value = sstr(vm, "function")
    t = token(cs["FUNCTION"], value, params, alias if named else None)
    label = vm.fresh("label", S)
    vm.contracts[IE + "get_function_name"] = lambda vm, c, a, k: Sym(STR, label)
    f = fn(vm, IE + "evaluate_field")

    def part(vm, c, a, k):
        if a[1] is t:
            return vm.run_closure(c, a, k)
        vm.prove("arguments are those of this record", vm.to_V(a[0]) == now.t)
        return (sstr(vm, "argument"), Sym(VAL, ARGOF(V.int(a[1].state["i"]), now.t)))

    ARGOF = ufun("value_of_argument", V, V, V)
    vm.contracts[IE + "evaluate_field"] = part

    def entry(vm, s, a):
        vm.prove("it is the function that is named, in whatever case", vm.term(a, STR) == UPPER(value.t))
        return py(lambda vm, *x: Sym(VAL, RESULT(vm.term(a, STR), vm.seq_term(("items", tuple(x)), VAL))))

    vm.models["getitem:functions"] = entry
    vm.module_get(IE[:-1], "FUNCTIONS")
    vm.setvar(vm.module_frame(IE[:-1]), "FUNCTIONS", PyObj(External("functions"), {}))
    other = rec(vm, "another_record")
    for i, now in enumerate([d, other]):
        k, r = outcome(vm, f, now, t)
        vm.prove("it has a value", k == "ok")
        if k != "ok":
            return
        args = z3.Concat(*[z3.Unit(ARGOF(V.int(j), now.t)) for j in range(n)]) if n > 1 else z3.Unit(ARGOF(V.int(z3.IntVal(0)), now.t)) if n else empty(SV)
        which = "the first record" if i == 0 else "a later record"
        vm.prove(f"the function is applied to its arguments, in order ({which})", vm.to_V(vm.getitem(r, 1)) == RESULT(UPPER(value.t), args))
        vm.prove(f"it is named by its AS, or by how it is written ({which})", vm.to_V(vm.getitem(r, 0)) == V.str(alias.t if named else label))


@spec(IE + "Evaluator.__call__")
def columns(vm):
    """each column has the value of the (last) token that names it; the other fields are kept with * and only then"""
    cs = codes(vm)
    tokens = records(vm, "tokens")
    kind = lambda x: at(vm, x, V.str(z3.StringVal("type")))
    vm.every(tokens, lambda x: z3.And(has(vm, x, V.str(z3.StringVal("type"))), V.is_int(kind(x))))
    d, has0, val0 = mapping(vm, "record")
    state0 = d.state
    vm.models["hasattr:as_dict"] = lambda vm, o: False
    heap = (vm.HAS, vm.DICT)

    def evaluated(vm, c, a, k):
        vm.prove("columns are of this record", a[0] is d)
        x = vm.to_V(a[1])
        return (Sym(VAL, NAME(x)), Sym(VAL, VALUE(x)))

    vm.contracts[IE + "evaluate_field"] = evaluated
    key = vm.fresh("column", V)
    values = lambda p: mapped(vm, p, lambda x: z3.If(NAME(x) == key, z3.Unit(VALUE(x)), empty(SV)))
    all_ = z3.Length(filt(vm, tokens, lambda x: kind(x) == V.int(cs["EVERYTHING"]))) > 0

    def claim(p, h, v, had, was):
        n = z3.Length(values(p))
        return z3.And(h == z3.Or(n > 0, had), z3.Implies(n > 0, z3.SuffixOf(z3.Unit(v), values(p))), z3.Implies(z3.And(n == 0, had), v == was))

    def tpl(vm, view):
        for name, loc, k, pre in view.locs("dict"):
            h0, v0 = vm.map_terms(pre, VAL, VAL)

            def f(g, loc=loc, h0=h0, v0=v0):
                h, v = vm.map_terms(view.get(loc), VAL, VAL)
                return claim(g.p, h[key], v[key], h0[key], v0[key])

            yield "columns so far", f

    vm.loop_templates = [tpl]
    e = PyObj(fn(vm, IE + "Evaluator"), {"tokens": seqv(tokens), "_iter": None})
    k, r = outcome(vm, e, d)
    vm.prove("a record is made", k == "ok" and isinstance(r, PyDict))
    if k != "ok" or not isinstance(r, PyDict):
        return
    h, v = vm.map_terms(r.state, VAL, VAL)
    n = z3.Length(values(tokens))
    vm.prove("a column is there when it is asked for, or with * when the record has it", h[key] == z3.Or(n > 0, z3.And(all_, has0[key])))
    vm.prove("a column that is asked for has the value of the last that names it", z3.Implies(n > 0, z3.SuffixOf(z3.Unit(v[key]), values(tokens))))
    vm.prove("with *, the other fields are as in the record", z3.Implies(z3.And(n == 0, all_, has0[key]), v[key] == val0[key]))
    vm.prove("the record is as it was", r is not d and d.state == state0 and z3.And(vm.HAS == heap[0], vm.DICT == heap[1]))


@spec(IE + "get_fields")
def get_fields(vm):
    """the columns of an expression are named in its order"""
    cs = codes(vm)
    tokens = records(vm, "tokens")
    g = lambda x, k: at(vm, x, V.str(z3.StringVal(k)))
    vm.every(tokens, lambda x: z3.And(*[has(vm, x, V.str(z3.StringVal(k))) for k in ("type", "value", "as")], V.is_int(g(x, "type")), V.is_str(g(x, "value")),
                                      z3.Or(V.is_none(g(x, "as")), z3.And(V.is_str(g(x, "as")), z3.Length(V.s(g(x, "as"))) > 0)),
                                      z3.Or(*[g(x, "type") == V.int(cs[k]) for k in ("EVERYTHING", "FUNCTION", "AGGREGATOR", *SIMPLE)])))
    LABELV = ufun("label_of_call", V, S)
    vm.contracts[IE + "get_function_name"] = lambda vm, c, a, k: Sym(STR, LABELV(vm.to_V(a[0])))
    r = vm.call(fn(vm, IE + "get_fields"), [seqv(tokens)], {})
    own = lambda x: z3.If(g(x, "type") == V.int(cs["EVERYTHING"]), V.str(z3.StringVal("*")),
                          z3.If(V.is_str(g(x, "as")), g(x, "as"), z3.If(z3.Or(g(x, "type") == V.int(cs["FUNCTION"]), g(x, "type") == V.int(cs["AGGREGATOR"])), V.str(LABELV(x)), g(x, "value"))))
    vm.prove("each column has its name, in order", items_of(vm, r, VAL) == mapped(vm, tokens, lambda x: z3.Unit(own(x))))


@spec(IE + "get_function_name")
def get_function_name(vm):
    """a call is named by its function and its arguments, nested calls included"""
    cs = codes(vm)
    n = pick(vm, "arguments", 3)
    vm.models["method:part.get"] = lambda vm, s, a, k: None
    params, want = [], []
    for i in range(n):
        v = sstr(vm, f"value{i}")
        kind = ["VARIABLE", "LITERAL", "FUNCTION"][pick(vm, f"kind{i}", 3)]
        params.append(token(cs[kind], v))
        want.append(z3.Concat(v.t, z3.StringVal("()")) if kind == "FUNCTION" else v.t)
    f = sstr(vm, "function")
    kind = "AGGREGATOR" if vm.choose("an aggregate") else "FUNCTION"
    r = vm.call(fn(vm, IE + "get_function_name"), [token(cs[kind], f, params)], {})
    parts = [f.t, z3.StringVal("(")]
    for i, w in enumerate(want):
        parts += ([z3.StringVal(",")] if i else []) + [w]
    vm.prove("a call is named by its function and arguments", vm.term(r, STR) == z3.Concat(*parts, z3.StringVal(")")))


# ------------------------------------------------------------------ functions
def function(vm, name):
    return vm.getitem(vm.module_get("mabel.data.readers.internals.inline_functions", "FUNCTIONS"), name)


@spec("mabel.data.readers.internals.inline_functions.FUNCTIONS", name="date_functions")
def date_functions(vm):
    """the parts of a date, or of the date a text reads as; of anything else, None"""
    parts = ("year", "month", "day", "hour", "minute", "second")

    def moment():
        m = {p: sint(vm, p, 0) for p in parts}
        vm.assume(z3.And(m["month"].t >= 1, m["month"].t <= 12))
        return PyObj(External("moment"), m)

    is_date = lambda c: getattr(c, "q", "") in ("datetime.date", "datetime.datetime")
    vm.models["isinstance"] = lambda vm, v, cls, sub: is_date(cls) if isinstance(v, PyObj) and getattr(v.cls, "q", "") == "moment" else None
    vm.models["truth:moment"] = lambda vm, s: True
    read = moment() if vm.choose("it reads as a date") else None
    vm.contracts["mabel.utils.dates.parse_iso"] = lambda vm, c, a, k: read
    vm.models["method:moment.date"] = lambda vm, s, a, k: PyObj(External("date part"), {"of": s})
    vm.models["method:moment.time"] = lambda vm, s, a, k: PyObj(External("time part"), {"of": s})
    what = pick(vm, "given", 3)
    given = [sstr(vm, "text"), moment(), None][what]
    m = [read, given, None][what]
    for name, p in (("YEAR", "year"), ("MONTH", "month"), ("DAY", "day"), ("HOUR", "hour"), ("MINUTE", "minute"), ("SECOND", "second"), ("QUARTER", None), ("DATE", "date part"), ("TIME", "time part")):
        k, r = outcome(vm, function(vm, name), given)
        if m is None:
            vm.prove(f"{name} of what is no date is None", k == "ok" and r is None)
        elif name in ("DATE", "TIME"):
            vm.prove(f"{name} is that of the date", k == "ok" and isinstance(r, PyObj) and r.cls.q == p and r.state["of"] is m)
        elif name == "QUARTER":
            mo = m.state["month"].t
            q = z3.If(mo <= 3, 1, z3.If(mo <= 6, 2, z3.If(mo <= 9, 3, 4)))
            vm.prove("QUARTER is that of its month", k == "ok" and vm.num(r, INT) == q)
        else:
            vm.prove(f"{name} is that of the date", k == "ok" and vm.num(r, INT) == m.state[p].t)


@spec("mabel.data.readers.internals.inline_functions.FUNCTIONS", name="text_functions")
def text_functions(vm):
    t, n, m = sstr(vm, "text"), sint(vm, "n", 0), sint(vm, "m", 0)
    call = lambda name, *a: vm.call(function(vm, name), list(a), {})
    length = z3.Length(t.t)
    vm.prove("LEFT is the beginning", vm.term(call("LEFT", t, n), STR) == z3.SubString(t.t, 0, n.t))
    vm.prove("MID is what begins at a position", vm.term(call("MID", t, n, m), STR) == z3.SubString(t.t, n.t, m.t))
    if vm.branch(z3.And(n.t > 0, n.t <= length)):
        vm.prove("RIGHT is the end", vm.term(call("RIGHT", t, n), STR) == z3.SubString(t.t, length - n.t, n.t))
    for f, of in (("UPPER", UPPER), ("UCASE", UPPER), ("LOWER", LOWER), ("LCASE", LOWER)):
        vm.prove(f"{f} changes the case", vm.term(call(f, t), STR) == of(t.t))
    vm.prove("LEN is the length", vm.num(call("LEN", t), INT) == length)
    vm.prove("STRING of a text is itself", vm.term(call("STRING", t), STR) == t.t)
    u = sstr(vm, "another")
    vm.prove("CONCAT puts texts together", vm.term(call("CONCAT", t, u, t), STR) == z3.Concat(t.t, u.t, t.t))
    v = sval(vm, "value")
    b = lambda x: z3.BoolVal(x) if isinstance(x := vm.truth_term(x), bool) else x
    vm.prove("ISNONE tells None", b(call("ISNONE", v)) == V.is_none(v.t))
    low, x, high = sint(vm, "low"), sint(vm, "x"), sint(vm, "high")
    vm.prove("BETWEEN leaves the ends out", b(call("BETWEEN", x, low, high)) == z3.And(low.t < x.t, x.t < high.t))
    vm.prove("BOOLEAN is false of false only", b(call("BOOLEAN", t)) == (UPPER(t.t) != z3.StringVal("FALSE")))
    for f in ("INTEGER", "DOUBLE", "TRUNC"):
        vm.prove(f"{f} of None is None", call(f, None) is None)
