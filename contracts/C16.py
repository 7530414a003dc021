"""C16: the clauses of a SELECT statement are applied in SQL's order."""
from pyvc.spec import *

SPECS, spec = registry()
SQ = "mabel.data.readers.internals.sql_reader."
IE = "mabel.data.readers.internals.inline_evaluator."
TL = "mabel.utils.token_labeler."
# what each clause makes of the records it is given; the contracts of what implements them
READ = ufun("read", V, V, V, V, V)
EVAL = ufun("evaluated", V, V, V)
WHERE = ufun("filtered", V, V, V)
GROUP = ufun("grouped", V, V, V, V)
GROUPS = ufun("groups", V, V, V)
RENAME = ufun("renamed", V, V, V)
SELECT = ufun("selected", V, V, V)
DISTINCT = ufun("distinct", V, V)
SORT = ufun("sorted_and_taken", V, V, z3.IntSort(), V, V)
TAKE = ufun("taken", V, z3.IntSort(), V)
NOTHING = z3.Const("no_records", V)
QUERY = ufun("result_of", V, V, V)


def data(t):
    return PyObj(External("Data"), {"t": t})


def rows(t):
    return PyObj(External("Rows"), {"t": t})


def taken(vm, t, n):
    """the first n records, with what is so of those of a sorted sequence"""
    r = TAKE(t, n)
    vm.assume(z3.Implies(n == 0, r == NOTHING))
    if t.decl().eq(SORT(t, V.none, n, V.none).decl()):
        x, c, m, d = t.children()
        vm.assume(z3.Implies(m >= n, r == SORT(x, c, n, d)))
        vm.assume(z3.Implies(n == 0, SORT(x, c, n, d) == NOTHING))
    return r


def renaming(vm, f, names, columns):
    """what the function mapped over the rows does to one: of any row with some of the columns"""
    present = [c for c in columns if vm.choose(f"the row has {c}")]
    row = {c: sval(vm, "cell") for c in present}
    want = dict(row)
    for old, new in names:
        if old in row:
            want[new] = row[old]
    r = vm.call(f, [PyDict(tuple(row.items()))], {})
    if not isinstance(r, PyDict) or not isinstance(r.state, tuple):
        raise Unsupported("a row of another form")
    got = dict(r.state)
    vm.prove("a renamed column is there under its name, and the others stay", set(got) == set(want))
    if set(got) == set(want):
        for c in want:
            vm.prove("a renamed column holds what the column did", vm.to_V(got[c]) == vm.to_V(want[c]))


def stage(vm, sql, names, columns):
    """contracts for what the reader is made of"""
    vm.contracts[SQ + "SqlParser"] = lambda vm, c, a, k: sql
    vm.contracts["mabel.data.readers.reader.Reader"] = lambda vm, c, a, k: read(vm, a, k)
    vm.contracts[SQ + "SqlReader"] = lambda vm, c, a, k: data(QUERY(vm.to_V(a[0] if a else k.pop("sql_statement")), given(vm, k)))
    vm.contracts[IE + "Evaluator"] = lambda vm, c, a, k: PyObj(External("Evaluator"), {"select": vm.to_V(a[0])})

    def given(vm, k):
        return vm.to_V(tuple(x for n in sorted(k) for x in (n, k[n])))

    def read(vm, a, k):
        if a or not {"select", "dataset", "filters"} <= set(k):
            raise Unsupported("another call of the reader")
        s, d, w = (vm.to_V(k.pop(n)) for n in ("select", "dataset", "filters"))
        return data(READ(s, d, w, given(vm, k)))

    def make(vm, c, a, k):
        if k or len(a) != 1 or not isinstance(a[0], PyObj) or getattr(a[0].cls, "q", "") not in ("Rows", "Data"):
            raise Unsupported("a data set of something else")
        return data(a[0].state["t"])

    vm.contracts["mabel.data.internals.dictset.DictSet"] = make

    def grouped(vm, c, a, k):
        return PyObj(External("Groups"), {"t": a[0].state["t"], "by": vm.to_V(a[1])})

    vm.contracts["mabel.data.internals.group_by.GroupBy"] = grouped
    vm.models["method:Groups.aggregate"] = lambda vm, s, a, k: rows(GROUP(s.state["t"], s.state["by"], vm.to_V(a[0])))
    vm.models["method:Groups.groups"] = lambda vm, s, a, k: rows(GROUPS(s.state["t"], s.state["by"]))

    def map_(vm, a, k):
        f, d = a
        if not isinstance(d, PyObj) or getattr(d.cls, "q", "") not in ("Rows", "Data"):
            raise Unsupported("a map over something else")
        if isinstance(f, PyObj) and getattr(f.cls, "q", "") == "Evaluator":
            return rows(EVAL(d.state["t"], f.state["select"]))
        if not isinstance(f, Closure):
            raise Unsupported("a map of something else")
        done = vm.__dict__.setdefault("renamings", set())
        if f.qual not in done:
            # of whatever row: once is enough
            done.add(f.qual)
            vm.sub_explore(lambda: renaming(vm, f, names, columns))
        return rows(RENAME(d.state["t"], vm.to_V(tuple(x for p in names for x in p))))

    vm.models["builtins.map"] = map_
    m = vm.models
    m["method:Data.filter"] = lambda vm, s, a, k: data(WHERE(s.state["t"], vm.to_V(a[0] if a else k["filters"])))
    m["method:Data.select"] = m["method:Data.project"] = lambda vm, s, a, k: data(SELECT(s.state["t"], vm.to_V(a[0] if a else k["columns"])))
    m["method:Data.distinct"] = lambda vm, s, a, k: data(DISTINCT(s.state["t"]))
    m["method:Data.take"] = lambda vm, s, a, k: data(taken(vm, s.state["t"], vm.num(a[0] if a else k["items"], INT)))

    def sort(vm, s, a, k):
        v = dict(zip(("column", "take", "descending"), a), **k)
        return rows(SORT(s.state["t"], vm.to_V(v["column"]), vm.num(v.get("take", 5000), INT), vm.to_V(v.get("descending", False))))

    m["method:Data.sort_and_take"] = sort
    return given


VAR, AGG, FUN, ALL = "VARIABLE", "AGGREGATOR", "FUNCTION", "EVERYTHING"


def token(vm, kind, value, as_=None, parameters=()):
    ty = vm.getattr(fn(vm, TL + "TOKENS"), kind)
    return PyDict((("type", ty), ("value", value), ("parameters", PyList(("items", tuple(parameters)))), ("as", as_)))


def shapes(vm):
    """select expressions: text, tokens, output columns, renames (column, name), aggregations"""
    v = lambda n, a=None: token(vm, VAR, n, a)
    g = lambda n, c, a=None: token(vm, AGG, n, a, [v(c)])
    return {
        "columns": ("a, b", [v("a"), v("b")], ["a", "b"], [], []),
        "renamed": ("a AS x, b", [v("a", "x"), v("b")], ["x", "b"], [("a", "x")], []),
        "swapped": ("a AS b, b AS a", [v("a", "b"), v("b", "a")], ["b", "a"], [("a", "b"), ("b", "a")], []),
        "function": ("UPPER(a) AS x", [token(vm, FUN, "UPPER", "x", [v("a")])], ["x"], [("UPPER(a)", "x")], []),
        "everything": ("*", [token(vm, ALL, "*")], ["*"], [], []),
        "aggregate": ("a, SUM(b)", [v("a"), g("SUM", "b")], ["a", "SUM(b)"], [], [("SUM", "b")]),
        "aggregates": ("MAX(a) AS m, MAX(b)", [g("MAX", "a", "m"), g("MAX", "b")], ["m", "MAX(b)"], [("MAX(a)", "m")], [("MAX", "a"), ("MAX", "b")]),
        "groups": ("a", [v("a")], ["a"], [], []),
    }


def strings(vm, l):
    return vm.to_V(PyList(("items", tuple(l))))


def statement(shape, sub):
    def f(vm):
        g = fn(vm, SQ + "SqlReader")
        text, tokens, fields, names, aggs = shapes(vm)[shape]
        optional = lambda n: sstr(vm, n) if vm.choose(f"has {n}") else None
        where, having, order = (optional(n) for n in ("where", "having", "order_by"))
        for s in (where, having, order):
            if s is not None:
                vm.assume(z3.Length(s.t) > 0)
        limit = sint(vm, "limit", 0) if vm.choose("has limit") else None
        distinct, desc = vm.choose("distinct"), sbool(vm, "descending")
        by = (["a", "a, b"][pick(vm, "grouping", 2)]) if shape in ("groups", "aggregate") or (shape == "aggregates" and vm.choose("grouped")) else None
        dataset = PyList(("items", ("SELECT", " ", "*", " FROM ", "inner"))) if sub else sstr(vm, "dataset")
        option = sval(vm, "option")
        ev = PyObj(External("SelectEvaluator"), {"tokens": PyList(("items", tuple(tokens)))})
        vm.models["attr:SelectEvaluator.tokens"] = lambda vm, o: o.state["tokens"]
        vm.models["method:SelectEvaluator.fields"] = lambda vm, s, a, k: PyList(("items", tuple(fields)))
        sql = PyObj(External("Statement"), {
            "select_expression": text, "distinct": distinct, "dataset": dataset, "where_expression": where, "group_by": by,
            "having": having, "order_by": order, "order_descending": desc, "limit": limit, "select_evaluator": ev})
        vm.models["repr:Statement"] = lambda vm, s: "statement"
        given = stage(vm, sql, names, sorted({c for p in names for c in p} | {"other"}))
        r = vm.run_closure(g, [sstr(vm, "statement")], {"option": option})
        if not isinstance(r, PyObj) or getattr(r.cls, "q", "") not in ("Data", "Rows"):
            raise Unsupported("a result of another form")

        none = V.none
        v = lambda x: none if x is None else vm.to_V(x)
        all_ = "*" if text == "*" else text + ", *"
        kw = given(vm, {"option": option})
        if sub:
            want = QUERY(V.str(z3.StringVal("SELECT * FROM inner")), kw)
            want = want if all_ == "*" else EVAL(want, v(all_))
            want = want if where is None else WHERE(want, v(where))
        else:
            want = READ(v(all_), v(dataset), v(where), kw)
        if by is not None or aggs:
            cols = strings(vm, [c.strip() for c in by.split(",")] if by else ["*"])
            want = GROUP(want, cols, strings(vm, aggs)) if aggs else GROUPS(want, cols)
        if having is not None:
            want = WHERE(want, v(having))
        if names:
            want = RENAME(want, v(tuple(x for p in names for x in p)))
        want = SELECT(want, strings(vm, fields))
        if distinct:
            want = DISTINCT(want)
        if order is not None:
            want = SORT(want, v(order), z3.IntVal(10000) if limit is None else limit.t, v(desc))
        if limit is not None:
            want = taken(vm, want, limit.t)
        vm.prove("read, filtered, grouped, filtered by HAVING, renamed and projected, made distinct, ordered, cut", r.state["t"] == want)

    return f


for shape in ("columns", "renamed", "swapped", "function", "everything", "aggregate", "aggregates", "groups"):
    for sub in (False, True):
        spec(SQ + "SqlReader", name=f"statement_{shape}{'_of_subquery' if sub else ''}", budget=200)(statement(shape, sub))
