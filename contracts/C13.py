"""C13: tuple-list filters keep exactly the records that satisfy them, in order."""
from pyvc.spec import *

SPECS, spec = registry()
D = "mabel.data.internals.dnf_filters."
TX = "mabel.utils.text."
LIKE, MATCHES = ufun("text_like", V, V, z3.BoolSort()), ufun("text_matches", V, V, z3.BoolSort())
_HOLDS = ufun("predicate_holds", V, V, z3.BoolSort())


def HOLDS(p, r):
    """what evaluate answers; of the empty list, yes (shown by conjunction)"""
    return z3.Or(p == V.list(z3.Empty(SV)), _HOLDS(p, r))



BY_ORDER = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def text_contracts(vm):
    """like and matches are specified by C21 / the re module"""
    vm.contracts[TX + "like"] = lambda vm, c, a, k: Sym(BOOL, LIKE(vm.to_V(a[0]), vm.to_V(a[1])))
    vm.contracts[TX + "matches"] = lambda vm, c, a, k: Sym(BOOL, MATCHES(vm.to_V(a[0]), vm.to_V(a[1])))


def bool_of(vm, r):
    t = vm.truth_term(r)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def evaluate_tuple(vm, op, value, types, meaning):
    """the tuple (field, op, value) on any record whose field is missing, None or of the given types"""
    text_contracts(vm)
    r, k = rec(vm), sstr(vm, "field")
    kv = V.str(k.t)
    v = getd(vm, r.t, kv)
    vm.assume(z3.Or(V.is_none(v), types(v)))
    res = vm.call(fn(vm, D + "evaluate"), [(k, op, value), r], {})
    vm.prove(f"{op}: holds iff the field is present, not None and compares so",
             bool_of(vm, res) == z3.And(has(vm, r.t, kv), z3.Not(V.is_none(v)), meaning(v)))


def op_spec(name, ops, value, types, meaning):
    def f(vm):
        for op in ops:
            val = value(vm)
            evaluate_tuple(vm, op, val, types, lambda v, op=op: meaning(op, v, val))

    spec(D + "evaluate", name=name)(f)


def eq_meaning(op, v, val):
    e = v == z3.simplify(val)
    return z3.Not(e) if op in ("!=", "<>") else e


for kind, con, isa, acc, mk in (("int", V.int, V.is_int, V.i, sint), ("real", V.real, V.is_real, V.r, lambda vm, n: Sym(REAL, vm.fresh(n, z3.RealSort()))),
                                ("str", V.str, V.is_str, V.s, sstr)):
    op_spec(f"equality_{kind}", ["=", "==", "is", "IS", "!=", "<>"], lambda vm, mk=mk: mk(vm, "value"), isa,
            lambda op, v, val, con=con: eq_meaning(op, v, con(val.t)))
    if kind != "str":
        op_spec(f"order_{kind}", ["<", ">", "<=", ">="], lambda vm, mk=mk: mk(vm, "value"), isa,
                lambda op, v, val, acc=acc: BY_ORDER[op](acc(v), val.t))
    else:
        op_spec(f"order_{kind}", ["<", ">", "<=", ">="], lambda vm, mk=mk: mk(vm, "value"), isa,
                lambda op, v, val, acc=acc: {"<": acc(v) < val.t, ">": val.t < acc(v), "<=": acc(v) <= val.t, ">=": val.t <= acc(v)}[op])

op_spec("equality_any", ["=", "==", "is", "!=", "<>"], lambda vm: sval(vm, "value"), lambda v: z3.BoolVal(True),
        lambda op, v, val: eq_meaning(op, v, val.t))
op_spec("text_operators", ["like", "LIKE", "Like", "matches", "~"], lambda vm: sstr(vm, "pattern"), V.is_str,
        lambda op, v, val: (LIKE if op.lower() == "like" else MATCHES)(v, V.str(val.t)))


def column(vm):
    return seqv(vm.fresh("choices", SV))


op_spec("membership", ["in", "IN", "!in", "not in", "NOT IN"], column, lambda v: z3.BoolVal(True),
        lambda op, v, val: z3.Contains(val.state[2], z3.Unit(v)) if op.lower() == "in" else z3.Not(z3.Contains(val.state[2], z3.Unit(v))))
op_spec("containment", ["contains", "Contains", "!contains"], lambda vm: sval(vm, "wanted"), V.is_list,
        lambda op, v, val: z3.Contains(V.l(v), z3.Unit(val.t)) if op[0] != "!" else z3.Not(z3.Contains(V.l(v), z3.Unit(val.t))))


def recursive(vm):
    """evaluate by its contract, for the nested predicates"""
    vm.contracts[D + "evaluate"] = lambda vm, c, a, k: Sym(BOOL, HOLDS(vm.to_V(a[0]), vm.to_V(a[1])))


@spec(D + "evaluate")
def conjunction(vm):
    f = fn(vm, D + "evaluate")
    r = rec(vm)
    ps = vm.fresh("tuples", SV)
    vm.every(ps, V.is_tup)
    recursive(vm)
    res = vm.run_closure(f, [seqv(ps), r], {})
    vm.prove("a list of tuples holds iff all of them hold", bool_of(vm, res) == (z3.Length(filt(vm, ps, lambda p: z3.Not(HOLDS(p, r.t)))) == 0))


@spec(D + "evaluate")
def disjunction(vm):
    f = fn(vm, D + "evaluate")
    r = rec(vm)
    ps = vm.fresh("lists", SV)
    vm.assume(z3.Length(ps) > 0)
    vm.every(ps, V.is_list)
    recursive(vm)
    res = vm.run_closure(f, [seqv(ps), r], {})
    vm.prove("a list of lists holds iff one of them holds", bool_of(vm, res) == (z3.Length(filt(vm, ps, lambda p: HOLDS(p, r.t))) > 0))


@spec(D + "DnfFilters.filter_dictset", D + "DnfFilters.__init__")
def filter_dictset(vm):
    t = records(vm)
    ps = vm.fresh("predicates", SV)
    recursive(vm)
    d = vm.call(fn(vm, D + "DnfFilters"), [seqv(ps)], {})
    r = vm.call(vm.getattr(d, "filter_dictset"), [seqv(t)], {})
    pv = V.list(ps)
    vm.prove("exactly the records that satisfy the filter, in order", items_of(vm, r) == filt(vm, t, lambda x: HOLDS(pv, x)))


@spec(D + "DnfFilters.filter_dictset", D + "DnfFilters.__init__")
def no_filter(vm):
    t = records(vm)
    recursive(vm)
    d = vm.call(fn(vm, D + "DnfFilters"), [None], {})
    r = vm.call(vm.getattr(d, "filter_dictset"), [seqv(t)], {})
    vm.prove("without a filter, every record", items_of(vm, r) == t)


@spec(D + "DnfFilters.__call__")
def one_record(vm):
    ps = vm.fresh("predicates", SV)
    r = rec(vm)
    recursive(vm)
    d = vm.call(fn(vm, D + "DnfFilters"), [seqv(ps)], {})
    res = vm.call(d, [r], {})
    vm.prove("the filter holds of a record iff its predicates do", bool_of(vm, res) == HOLDS(V.list(ps), r.t))


@spec("mabel.data.internals.dictset.DictSet.filter")
def dictset_filter(vm):
    """the same filter, applied to a data set"""
    t = records(vm)
    ps = vm.fresh("predicates", SV)
    recursive(vm)
    d = PyObj(fn(vm, "mabel.data.internals.dictset.DictSet"), {"_iterator": seqv(t), "storage_class": Sym(INT, z3.IntVal(1)), "_temporary_folder": None})
    r = vm.call(vm.getattr(d, "filter"), [seqv(ps)], {})
    pv = V.list(ps)
    vm.prove("exactly the records that satisfy the filter, in order", items_of(vm, vm.getattr(r, "_iterator")) == filt(vm, t, lambda x: HOLDS(pv, x)))
