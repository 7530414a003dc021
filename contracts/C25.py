"""C25: reader parameters are checked before anything is read."""
from pyvc.spec import *

SPECS, spec = registry()
PV = "mabel.utils.parameter_validator."
RULES_OF = ufun("rules_of", V, SV)
HAS_RULES = ufun("hasattr_RULES", V, z3.BoolSort())
K0, V0 = PAIR.dt.accessor(0, 0), PAIR.dt.accessor(0, 1)


def sk(s):
    return V.str(z3.StringVal(s))


def nonempty(v):
    """truth of a value"""
    return z3.And(z3.Not(V.is_none(v)), z3.Implies(V.is_bool(v), V.b(v)), z3.Implies(V.is_int(v), V.i(v) != 0),
                  z3.Implies(V.is_real(v), V.r(v) != 0), z3.Implies(V.is_str(v), z3.Length(V.s(v)) > 0),
                  z3.Implies(V.is_bytes(v), z3.Length(V.y(v)) > 0), z3.Implies(V.is_list(v), z3.Length(V.l(v)) > 0),
                  z3.Implies(V.is_tup(v), z3.Length(V.t(v)) > 0))


def truth(vm, v):
    t = vm.truth_term(Sym(VAL, v))
    return z3.BoolVal(t) if isinstance(t, bool) else t


def a_rule(vm, r):
    """a rule is a dictionary with a name, and with a list of what it is incompatible with"""
    inc = at(vm, r, sk("incompatible_with"))
    return z3.And(V.is_obj(r), ISDICT(r), has(vm, r, sk("name")), V.is_str(at(vm, r, sk("name"))),
                  z3.Or(z3.Not(has(vm, r, sk("incompatible_with"))), V.is_none(inc), V.is_list(inc)))


@spec(PV + "validate.__call__", budget=200)
def call(vm):
    rules = vm.fresh("rules", SV)
    given = rec(vm, "parameters")
    items, keys = ITEMS(given.t), KEYS(given.t)
    log = PyList(("items", ()))
    vm.every(rules, lambda r: a_rule(vm, r))
    vm.every(items, lambda p: V.is_str(K0(p)))
    vm.every(keys, V.is_str)
    vm.models["hasattr:RULES"] = lambda vm, o: False
    vm.contracts[PV + "get_levenshtein_distance"] = lambda vm, c, a, k: sint(vm, "distance", 0)

    def reader(vm, *a, **k):
        vm.append(log, (len(a), k.get("**")))
        return sval(vm, "data set")

    vm.models["inspect.signature"] = lambda vm, a, k: PyObj(External("Signature"), {"parameters": PyList(("items", ()))})
    vm.models["builtins.functools.wraps"] = vm.models["functools.wraps"] = lambda vm, a, k: Builtin("wraps", lambda vm, a, k: a[0])
    v = vm.call(fn(vm, PV + "validate"), [seqv(rules)], {})
    wrapped = vm.call(v, [py(reader)], {})
    h0 = (vm.HAS, vm.DICT)
    kind, r = outcome(vm, wrapped, **{"**": given})
    every_rule = rules
    name = lambda r: at(vm, r, sk("name"))
    names = mapped(vm, every_rule, lambda r: z3.Unit(name(r)))
    inc = lambda r: getd(vm, r, sk("incompatible_with"))
    unknown = filt(vm, keys, lambda k: z3.Not(z3.Contains(names, z3.Unit(k))))
    missing = filt(vm, every_rule, lambda r: z3.And(truth(vm, getd(vm, r, sk("required"))), z3.Not(has(vm, given.t, name(r)))))
    clash = filt(vm, every_rule, lambda r: z3.And(truth(vm, inc(r)), has(vm, given.t, name(r)), truth(vm, at(vm, given.t, name(r))),
                                                  z3.Length(filt(vm, V.l(inc(r)), lambda t: has(vm, given.t, t))) > 0))
    bad = z3.Or(z3.Length(unknown) > 0, z3.Length(missing) > 0, z3.Length(clash) > 0)
    if kind == "ok":
        vm.prove("a call that goes through has no unknown parameter", z3.Length(unknown) == 0)
        vm.prove("a call that goes through has every required parameter", z3.Length(missing) == 0)
        vm.prove("a call that goes through has no clashing parameters", z3.Length(clash) == 0)
        vm.prove("the reader is called once", len(log.state[1]) == 1)
        vm.prove("with the parameters as they were given", log.state[1][0][0] == 0 and log.state[1][0][1] is given)
        vm.prove("none of which was changed", z3.And(z3.Select(vm.HAS, given.t) == z3.Select(h0[0], given.t), z3.Select(vm.DICT, given.t) == z3.Select(h0[1], given.t)))
    else:
        vm.prove("only a call with an unknown, missing or clashing parameter is refused", bad)
        vm.prove("as a configuration error", vm.exc_name(r) == "InvalidReaderConfigError" if hasattr(vm, "exc_name") else "InvalidReaderConfigError" in str(r.cls))
        vm.prove("before anything is read", len(log.state[1]) == 0)
