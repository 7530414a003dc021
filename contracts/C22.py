"""C22: flattening a nested record."""
from contracts.wr import *
from contracts.C02 import total

SPECS, spec = registry()
F = "mabel.data.internals.records.flatten"
SP = z3.SeqSort(PAIR.sort)
# the flattened items of items under a parent path (the contract of the recursive calls)
FLATR = ufun("flattened", SP, S, S, V)
K0, V0 = PAIR.dt.accessor(0, 0), PAIR.dt.accessor(0, 1)


def pairs_of(vm, d):
    return items_of(vm, vm.call(vm.getattr(d, "items"), [], {}), PAIR)


def isdict(v):
    return z3.And(V.is_obj(v), ISDICT(v))


def digits(i):
    return z3.If(i >= 0, z3.IntToStr(i), z3.Concat(z3.StringVal("-"), z3.IntToStr(-i)))


def contract(vm):
    """flatten, of the parts"""
    names = ["dictionary", "separator", "parent_key"]

    def m(vm, c, a, k):
        v = dict(zip(names, a), **k)
        r = FLATR(pairs_of(vm, v["dictionary"]), vm.term(v["separator"], STR), vm.term(v["parent_key"], STR))
        return PyObj(External("flattened"), {"_pairs": PyList(("seq", PAIR, ITEMS(r)))})

    vm.models["method:flattened.items"] = lambda vm, s, a, k: s.state["_pairs"]
    vm.contracts[F] = m


def leaves(vm, pairs, sep, parent):
    """what the flattened record holds, by recursion on the nesting"""
    IC = tup_codec([INT, VAL])

    def one(p):
        k, v = K0(p), V0(p)
        path = V.s(k) if parent is None else concat(z3.StringVal(""), parent, sep, V.s(k))
        e = z3.Function("enumerated_val", SV, z3.SeqSort(IC.sort))(V.l(v))
        part = lambda q: ITEMS(FLATR(z3.Unit(PAIR.dt.mk(V.str(digits(IC.dt.accessor(0, 0)(q))), IC.dt.accessor(0, 1)(q))), sep, path))
        return z3.If(isdict(v), ITEMS(FLATR(ITEMS(v), sep, path)),
                     z3.If(V.is_list(v), mapped(vm, e, part), z3.Unit(PAIR.dt.mk(V.str(path), v))))

    return mapped(vm, pairs, one)


def flatten_spec(top):
    def f(vm):
        vm.enum_pairs = True
        g = fn(vm, F)
        contract(vm)
        d = rec(vm, "dictionary")
        sep = sstr(vm, "separator")
        parent = None if top else sstr(vm, "parent")
        p = ITEMS(d.t)
        vm.every(p, lambda e: z3.And(V.is_str(K0(e)), z3.Not(V.is_tup(V0(e)))))
        h0 = (vm.HAS, vm.DICT)
        r = vm.run_closure(g, [d, sep] + ([] if top else [parent]), {})
        vm.prove("every leaf under its own path, and nothing else", vm.to_V(r) == DICTOF(leaves(vm, p, sep.t, None if top else parent.t)))
        vm.prove("the input is not modified", z3.And(z3.Select(vm.HAS, d.t) == z3.Select(h0[0], d.t), z3.Select(vm.DICT, d.t) == z3.Select(h0[1], d.t)))

    return f


spec(F, name="flatten_record")(flatten_spec(True))
spec(F, name="flatten_below")(flatten_spec(False))


@spec(BLOB + ".text_append")
def flat_format(vm):
    """the flat format stores the flattened record"""
    g = ghost()
    b = blob_writer(vm, "flat", g)
    r = rec(vm)
    before = pending(vm, b)
    kind, v = outcome(vm, vm.getattr(b, "text_append"), r)
    if kind == "ok":
        vm.prove("a line of the flattened record is added", total(vm, b, "flat", g) == z3.Concat(before, line(vm, "flat", r)))
