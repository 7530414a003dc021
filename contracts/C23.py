"""C23: the content hash of a data set."""
from pyvc.spec import *

SPECS, spec = registry()
DS = "mabel.data.internals.dictset.DictSet"
I = z3.IntSort()
SI = z3.SeqSort(I)
XOR = z3.Function("xor", I, I, I)
# the exclusive or of a sequence of numbers and a starting value, by recursion on the sequence
XFOLD = ufun("xor_of", I, SI, I)
CITY = ufun("city_hash", S, I)


def dictset(vm, t):
    return PyObj(fn(vm, DS), {"_iterator": seqv(t), "storage_class": Sym(INT, z3.IntVal(1)), "_temporary_folder": None})


def models(vm, seed):
    vm.models["orso.cityhash.CityHash64"] = lambda vm, a, k: Sym(INT, CITY(vm.term(a[0], BYTES)))
    vm.assumptions.add("CityHash64 is a function of the bytes; exclusive or of integers is associative, commutative, its own inverse")
    vm.assume(XFOLD(seed, z3.Empty(SI)) == seed)

    def inv(p, acc):
        return [vm.num(acc, INT) == XFOLD(seed, p)]

    def split(p, acc, x):
        vm.assume(XFOLD(seed, concat(z3.Empty(SI), p, z3.Unit(x.t))) == XOR(XFOLD(seed, p), x.t))
        vm.assume(XOR(x.t, acc.t) == XOR(acc.t, x.t))

    vm.models["functools.reduce"] = fold(vm, "the hash so far is the exclusive or of the seed and the hashes so far", inv, INT, split)


TEXT = ufun("json_text", z3.SeqSort(PAIR.sort), S)


def dumps(vm, a, k):
    """the JSON text of a dictionary is a function of its items in their order"""
    if k or len(a) > 1:
        raise Unsupported("orjson options")
    v = vm.to_V(a[0])
    if z3.is_app(v) and v.decl().name() == "dict_of":
        return Sym(BYTES, TEXT(v.arg(0)))
    return Sym(BYTES, TEXT(ITEMS(v)))


def setup(vm, seed):
    """the models, with a record of the sequences that are folded"""
    models(vm, seed)
    vm.models["orjson.dumps"] = dumps
    step, folded = vm.models["functools.reduce"], []

    def spy(vm, a, k):
        folded.append(vm.seq_term(vm.iter_state(a[1]), INT))
        return step(vm, a, k)

    vm.models["functools.reduce"] = spy
    return folded


def hash_of(vm, folded, t, seed):
    """the hash of a data set, and the sequence that was folded for it"""
    del folded[:]
    r = vm.call(vm.getattr(dictset(vm, t), "__hash__"), [seed], {})
    for s in folded:
        n = z3.Length(s)
        p, x = z3.Extract(s, 0, n - 1), s[n - 1]
        # the recursion that defines the exclusive or of a sequence, unfolded twice
        vm.assume(z3.Implies(n > 0, XFOLD(seed.t, s) == XOR(XFOLD(seed.t, p), x)))
        vm.assume(z3.Implies(n == 1, XFOLD(seed.t, s) == XOR(seed.t, s[0])))
        vm.assume(z3.Implies(n == 2, XFOLD(seed.t, s) == XOR(XOR(seed.t, s[0]), s[1])))
    return r, (folded[0] if folded else z3.Empty(SI))


@spec(DS + ".__hash__", unrolls=False)
def no_records(vm):
    seed = sint(vm, "seed")
    folded = setup(vm, seed.t)
    r, s = hash_of(vm, folded, z3.Empty(SV), seed)
    vm.prove("without records the hash is the seed", r.t == seed.t)


@spec(DS + ".__hash__", unrolls=False)
def appended(vm):
    """hash(records + [r]) = hash(records) ^ h, where hash([r]) = seed ^ h"""
    seed = sint(vm, "seed")
    folded = setup(vm, seed.t)
    t, r = records(vm), rec(vm)
    after, s = hash_of(vm, folded, concat(t, z3.Unit(r.t)), seed)
    before, _ = hash_of(vm, folded, t, seed)
    one, s1 = hash_of(vm, folded, z3.Unit(r.t), seed)
    h = s1[0]
    vm.assume(XOR(seed.t, XOR(seed.t, h)) == h)
    vm.prove("appending a record combines its hash with the hash so far", after.t == XOR(before.t, XOR(seed.t, one.t)))


@spec(DS + ".__hash__", unrolls=False)
def swapped(vm):
    """with any seed, so after any prefix: two neighbours can be exchanged"""
    seed = sint(vm, "seed")
    folded = setup(vm, seed.t)
    a, b = rec(vm), rec(vm)
    ab, s = hash_of(vm, folded, concat(z3.Unit(a.t), z3.Unit(b.t)), seed)
    ba, s2 = hash_of(vm, folded, concat(z3.Unit(b.t), z3.Unit(a.t)), seed)
    x, y = s[0], s[1]
    vm.assume(XOR(XOR(seed.t, x), y) == XOR(XOR(seed.t, y), x))
    vm.prove("exchanging two records does not change the hash", ab.t == ba.t)


@spec(DS + ".__hash__", unrolls=False)
def fields_reordered(vm):
    """two records with the same fields and values, in any order"""
    seed = sint(vm, "seed")
    folded = setup(vm, seed.t)
    a, b = rec(vm), rec(vm)
    ia, ib = [items_of(vm, vm.call(vm.getattr(r, "items"), [], {}), PAIR) for r in (a, b)]
    SORT = perm_fn(("natural", False), ia.sort())
    # the names of the fields differ, so sorting gives one sequence for the same set of fields
    vm.assumptions.add("the sorted items of a record are determined by the set of its fields")
    vm.assume(SORT(ia) == SORT(ib))
    ra, _ = hash_of(vm, folded, z3.Unit(a.t), seed)
    rb, _ = hash_of(vm, folded, z3.Unit(b.t), seed)
    vm.prove("the order of the fields does not change the hash", ra.t == rb.t)


@spec(DS + ".__hash__", unrolls=False)
def default_seed(vm):
    """the hash is a function of the data alone"""
    t = records(vm)
    setup(vm, z3.IntVal(703115))
    r1 = vm.call(vm.getattr(dictset(vm, t), "__hash__"), [], {})
    r2 = vm.call(vm.getattr(dictset(vm, t), "__hash__"), [], {})
    vm.prove("the same data has the same hash", r1.t == r2.t)
