"""C17: data set operations agree with their list semantics."""
from pyvc.spec import *

SPECS, spec = registry()
DS = "mabel.data.internals.dictset.DictSet"
PAIRS = tup_codec([VAL, VAL])


def dictset(vm, t, storage=1):
    """a data set over an arbitrary sequence of records (not persisted, unless said)"""
    return PyObj(fn(vm, DS), {"_iterator": seqv(t), "storage_class": Sym(INT, z3.IntVal(storage)), "_temporary_folder": None})


def rows(vm, v):
    """the records a data set (or generator) yields"""
    if isinstance(v, PyObj):
        v = vm.getattr(v, "_iterator")
    return items_of(vm, v)


@spec(DS + ".itake")
def itake(vm):
    t = records(vm)
    n = sint(vm, "n", 0)
    d = dictset(vm, t)

    def tpl(vm, view):
        for _, l, k, p in view.locs("sym", INT):
            yield "it counts down", lambda g, l=l: vm.num(view.get(l), INT) == n.t - z3.Length(g.p)
            yield "it is not used up", lambda g, l=l: vm.num(view.get(l), INT) > 0

    vm.loop_templates = [tpl]
    r = vm.call(vm.getattr(d, "itake"), [n], {})
    vm.prove("the first min(n, length) records, in order", items_of(vm, r) == z3.Extract(t, 0, z3.If(n.t < z3.Length(t), n.t, z3.Length(t))))


@spec(DS + ".take")
def take(vm):
    t = records(vm)
    n = sint(vm, "n", 0)
    d = dictset(vm, t)
    vm.contracts[DS + ".itake"] = lambda vm, c, a, k: seqv(z3.Extract(t, 0, z3.If(vm.num(a[1], INT) < z3.Length(t), vm.num(a[1], INT), z3.Length(t))))
    r = vm.call(vm.getattr(d, "take"), [n], {})
    vm.prove("the first min(n, length) records, in order", rows(vm, r) == z3.Extract(t, 0, z3.If(n.t < z3.Length(t), n.t, z3.Length(t))))


@spec(DS + ".filter")
def filter_function(vm):
    t = records(vm)
    d = dictset(vm, t)
    P = ufun("accepts", V, z3.BoolSort())
    f = py(lambda vm, x: Sym(BOOL, P(vm.to_V(x))))
    r = vm.call(vm.getattr(d, "filter"), [f], {})
    vm.prove("exactly the accepted records, in order", rows(vm, r) == filt(vm, t, P))


@spec(DS + ".first")
def first(vm):
    t = records(vm)
    d = dictset(vm, t)
    r = vm.call(vm.getattr(d, "first"), [], {})
    vm.prove("the first record, or nothing", vm.to_V(r) == z3.If(z3.Length(t) > 0, t[0], V.none))


@spec(DS + ".collect_list")
def collect_column(vm):
    t = records(vm)
    k = sstr(vm, "key")
    vm.assume(z3.Length(k.t) > 0)
    d = dictset(vm, t)
    kv = V.str(k.t)
    r = vm.call(vm.getattr(d, "collect_list"), [k], {})
    vm.prove("the column's values where the field is present, in order",
             items_of(vm, r) == mapped(vm, t, lambda x: z3.If(has(vm, x, kv), z3.Unit(at(vm, x, kv)), empty(SV))))


@spec(DS + ".collect_list")
def collect_all(vm):
    t = records(vm)
    d = dictset(vm, t)
    r = vm.call(vm.getattr(d, "collect_list"), [], {})
    vm.prove("every record, in order", items_of(vm, r) == t)


def projection(vm, x, cols):
    """the record of exactly those columns, absent ones null"""
    return DICTOF(mapped(vm, cols, lambda k: z3.Unit(PAIRS.dt.mk(V.str(k), getd(vm, x, V.str(k))))))


@spec(DS + ".select")
def select(vm):
    t = records(vm)
    d = dictset(vm, t)
    cols = vm.fresh("columns", z3.SeqSort(S))
    vm.assume(z3.Not(z3.Contains(cols, z3.Unit(z3.StringVal("*")))))
    r = vm.call(vm.getattr(d, "select"), [seqv(cols, STR)], {})
    vm.prove("each record, in order, as exactly the selected columns",
             rows(vm, r) == mapped(vm, t, lambda x: z3.Unit(projection(vm, x, cols))))


@spec(DS + ".select")
def select_one(vm):
    t = records(vm)
    d = dictset(vm, t)
    col = sstr(vm, "column")
    vm.assume(col.t != z3.StringVal("*"))
    r = vm.call(vm.getattr(d, "select"), [col], {})
    kv = V.str(col.t)
    vm.prove("each record, in order, as exactly the selected column",
             rows(vm, r) == mapped(vm, t, lambda x: z3.Unit(DICTOF(z3.Unit(PAIRS.dt.mk(kv, getd(vm, x, kv)))))))


@spec(DS + ".select")
def select_all(vm):
    t = records(vm)
    d = dictset(vm, t)
    r = vm.call(vm.getattr(d, "select"), ["*"], {})
    vm.prove("every record, in order", rows(vm, r) == t)


def key_count(vm, t, k):
    return z3.Length(filt(vm, t, lambda y: y == k))


def keys_spec(rows_wanted):
    def f(vm):
        t = records(vm)
        d = dictset(vm, t)
        kk = vm.fresh("any_key", V)
        args = []
        read = t
        if rows_wanted:
            n = sint(vm, "n", 1)
            args = [n]
            read = z3.Extract(t, 0, z3.If(n.t < z3.Length(t), n.t, z3.Length(t)))
            vm.contracts[DS + ".itake"] = lambda vm, c, a, k: seqv(z3.Extract(t, 0, z3.If(vm.num(a[1], INT) < z3.Length(t), vm.num(a[1], INT), z3.Length(t))))

        def inv(p, acc):
            some = z3.Length(filt(vm, p, lambda r: has(vm, r, kk))) > 0
            return [key_count(vm, items_of(vm, acc), kk) == z3.If(some, z3.IntVal(1), z3.IntVal(0))]

        def split(p, acc, x):
            # a dictionary has each of its keys once
            vm.assume(key_count(vm, KEYS(x.t), kk) == z3.If(has(vm, x.t, kk), z3.IntVal(1), z3.IntVal(0)))
            vm.branch(z3.Contains(items_of(vm, acc), z3.Unit(kk)))

        vm.models["functools.reduce"] = fold(vm, "each key met so far is listed once, and no other", inv, (seqv, SV), split)
        r = vm.call(vm.getattr(d, "keys"), args, {})
        vm.prove("a key is listed exactly once if a record has it, and not otherwise",
                 key_count(vm, items_of(vm, r), kk) == z3.If(z3.Length(filt(vm, read, lambda x: has(vm, x, kk))) > 0, z3.IntVal(1), z3.IntVal(0)))

    return f


spec(DS + ".keys", name="keys", unrolls=False)(keys_spec(False))
spec(DS + ".keys", name="keys_of_the_first", unrolls=False)(keys_spec(True))


def numbers(vm, d):
    """an arbitrary column of numbers, as collect_list gives it"""
    t = vm.fresh("column", z3.SeqSort(z3.RealSort()))
    vm.contracts[DS + ".collect_list"] = lambda vm, c, a, k: seqv(t, REAL)
    return t


def extreme_inv(low, high):
    def inv(p, acc):
        return ([Every(p, lambda x: x >= low(acc)), z3.Contains(p, z3.Unit(low(acc)))] if low else []) + (
            [Every(p, lambda x: x <= high(acc)), z3.Contains(p, z3.Unit(high(acc)))] if high else [])

    return inv


def extreme_spec(name, low, high, codec):
    def f(vm):
        d = dictset(vm, records(vm))
        t = numbers(vm, d)
        vm.assume(z3.Length(t) > 0)
        inv = extreme_inv(low, high)
        vm.models["functools.reduce"] = fold(vm, "the extreme of the values so far, and one of them", inv, codec)

        def tpl(vm, view):
            for _, l, k, p in view.locs("sym", REAL):
                v = lambda l=l: Sym(REAL, vm.term(view.get(l), REAL))
                # of what was read of the column, or of that and the first value
                for seen in (lambda g: g.p, lambda g: concat(empty(t.sort()), z3.Unit(t[0]), g.p)):
                    yield "it is one of the values", lambda g, v=v, seen=seen: z3.Contains(seen(g), z3.Unit(v().t))
                    yield "it bounds the values", lambda g, v=v, seen=seen: vm.every_goal(seen(g), lambda x: x >= v().t if low else x <= v().t)

        vm.loop_templates = [tpl]
        r = vm.call(vm.getattr(d, name), ["column"], {})
        prove_inv(vm, f"{name} is a value of the column and bounds every other", inv(t, r))

    f.__name__ = name
    spec(DS + "." + name, name=name)(f)


extreme_spec("min", lambda a: a.t, None, REAL)
extreme_spec("max", None, lambda a: a.t, REAL)

@spec(DS + ".min_max")
def min_max(vm):
    d = dictset(vm, records(vm))
    t = numbers(vm, d)
    vm.assume(z3.Length(t) > 0)
    pc = tup_codec([REAL, REAL])
    both = extreme_inv(lambda a: a[0].t, lambda a: a[1].t)

    def inv(p, acc):
        lows = mapped(vm, p, lambda y: z3.Unit(pc.dt.accessor(0, 0)(y)))
        highs = mapped(vm, p, lambda y: z3.Unit(pc.dt.accessor(0, 1)(y)))
        return extreme_inv(lambda a: a[0].t, None)(lows, acc) + extreme_inv(None, lambda a: a[1].t)(highs, acc)

    vm.models["functools.reduce"] = fold(vm, "the extremes of the values so far", inv, pc)
    r = vm.call(vm.getattr(d, "min_max"), ["column"], {})
    prove_inv(vm, "min_max gives values of the column that bound every other", both(t, r))



@spec(DS + ".distinct")
def distinct(vm):
    t = records(vm)
    d = dictset(vm, t)
    kk = vm.fresh("any_key", V)
    c1, c2 = sstr(vm, "c1"), sstr(vm, "c2")
    key = lambda x: V.tup(concat(*[z3.Unit(z3.If(has(vm, x, V.str(c.t)), V.str(REPROF(at(vm, x, V.str(c.t)))), V.none)) for c in (c1, c2)]))
    same = lambda s: filt(vm, s, lambda x: key(x) == kk)

    def tpl(vm, view):
        ds = [l for n, l, k, p in view.locs("dict")]
        ls = [l for n, l, k, p in view.locs(("list", "state"))]
        for sl in [l for n, l, k, p in view.locs(("set", "state"))]:
            yield "key met iff a record had it", lambda g, sl=sl: z3.Contains(vm.seq_term(view.get(sl), VAL), z3.Unit(kk)) == (z3.Length(same(g.p)) > 0)
            for ll in ls:
                yield "the first record of the key is kept", lambda g, ll=ll: same(vm.seq_term(view.get(ll), VAL)) == z3.Extract(same(g.p), 0, 1)
        for dl in ds:
            yield "key seen iff a record had it", lambda g, dl=dl: z3.Select(vm.map_terms(view.get(dl), VAL, BOOL)[0], kk) == (z3.Length(same(g.p)) > 0)
            for ll in ls:
                yield "the first record of the key is kept", lambda g, ll=ll: same(vm.seq_term(view.get(ll), VAL)) == z3.Extract(same(g.p), 0, 1)

    vm.loop_templates = [tpl]
    r = vm.call(vm.getattr(d, "distinct"), [c1, c2], {})
    vm.prove("of the records with equal values in the columns, exactly the first is kept", same(rows(vm, r)) == z3.Extract(same(t), 0, 1))


# ------------------------------------------------------------ sort_and_take
SORT = ufun("stable_sort", SV, z3.BoolSort(), SV)
INS = ufun("inserted_and_cut", SV, V, z3.IntSort(), z3.BoolSort(), SV)


def sorting(vm, column, n):
    """the contract of sorted() and list.sort() for the column's key: the stable sort, of
    which only its length and what is said of its first n records below is known"""

    def sort(vm, st, key, reverse):
        if st[0] != "seq":
            st = ("seq", VAL, vm.seq_term(st, VAL))
        if key is None or st[1] is not VAL:
            raise Unsupported("a sort of something else than records by a key")
        x = rec(vm, "sorted_record")
        kv = vm.call(key, [x], {})
        want = getd(vm, x.t, V.str(column))
        if not (isinstance(kv, tuple) and len(kv) == 2):
            raise Unsupported("another form of sort key")
        for a, b in ((vm.to_V(kv[0]), V.bool(want != V.none)), (vm.to_V(kv[1]), want)):
            if vm.entails(a == b)[0] != z3.unsat:
                raise Unsupported("another form of sort key")
        back = reverse.t if isinstance(reverse, Sym) and reverse.k is BOOL else z3.BoolVal(bool(vm.truth(reverse)))
        s = SORT(st[2], back)
        vm.assume(z3.Length(s) == z3.Length(st[2]))
        return ("seq", VAL, s)

    vm.models["builtins.sorted"] = lambda vm, a, k: PyList(sort(vm, state_of(vm, a[0]), k.get("key"), k.get("reverse", False)))
    vm.models["list.sort"] = lambda vm, s, a, k: vm.mut(s, sort(vm, s.state, k.get("key"), k.get("reverse", False)))


def first_sorted(s, n, desc):
    return z3.Extract(SORT(s, desc), 0, n)


def about_sorting(vm, t, n, desc):
    """the two facts about the first n of a stable sort, of every such sequence in a term"""
    seen = set()

    def walk(e):
        if e.get_id() in seen or not z3.is_app(e):
            return
        seen.add(e.get_id())
        for c in e.children():
            walk(c)
        if e.sort() != SV:
            return
        k = e.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            last = e.arg(e.num_args() - 1)
            if last.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                a = concat(empty(SV), *[e.arg(i) for i in range(e.num_args() - 1)])
                vm.assume(first_sorted(e, n, desc) == INS(first_sorted(a, n, desc), last.arg(0), n, desc))
                vm.assume(z3.Length(SORT(a, desc)) == z3.Length(a))
        if k == z3.Z3_OP_SEQ_EXTRACT and e.arg(0).decl().eq(SORT(empty(SV), desc).decl()):
            s, d = e.arg(0).arg(0), e.arg(0).arg(1)
            vm.assume(z3.Implies(z3.And(d == desc, e.arg(1) == 0, z3.Or(e.arg(2) >= n, e.arg(2) >= z3.Length(s))),
                                 first_sorted(e, n, desc) == first_sorted(s, n, desc)))
        if e.decl().eq(SORT(empty(SV), desc).decl()):
            vm.assume(z3.Implies(e.arg(1) == desc, first_sorted(e, n, desc) == first_sorted(e.arg(0), n, desc)))

    walk(t)


def sort_and_take_spec(storage):
    def f(vm):
        vm.assumptions.add("stable sorting: the first n of the sort of s + [x] are a function of the first n of the sort of s and of x, "
                           "and sorting the first m >= n of a sort again changes nothing of its first n; sort keys compare without an exception")
        t = records(vm)
        n = sint(vm, "take", 0)
        col = sstr(vm, "column")
        desc = sbool(vm, "descending")
        d = dictset(vm, t, storage)
        sorting(vm, col.t, n.t)

        def tpl(vm, view):
            for name, l, k, p in view.locs(("list", "state")):
                def claim(g, l=l):
                    s = vm.seq_term(view.get(l), VAL)
                    about_sorting(vm, s, n.t, desc.t)
                    about_sorting(vm, g.p, n.t, desc.t)
                    return first_sorted(s, n.t, desc.t) == first_sorted(g.p, n.t, desc.t)
                yield "the records kept hold the first ones of all read", claim

        vm.loop_templates = [tpl]
        r = vm.call(vm.getattr(d, "sort_and_take"), [], {"column": col, "take": n, "descending": desc})
        got = items_of(vm, r)
        about_sorting(vm, got, n.t, desc.t)
        vm.prove("the first n of the records stably sorted by the column", got == first_sorted(t, n.t, desc.t))

    return f


spec(DS + ".sort_and_take", name="sort_and_take", budget=200, unrolls=False)(sort_and_take_spec(1))
spec(DS + ".sort_and_take", name="sort_and_take_in_memory")(sort_and_take_spec(2))
