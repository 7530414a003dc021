"""Models of Python's built-ins and of the library functions the code uses.

Every entry here is part of the trusted base.  Sequences are modelled exactly where a
sequence map (CMap) expresses the operation; otherwise the result is an uninterpreted
function of the arguments (so equal calls give equal results) plus the listed facts.
"""
import ast

import z3

from .terms import *
from . import terms as T
from .vm import *
from .interp import *
from .interp import Interp, SKIP, Flat, conc, CONC, KEYS, STROF, REPROF, LAZY

S = z3.StringSort()
SSEQ = z3.SeqSort(S)
B = {}


def model(*names):
    def deco(f):
        for n in names:
            B[n] = f
        return f

    return deco


def ufun(name, *sorts):
    return z3.Function(name, *sorts)


# -------------------------------------------------------------- sequence permutations
PERMS = {}  # decl name -> description


def perm_fn(key, sort):
    name = "SORT_" + str(abs(hash(key)) % 10**12) if key else "SORT"
    for n, k in PERMS.items():
        if k == (key, str(sort)):
            return z3.Function(n, sort, sort)
    n = f"PERM{len(PERMS)}"
    PERMS[n] = (key, str(sort))
    return z3.Function(n, sort, sort)


T.PERMS = PERMS


def state_of(vm, v):
    st = vm.iter_state(v)
    if isinstance(v, PyIter):
        vm.mut(v, ("items", ()))
    if st[0] in ("enum", "range"):
        if st[0] == "range" and conc(st[1]) and conc(st[2]):
            return ("items", tuple(range(st[1], st[2])))
        if st[0] == "enum" and st[1][0] == "items":
            return ("items", tuple((vm.binop(ast.Add(), st[2], i), e) for i, e in enumerate(st[1][1])))
        return st
    return st


# -------------------------------------------------------------- builtins
@model("builtins.len")
def _len(vm, a, k):
    v = vm.narrow(a[0])
    if conc(v):
        try:
            return len(v)
        except TypeError as e:
            raise PyExc(TypeError, e.args)
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, PyDict):
        return len(v.state)
    if isinstance(v, Sym) and v.k in (STR, BYTES):
        return Sym(INT, z3.Length(v.t))
    if isinstance(v, Sym) and v.k is VAL:
        r = ufun("len_of", V, z3.IntSort())(v.t)
        vm.assume(r >= 0)
        return Sym(INT, r)
    if isinstance(v, PyObj):
        q = getattr(v.cls, "q", None)
        h = vm.models.get(f"len:{q}")
        if h:
            return h(vm, v)
        if isinstance(v.cls, ClassInfo):
            r = v.cls.lookup(vm, "__len__")
            if r:
                return vm.call(Bound(v, r[0]), [], {})
        raise PyExc(TypeError, ("no len",))
    if isinstance(v, PyIter) or isinstance(v, Sym):
        raise PyExc(TypeError, ("no len",))
    st = v.state if isinstance(v, PySet) else vm.iter_state(v)
    if isinstance(v, PySet):
        if st[0] == "items":
            if all(conc(e) for e in st[1]):
                return len(set(st[1]))
            n = 0
            seen = []
            for e in st[1]:
                if not vm.branch(vm._or([vm.eq_term(e, o) for o in seen])):
                    seen.append(e)
            return len(seen)
        f = ufun("card_" + str(st[1]), z3.SeqSort(st[1].sort), z3.IntSort())
        r = f(st[2])
        vm.assume(z3.And(r >= 0, r <= z3.Length(st[2]), (r == 0) == (z3.Length(st[2]) == 0)))
        return Sym(INT, r)
    if st[0] == "items":
        return len(st[1])
    if st[0] == "seq":
        return Sym(INT, z3.simplify(z3.Length(st[2])))
    raise Unsupported("len")


@model("builtins.isinstance")
def _isinstance(vm, a, k):
    return vm.wrapb(vm.type_is(a[0], a[1], True))


@model("builtins.issubclass")
def _issubclass(vm, a, k):
    raise Unsupported("issubclass")


@model("builtins.hasattr")
def _hasattr(vm, a, k):
    return vm.wrapb(vm.has_attr(a[0], a[1]))


@model("builtins.getattr")
def _getattr(vm, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr")
    if len(a) > 2:
        c = vm.has_attr(a[0], a[1])
        if not vm.branch(c):
            return a[2]
    return vm.getattr(a[0], a[1])


@model("builtins.setattr")
def _setattr(vm, a, k):
    vm.setattr(a[0], a[1], a[2])


@model("builtins.callable")
def _callable(vm, a, k):
    v = a[0]
    if isinstance(v, (Closure, Bound, Builtin, ClassInfo, type, StaticFn)):
        return True
    if isinstance(v, External):
        return True
    if isinstance(v, PyObj):
        return isinstance(v.cls, ClassInfo) and v.cls.lookup(vm, "__call__") is not None or bool(
            vm.models.get(f"call:{getattr(v.cls, 'q', '')}"))
    if isinstance(v, Sym) and v.k is VAL:
        return vm.wrapb(z3.And(V.is_obj(v.t), ufun("callable", V, z3.BoolSort())(v.t)))
    return False


@model("builtins.str")
def _str(vm, a, k):
    if not a:
        return ""
    return vm.str_(a[0])


@model("builtins.repr")
def _repr(vm, a, k):
    return vm.repr_(a[0])


ISINT = ufun("int_text", S, z3.BoolSort())
TOINT = ufun("int_of_text", S, z3.IntSort())
ISFLOAT = ufun("float_text", S, z3.BoolSort())
TOFLOAT = ufun("float_of_text", S, z3.RealSort())


@model("builtins.int")
def _int(vm, a, k):
    if not a:
        return 0
    v = vm.narrow(a[0])
    if conc(v):
        try:
            return int(v)
        except Exception as e:
            raise PyExc(type(e), e.args)
    if isinstance(v, Sym):
        if v.k is INT:
            return v
        if v.k is BOOL:
            return Sym(INT, vm.num(v, INT))
        if v.k is REAL:
            return Sym(INT, z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.k is STR:
            if not vm.branch(ISINT(v.t)):
                raise PyExc(ValueError, ("int",))
            return Sym(INT, TOINT(v.t))
    if isinstance(v, PyObj):
        h = vm.models.get(f"int:{getattr(v.cls, 'q', '')}")
        if h:
            return h(vm, v)
    raise PyExc(TypeError, ("int",))


@model("builtins.float")
def _float(vm, a, k):
    if not a:
        return 0.0
    v = vm.narrow(a[0])
    if conc(v):
        try:
            return float(v)
        except Exception as e:
            raise PyExc(type(e), e.args)
    if isinstance(v, Sym):
        if v.k is REAL:
            return v
        if v.k in (INT, BOOL):
            return Sym(REAL, vm.num(v, REAL))
        if v.k is STR:
            if not vm.branch(ISFLOAT(v.t)):
                raise PyExc(ValueError, ("float",))
            return Sym(REAL, TOFLOAT(v.t))
    raise PyExc(TypeError, ("float",))


@model("builtins.bool")
def _bool(vm, a, k):
    return vm.wrapb(vm.truth_term(a[0])) if a else False


@model("builtins.bytes")
def _bytes(vm, a, k):
    if not a:
        return b""
    v = vm.narrow(a[0])
    if isinstance(v, bytes) or (isinstance(v, Sym) and v.k is BYTES):
        return v
    if isinstance(v, PyObj):
        h = vm.models.get(f"bytes:{getattr(v.cls, 'q', '')}")
        if h:
            return h(vm, v)
    raise Unsupported("bytes()")


@model("builtins.list")
def _list(vm, a, k):
    if not a:
        return PyList(("items", ()))
    st = state_of(vm, a[0])
    if st[0] in ("enum", "range"):
        st = vm.comp_state(st, lambda x: x)
    return PyList(st)


@model("builtins.tuple")
def _tuple(vm, a, k):
    if not a:
        return ()
    st = state_of(vm, a[0])
    if st[0] == "items":
        return tuple(st[1])
    if st[0] == "seq":
        return PyTupSeq(st[2], st[1])
    raise Unsupported("tuple()")


@model("builtins.set", "builtins.frozenset")
def _set(vm, a, k):
    if not a:
        return PySet(("items", ()))
    st = state_of(vm, a[0])
    if st[0] in ("enum", "range"):
        st = vm.comp_state(st, lambda x: x)
    return PySet(st)


@model("builtins.dict")
def _dict(vm, a, k):
    d = PyDict(())
    if a:
        v = a[0]
        if isinstance(v, PyDict):
            d = PyDict(v.state)
        elif isinstance(v, Sym) and v.k is VAL:
            if vm.branch(ISDICT(v.t)):
                return vm.models["record.copy"](vm, v, [], {})
            raise Unsupported("dict()")
        else:
            r = vm.dict_from_pairs(state_of(vm, v))
            if not k:
                return r
            d = r
    for kk, v in k.items():
        vm.setitem(d, kk, v)
    return d


@model("builtins.enumerate")
def _enumerate(vm, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    st = state_of(vm, a[0])
    if st[0] == "items":
        return PyIter(("items", tuple((vm.binop(ast.Add(), start, i), e) for i, e in enumerate(st[1]))))
    if vm.enum_pairs and st[0] == "seq" and conc(start) and start == 0:
        # as a sequence of (position, element) pairs
        pc = tup_codec([INT, st[1]])
        t = st[2]
        r = ufun(f"enumerated_{st[1]}", t.sort(), z3.SeqSort(pc.sort))(t)
        vm.assume(z3.Length(r) == z3.Length(t))
        pos, val = pc.dt.accessor(0, 0), pc.dt.accessor(0, 1)
        vm.every(r, lambda e: z3.And(pos(e) >= 0, pos(e) < z3.Length(t), t[pos(e)] == val(e)))
        return PyIter(("seq", pc, r))
    return PyIter(("enum", st, start))


@model("builtins.range")
def _range(vm, a, k):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    lo, hi = vm.narrow(lo), vm.narrow(hi)
    step = a[2] if len(a) > 2 else 1
    if conc(lo) and conc(hi) and conc(step):
        return PyTup(tuple(range(lo, hi, step)))
    if step != 1:
        raise Unsupported("range step")
    for v in (lo, hi):
        if not (isinstance(v, int) or (isinstance(v, Sym) and v.k in (INT, BOOL))):
            raise PyExc(TypeError, ("range",))
    return PyRange(("range", lo, hi))


def PyTup(t):
    return t


class PyRange(PyTupSeq):
    def __init__(self, st):
        Heap.__init__(self, st)

    kind = "range"


@model("builtins.zip")
def _zip(vm, a, k):
    sts = [state_of(vm, x) for x in a]
    if all(s[0] == "items" for s in sts):
        return PyIter(("items", tuple(zip(*[s[1] for s in sts]))))
    ns = [len(s[1]) for s in sts if s[0] == "items"]
    if ns and all(s[0] in ("items", "seq") for s in sts):
        # as many as the shortest has
        n = min(ns)
        for s in sts:
            if s[0] == "seq":
                for j in range(n):
                    if vm.branch(z3.Length(s[2]) == j):
                        n = j
                        break
        at = lambda s, i: s[1][i] if s[0] == "items" else vm.nth(s, z3.IntVal(i))
        return PyIter(("items", tuple(tuple(at(s, i) for s in sts) for i in range(n))))
    raise Unsupported("zip of symbolic sequences")


@model("builtins.map")
def _map(vm, a, k):
    if len(a) != 2:
        raise Unsupported("map of several sequences")
    st = state_of(vm, a[1])
    return PyIter(vm.comp_state(st, lambda x: vm.call(a[0], [x], {})))


@model("builtins.filter")
def _filter(vm, a, k):
    st = state_of(vm, a[1])
    f = a[0]
    if f is None:
        return PyIter(vm.filter_state(st, vm.truth_term))
    return PyIter(vm.filter_state(st, lambda x: vm.truth_term(vm.call(f, [x], {}))))


@model("builtins.any")
def _any(vm, a, k):
    st = state_of(vm, a[0])
    if st[0] == "items":
        return vm.wrapb(vm._or([vm.truth_term(e) for e in st[1]]))
    return vm.wrapb(vm.exists(st, vm.truth_term))


@model("builtins.all")
def _all(vm, a, k):
    st = state_of(vm, a[0])
    if st[0] == "items":
        ts = [vm.truth_term(e) for e in st[1]]
        if any(t is False for t in ts):
            return False
        ts = [t for t in ts if not isinstance(t, bool)]
        return vm.wrapb(z3.And(*ts)) if ts else True
    s = vm.filter_state(st, vm.truth_term, False)
    if s[0] == "items":
        return len(s[1]) == 0
    return vm.wrapb(z3.Length(s[2]) == 0)


@model("builtins.next")
def _next(vm, a, k):
    it = a[0]
    if isinstance(it, PyObj) and isinstance(it.cls, ClassInfo):
        r = it.cls.lookup(vm, "__next__")
        if r:
            return vm.call(Bound(it, r[0]), [], {})
    if not isinstance(it, PyIter):
        raise PyExc(TypeError, ("not an iterator",))
    st = vm.iter_state(it)
    if st[0] == "items":
        if not st[1]:
            if len(a) > 1:
                return a[1]
            raise PyExc(StopIteration, ())
        vm.mut(it, ("items", st[1][1:]))
        return st[1][0]
    if st[0] != "seq":
        raise Unsupported("next")
    codec, t = st[1], st[2]
    if not vm.branch(z3.Length(t) > 0):
        if len(a) > 1:
            return a[1]
        raise PyExc(StopIteration, ())
    x, rest = vm.uncons(codec, t)
    vm.mut(it, ("seq", codec, rest))
    return codec.wrap(x)


def uncons(vm, codec, t):
    """head and tail of a non-empty sequence"""
    if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
        return t.arg(0), T.empty(t.sort())
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) and z3.is_app_of(t.arg(0), z3.Z3_OP_SEQ_UNIT):
        return t.arg(0).arg(0), concat(T.empty(t.sort()), *t.children()[1:])
    x = vm.fresh("head", codec.sort)
    r = vm.fresh("tail", t.sort())
    vm.assume(t == z3.Concat(z3.Unit(x), r))
    return x, r


VM.uncons = uncons


@model("builtins.iter")
def _iter(vm, a, k):
    if isinstance(a[0], PyIter):
        return a[0]
    return PyIter(state_of(vm, a[0]))


@model("builtins.reversed")
def _reversed(vm, a, k):
    st = state_of(vm, a[0])
    if st[0] == "items":
        return PyIter(("items", tuple(reversed(st[1]))))
    if st[0] == "seq":
        return PyIter(("seq", st[1], perm_fn("reverse", st[2].sort())(st[2])))
    raise Unsupported("reversed")


def map_label(t):
    """a name for the function a sequence was mapped with, parameters included"""
    ia = as_cmap(t)
    if ia is None:
        return t.sexpr()
    return ia[0].name + "".join("|" + a.sexpr() for a in ia[0].actuals)


def sort_state(vm, st, key, reverse):
    """the stable sort of a sequence: a function of the sequence, key and direction"""
    if st[0] in ("enum", "range"):
        st = vm.comp_state(st, lambda x: x)
    if st[0] == "items":
        if len(st[1]) <= 1:
            return st
        if all(conc(e) for e in st[1]) and key is None:
            try:
                return ("items", tuple(sorted(st[1], reverse=bool(reverse))))
            except TypeError as e:
                raise PyExc(TypeError, e.args)
        if len(st[1]) <= 3 and key is None and reverse is False and vm.elem_codec(st) is INT:
            out = []
            for e in st[1]:
                i = len(out)
                while i > 0 and vm.branch(vm.order(ast.Lt(), e, out[i - 1])):
                    i -= 1
                out.insert(i, e)
            return ("items", tuple(out))
        st = ("seq", vm.elem_codec(st), vm.seq_term(st, vm.elem_codec(st)))
    if key is None:
        ks = "natural"
    else:
        m = vm.comp_state(st, lambda x: (x, vm.call(key, [x], {})))
        # the key as a function of the element, and of nothing else
        ks = map_label(m[2])
        if st[2].sexpr() in ks:
            ks = "key:" + str(m[2])
    if not isinstance(reverse, bool):
        reverse = vm.truth(reverse)
    vm.assumptions.add("sorted(): returns the stable sort; modelled as a permutation determined by sequence, key and direction")
    return ("seq", st[1], perm_fn((ks, bool(reverse)), st[2].sort())(st[2]))


@model("builtins.sorted")
def _sorted(vm, a, k):
    return PyList(sort_state(vm, state_of(vm, a[0]), k.get("key"), k.get("reverse", False)))


def _extreme(which):
    def f(vm, a, k):
        if len(a) == 1:
            st = state_of(vm, a[0])
            if st[0] == "items":
                items = st[1]
            else:
                if st[0] in ("enum", "range"):
                    st = vm.comp_state(st, lambda x: x)
                codec, t = st[1], st[2]
                if not vm.branch(z3.Length(t) > 0):
                    if "default" in k:
                        return k["default"]
                    raise PyExc(ValueError, (which,))
                key = k.get("key")
                kf = (lambda v: vm.call(key, [v], {})) if key is not None else (lambda v: v)
                name = f"{which}_{codec}" + (str(len(t.sexpr())) if key is not None else "")
                if key is not None:
                    m = vm.comp_state(st, lambda x: (x, kf(x)))
                    name = f"{which}_by_{map_label(m[2])}"
                r = ufun(name, t.sort(), codec.sort)(t)
                vm.assume(z3.Contains(t, z3.Unit(r)))
                rv = codec.wrap(r)
                if codec is VAL and key is None:
                    LEV = ufun("val_le", V, V, z3.BoolSort())
                    better = lambda x: z3.Not(LEV(r, x.t) if which == "min" else LEV(x.t, r))
                    s = vm.filter_state(st, better)
                else:
                    kr = kf(rv)
                    s = vm.filter_state(
                        st, lambda x: vm.order(ast.Lt() if which == "min" else ast.Gt(), kf(x), kr))
                if s[0] == "seq":
                    vm.assume(z3.Length(s[2]) == 0)
                return rv
        else:
            items = a
        if not items:
            if "default" in k:
                return k["default"]
            raise PyExc(ValueError, (which,))
        key = k.get("key")
        kf = (lambda v: vm.call(key, [v], {})) if key is not None else (lambda v: v)
        best = items[0]
        for e in items[1:]:
            num = (INT, BOOL, REAL)
            if key is None and all(isinstance(x, (Sym,) + CONC) and vm.codec_of(x) in num for x in (e, best)):
                kk = REAL if REAL in (vm.codec_of(e), vm.codec_of(best)) else INT
                x, y = vm.num(e, kk), vm.num(best, kk)
                if conc(e) and conc(best):
                    best = min(e, best) if which == "min" else max(best, e)
                else:
                    c = x < y if which == "min" else x > y
                    best = Sym(kk, z3.simplify(z3.If(c, x, y)))
                continue
            c = vm.order(ast.Lt() if which == "min" else ast.Gt(), kf(e), kf(best))
            if vm.branch(c):
                best = e
        return best

    return f


B["builtins.min"] = _extreme("min")
B["builtins.max"] = _extreme("max")


@model("builtins.sum")
def _sum(vm, a, k):
    st = state_of(vm, a[0])
    start = a[1] if len(a) > 1 else 0
    if st[0] == "items":
        r = start
        for e in st[1]:
            r = vm.binop(ast.Add(), r, e)
        return r
    if st[0] in ("enum", "range"):
        st = vm.comp_state(st, lambda x: x)
    codec, t = st[1], st[2]
    if codec in (INT, REAL):
        f = ufun("SUM_" + codec.name, t.sort(), codec.sort)
        return Sym(codec, vm.num(start, codec) + f(t) if start != 0 else f(t))
    if codec is BOOL:
        x = z3.Const("bx", z3.BoolSort())
        m = cmap(x, z3.If(x, z3.Unit(x), empty(z3.SeqSort(z3.BoolSort()))))
        return Sym(INT, z3.Length(apply_cmap(m, t)))
    return Sym(VAL, ufun("SUM_VAL", t.sort(), V)(t))


@model("builtins.print")
def _print(vm, a, k):
    return None


@model("builtins.hash")
def _hash(vm, a, k):
    if isinstance(a[0], PyObj) and isinstance(a[0].cls, ClassInfo):
        r = a[0].cls.lookup(vm, "__hash__")
        if r:
            return vm.call(Bound(a[0], r[0]), [], {})
    return Sym(INT, ufun("HASH", V, z3.IntSort())(vm.to_V(a[0])))


@model("builtins.id")
def _id(vm, a, k):
    return Sym(INT, vm.fresh("id", z3.IntSort()))


@model("builtins.type")
def _type(vm, a, k):
    v = a[0]
    if isinstance(v, Sym) and v.k is VAL:
        return TypeOf(v)
    if isinstance(v, PyObj):
        return v.cls
    if isinstance(v, Sym):
        return {"int": int, "bool": bool, "real": float, "str": str, "bytes": bytes}[v.k.name]
    if isinstance(v, PyList):
        return list
    if isinstance(v, PySet):
        return set
    if isinstance(v, PyDict):
        return dict
    if isinstance(v, PyTupSeq):
        return tuple
    if conc(v) or isinstance(v, tuple):
        return type(v)
    return TypeOf(v)


@model("builtins.super")
def _super(vm, a, k):
    raise Unsupported("super()")


@model("builtins.round")
def _round(vm, a, k):
    if all(conc(x) for x in a):
        return round(*a)
    v = vm.narrow(a[0])
    if isinstance(v, Sym) and v.k in (INT, BOOL):
        return v
    raise Unsupported("round")


@model("builtins.abs")
def _abs(vm, a, k):
    v = vm.narrow(a[0])
    if conc(v):
        return abs(v)
    return Sym(v.k, z3.If(v.t >= 0, v.t, -v.t))


@model("builtins.ord")
def _ord(vm, a, k):
    v = vm.narrow(a[0])
    if conc(v):
        return ord(v)
    raise Unsupported("ord")


@model("builtins.chr")
def _chr(vm, a, k):
    if conc(a[0]):
        return chr(a[0])
    raise Unsupported("chr")


@model("builtins.bytearray")
def _bytearray(vm, a, k):
    b = PyObj(External("bytearray"))
    v = a[0] if a else b""
    b.state = {"data": v}
    return b


# a bytearray is an object holding a byte sequence
B["method:bytearray.extend"] = lambda vm, s, a, k: vm.setattr(
    s, "data", Sym(BYTES, concat(z3.StringVal(""), vm.term(s.state["data"], BYTES), vm.term(bytes_of(vm, a[0]), BYTES))))
B["len:bytearray"] = lambda vm, s: Sym(INT, z3.simplify(z3.Length(vm.term(s.state["data"], BYTES))))
B["truth:bytearray"] = lambda vm, s: z3.simplify(z3.Length(vm.term(s.state["data"], BYTES)) > 0)
B["bytes:bytearray"] = lambda vm, s: s.state["data"]
B["method:bytearray.clear"] = lambda vm, s, a, k: vm.setattr(s, "data", b"")


def _ba_op(vm, a, b):
    if isinstance(a, PyObj):
        return mk_ba(Sym(BYTES, concat(z3.StringVal(""), vm.term(a.state["data"], BYTES), vm.term(bytes_of(vm, b), BYTES))))
    raise Unsupported("bytearray operator")


def mk_ba(v):
    o = PyObj(External("bytearray"))
    o.state = {"data": v}
    return o


B["op:bytearray.Add"] = _ba_op


def bytes_of(vm, v):
    if isinstance(v, PyObj) and getattr(v.cls, "q", "") == "bytearray":
        return v.state["data"]
    return vm.narrow(v)


# -------------------------------------------------------------- list
def seq_state(vm, st, extra=None):
    if st[0] == "seq":
        return st
    e = vm.elem_codec(st)
    return ("seq", e, vm.seq_term(st, e))


@model("list.append")
def _append(vm, s, a, k):
    vm.append(s, a[0])


@model("list.extend")
def _extend(vm, s, a, k):
    st = state_of(vm, a[0])
    if st[0] in ("enum", "range"):
        st = vm.comp_state(st, lambda x: x)
    vm.mut(s, vm.cat_states(s.state, st))


@model("list.insert")
def _insert(vm, s, a, k):
    if s.state[0] == "items" and conc(a[0]):
        l = list(s.state[1])
        l.insert(a[0], a[1])
        vm.mut(s, ("items", tuple(l)))
        return
    if a[0] == 0:
        vm.mut(s, vm.cat_states(("items", (a[1],)), s.state))
        return
    raise Unsupported("list.insert")


@model("list.pop")
def _pop(vm, s, a, k):
    st = s.state
    i = a[0] if a else -1
    if st[0] == "items" and conc(i):
        l = list(st[1])
        try:
            v = l.pop(i)
        except IndexError as e:
            raise PyExc(IndexError, e.args)
        vm.mut(s, ("items", tuple(l)))
        return v
    st = seq_state(vm, st)
    t = st[2]
    if not vm.branch(z3.Length(t) > 0):
        raise PyExc(IndexError, ())
    if i == 0:
        x, r = vm.uncons(st[1], t)
    elif i == -1:
        x = vm.fresh("last", st[1].sort)
        r = vm.fresh("init", t.sort())
        vm.assume(t == z3.Concat(r, z3.Unit(x)))
    else:
        raise Unsupported("list.pop(i)")
    vm.mut(s, ("seq", st[1], r))
    return st[1].wrap(x)


@model("list.remove")
def _remove(vm, s, a, k):
    st = s.state
    if st[0] == "items":
        for j, e in enumerate(st[1]):
            if vm.branch(vm.eq_term(e, a[0])):
                vm.mut(s, ("items", st[1][:j] + st[1][j + 1:]))
                return
        raise PyExc(ValueError, ("list.remove",))
    t = st[2]
    x = vm.term(a[0], st[1])
    if not vm.branch(z3.Contains(t, z3.Unit(x))):
        raise PyExc(ValueError, ("list.remove",))
    p, r = vm.fresh("before", t.sort()), vm.fresh("after", t.sort())
    vm.assume(t == z3.Concat(p, z3.Unit(x), r))
    vm.assume(z3.Not(z3.Contains(p, z3.Unit(x))))
    vm.mut(s, ("seq", st[1], z3.Concat(p, r)))


@model("list.index", "tuple.index")
def _index(vm, s, a, k):
    st = s.state if isinstance(s, Heap) else ("items", s)
    if st[0] == "items":
        for j, e in enumerate(st[1]):
            if vm.branch(vm.eq_term(e, a[0])):
                return j
        raise PyExc(ValueError, ("index",))
    t = st[2]
    x = vm.term(a[0], st[1])
    if not vm.branch(z3.Contains(t, z3.Unit(x))):
        raise PyExc(ValueError, ("index",))
    return Sym(INT, z3.IndexOf(t, z3.Unit(x), 0))


@model("list.clear", "set.clear")
def _clear(vm, s, a, k):
    vm.mut(s, ("items", ()))


@model("list.copy", "set.copy")
def _copy(vm, s, a, k):
    return type(s)(s.state)


@model("list.sort")
def _lsort(vm, s, a, k):
    vm.mut(s, sort_state(vm, s.state, k.get("key"), k.get("reverse", False)))


@model("list.reverse")
def _lrev(vm, s, a, k):
    st = s.state
    if st[0] == "items":
        vm.mut(s, ("items", tuple(reversed(st[1]))))
    else:
        vm.mut(s, ("seq", st[1], perm_fn("reverse", st[2].sort())(st[2])))


@model("list.count")
def _count(vm, s, a, k):
    st = vm.filter_state(s.state, lambda x: vm.eq_term(x, a[0]))
    return len(st[1]) if st[0] == "items" else Sym(INT, z3.Length(st[2]))


# -------------------------------------------------------------- set
@model("set.add")
def _sadd(vm, s, a, k):
    vm.append(s, a[0])


@model("set.update")
def _supdate(vm, s, a, k):
    for x in a:
        _extend(vm, s, [x], {})


@model("set.union")
def _sunion(vm, s, a, k):
    r = PySet(s.state)
    for x in a:
        _extend(vm, r, [x], {})
    return r


@model("set.discard")
def _sdiscard(vm, s, a, k):
    vm.mut(s, vm.filter_state(s.state, lambda x: vm.eq_term(x, a[0]), False))


@model("set.remove")
def _sremove(vm, s, a, k):
    c = vm.contains(s, a[0])
    if not vm.branch(c):
        raise PyExc(KeyError, (a[0],))
    _sdiscard(vm, s, a, k)


@model("set.difference")
def _sdiff(vm, s, a, k):
    return PySet(vm.filter_state(s.state, lambda x: vm.contains(a[0], x), False))


@model("set.intersection")
def _sinter(vm, s, a, k):
    return PySet(vm.filter_state(s.state, lambda x: vm.contains(a[0], x), True))


# -------------------------------------------------------------- dict with known keys
@model("dict.get")
def _dget(vm, s, a, k):
    if is_mapst(s.state):
        return vm.getitem(s, a[0]) if vm.branch(vm.contains(s, a[0])) else (a[1] if len(a) > 1 else None)
    for kk, v in s.state:
        if vm.branch(vm.eq_term(kk, a[0])):
            return v
    return a[1] if len(a) > 1 else None


@model("dict.items")
def _ditems(vm, s, a, k):
    return PyList(("items", tuple((kk, v) for kk, v in s.state)))


@model("dict.keys")
def _dkeys(vm, s, a, k):
    return PySet(("items", tuple(kk for kk, v in s.state)))


@model("dict.values")
def _dvalues(vm, s, a, k):
    return PyList(("items", tuple(v for kk, v in s.state)))


@model("dict.copy")
def _dcopy(vm, s, a, k):
    return PyDict(s.state)


@model("dict.pop")
def _dpop(vm, s, a, k):
    if is_mapst(s.state):
        if not vm.branch(vm.contains(s, a[0])):
            if len(a) > 1:
                return a[1]
            raise PyExc(KeyError, (a[0],))
        v = vm.getitem(s, a[0])
        vm.delitem(s, a[0])
        return v
    st = list(s.state)
    for j, (kk, v) in enumerate(st):
        if vm.branch(vm.eq_term(kk, a[0])):
            del st[j]
            vm.mut(s, tuple(st))
            return v
    if len(a) > 1:
        return a[1]
    raise PyExc(KeyError, (a[0],))


@model("dict.update")
def _dupdate(vm, s, a, k):
    if a:
        o = a[0]
        if not isinstance(o, PyDict):
            raise Unsupported("dict.update")
        for kk, v in o.state:
            vm.setitem(s, kk, v)
    for kk, v in k.items():
        vm.setitem(s, kk, v)


@model("dict.setdefault")
def _dsetdefault(vm, s, a, k):
    for kk, v in s.state:
        if vm.branch(vm.eq_term(kk, a[0])):
            return v
    v = a[1] if len(a) > 1 else None
    vm.setitem(s, a[0], v)
    return v


@model("dict.clear")
def _dclear(vm, s, a, k):
    vm.mut(s, ())


# -------------------------------------------------------------- records (boxed dicts)
@model("record.get")
def _rget(vm, s, a, k):
    if not vm.branch(z3.And(V.is_obj(s.t), ISDICT(s.t))):
        raise PyExc(AttributeError, ("get",))
    kk = vm.to_V(a[0])
    d = vm.to_V(a[1]) if len(a) > 1 else V.none
    return Sym(VAL, z3.simplify(z3.If(z3.Select(z3.Select(vm.HAS, vm.orig(s.t)), kk), z3.Select(z3.Select(vm.DICT, vm.orig(s.t)), kk), d)))


@model("record.keys")
def _rkeys(vm, s, a, k):
    if not vm.branch(z3.And(V.is_obj(s.t), ISDICT(s.t))):
        raise PyExc(AttributeError, ("keys",))
    return PySet(("seq", VAL, fields(vm, s.t, KEYS)))


PAIR = tup_codec([VAL, VAL])
ITEMS = z3.Function("items", V, z3.SeqSort(PAIR.sort))


@model("record.items")
def _ritems(vm, s, a, k):
    if not vm.branch(z3.And(V.is_obj(s.t), ISDICT(s.t))):
        raise PyExc(AttributeError, ("items",))
    t = fields(vm, s.t, ITEMS)
    if z3.is_app(s.t) and s.t.decl().name() == "dict_of":
        pass
    return PyList(("seq", PAIR, t))


@model("record.values")
def _rvalues(vm, s, a, k):
    if not vm.branch(z3.And(V.is_obj(s.t), ISDICT(s.t))):
        raise PyExc(AttributeError, ("values",))
    x = z3.Const("itx", PAIR.sort)
    return PyList(("seq", VAL, apply_cmap(cmap(x, z3.Unit(PAIR.dt.accessor(0, 1)(x))), fields(vm, s.t, ITEMS))))


@model("record.copy")
def _rcopy(vm, s, a, k):
    n = vm.fresh("copy", V)
    vm.assume(z3.And(V.is_obj(n), ISDICT(n), n != s.t))
    vm.assume(z3.Select(vm.DICT, n) == z3.Select(vm.DICT, s.t))
    vm.assume(z3.Select(vm.HAS, n) == z3.Select(vm.HAS, s.t))
    if fields_unchanged(vm, s.t):
        vm.assume(KEYS(n) == KEYS(s.t))
        vm.assume(ITEMS(n) == ITEMS(s.t))
        src = vm.births[s.t.decl().name()][2] if s.t.decl().name() in vm.births else s.t
        vm.births = {**vm.births, n.decl().name(): (vm.HAS, vm.DICT, src)}
    else:
        vm.births = {**vm.births, n.decl().name(): None}
    return Sym(VAL, n)


def fields_unchanged(vm, t):
    """has the record still the fields and values its KEYS and ITEMS speak of"""
    b = vm.births.get(t.decl().name(), (vm.HAS_AT_START, vm.DICT_AT_START, None)) if z3.is_app(t) else (vm.HAS_AT_START, vm.DICT_AT_START)
    if b is None:
        return False
    h, d = b[:2]
    if vm.HAS.eq(h) and vm.DICT.eq(d):
        return True
    return vm.check([z3.Not(z3.And(z3.Select(vm.HAS, t) == z3.Select(h, t), z3.Select(vm.DICT, t) == z3.Select(d, t)))]) == z3.unsat


model("record.fields")(lambda vm, t, what: fields(vm, t, what))


def fields(vm, t, what):
    if not fields_unchanged(vm, t):
        raise Unsupported("iterating over a record that was changed")
    b = vm.births.get(t.decl().name()) if z3.is_app(t) else None
    return what(b[2] if b else t)


@model("record.pop")
def _rpop(vm, s, a, k):
    kk = vm.to_V(a[0])
    if not vm.branch(z3.Select(z3.Select(vm.HAS, s.t), kk)):
        if len(a) > 1:
            return a[1]
        raise PyExc(KeyError, (a[0],))
    v = Sym(VAL, z3.simplify(z3.Select(z3.Select(vm.DICT, s.t), kk)))
    vm.HAS = z3.Store(vm.HAS, s.t, z3.Store(z3.Select(vm.HAS, s.t), kk, z3.BoolVal(False)))
    return v


# -------------------------------------------------------------- str
SPLIT = ufun("split", S, S, SSEQ)
JOIN = ufun("join", S, SSEQ, S)
REPL = ufun("replace_all", S, S, S, S)
UPPER, LOWER, STRIP = ufun("upper", S, S), ufun("lower", S, S), ufun("strip", S, S)


def st_(vm, v):
    v = vm.narrow(v)
    if isinstance(v, str) or (isinstance(v, Sym) and v.k is STR):
        return vm.term(v, STR)
    raise PyExc(TypeError, ("str expected",))


def cut_once(vm, s, sep, last):
    """s.split(sep, 1), or s.rsplit(sep, 1), of a separator that is one character"""
    t = st_(vm, s)
    x = z3.StringVal(sep)
    if not vm.branch(z3.Contains(t, x)):
        return PyList(("items", (s,)))
    n = "last" if last else "first"
    a, b = ufun(f"before_{n}", S, S, S)(t, x), ufun(f"after_{n}", S, S, S)(t, x)
    vm.assume(t == z3.Concat(a, x, b))
    vm.assume(z3.Not(z3.Contains(b if last else a, x)))
    return PyList(("items", (Sym(STR, a), Sym(STR, b))))


@model("str.split", "str!split")
def _split(vm, s, a, k):
    if not a:
        return PyList(("seq", STR, ufun("split_ws", S, SSEQ)(st_(vm, s))))
    if len(a) == 1 and not k and _known("split", s, a) is not None:
        return PyList(("items", tuple(_known("split", s, a))))
    if len(a) > 1 or k:
        n = a[1] if len(a) > 1 else k.get("maxsplit")
        if conc(n) and n == 1 and isinstance(vm.narrow(a[0]), str) and len(vm.narrow(a[0])) == 1:
            return cut_once(vm, s, vm.narrow(a[0]), False)
        f = ufun(f"split_max", S, S, z3.IntSort(), SSEQ)
        r = f(st_(vm, s), st_(vm, a[0]), vm.num(n, INT))
        return PyList(("seq", STR, r))
    sep = st_(vm, a[0])
    cs, xs = chars_of(st_(vm, s)), chars_of(sep)
    if cs is not None and xs is not None and len(xs) == 1:
        parts = [[]]
        for c in cs:
            if vm.branch(c == xs[0]):
                parts.append([])
            else:
                parts[-1].append(c)
        ts = [text_from(p) if p else "" for p in parts]
        return PyList(("items", tuple(t if isinstance(t, str) else Sym(STR, t) for t in ts)))
    r = SPLIT(st_(vm, s), sep)
    vm.assume(z3.Length(r) >= 1)
    vm.assume(JOIN(sep, r) == st_(vm, s))
    vm.assume((z3.Length(r) == 1) == z3.Not(z3.Contains(st_(vm, s), sep)))
    vm.assume(z3.Implies(z3.Length(r) == 1, r == z3.Unit(st_(vm, s))))
    return PyList(("seq", STR, r))


@model("str.rsplit", "str!rsplit")
def _rsplit(vm, s, a, k):
    n = a[1] if len(a) > 1 else k.get("maxsplit", -1)
    if conc(n) and n == 1 and a and isinstance(vm.narrow(a[0]), str) and len(vm.narrow(a[0])) == 1:
        return cut_once(vm, s, vm.narrow(a[0]), True)
    f = ufun("rsplit_max", S, S, z3.IntSort(), SSEQ)
    return PyList(("seq", STR, f(st_(vm, s), st_(vm, a[0]), vm.num(n, INT))))


@model("str.join", "str!join")
def _join(vm, s, a, k):
    st = state_of(vm, a[0])
    if st[0] in ("enum", "range"):
        st = vm.comp_state(st, lambda x: x)
    if st[0] == "items":
        items = [vm.narrow(e) for e in st[1]]
        for e in items:
            if not (isinstance(e, str) or (isinstance(e, Sym) and e.k is STR)):
                raise PyExc(TypeError, ("join",))
        if all(isinstance(e, str) for e in items) and isinstance(s, str):
            return s.join(items)
        out = []
        for i, e in enumerate(items):
            if i and not (isinstance(s, str) and s == ""):
                out.append(st_(vm, s))
            out.append(st_(vm, e))
        return Sym(STR, concat(z3.StringVal(""), *out))
    if st[1] is CHAR and isinstance(s, str) and s == "":
        return Sym(STR, st[2])
    if st[1] is STR:
        if isinstance(s, str) and s == "":
            r = glue(st[2])
            if r is not None:
                return Sym(STR, r)
        return Sym(STR, JOIN(st_(vm, s), st[2]))
    if st[1] is VAL:
        bad = vm.filter_state(st, lambda x: V.is_str(x.t), False)
        if bad[0] == "seq" and vm.branch(z3.Length(bad[2]) > 0):
            raise PyExc(TypeError, ("join",))
        return Sym(STR, JOIN(st_(vm, s), vm.seq_term(st, STR)))
    raise Unsupported("join")


def glue(t):
    """"".join of a sequence of strings, as a string homomorphism"""
    if T.is_empty_term(t):
        return z3.StringVal("")
    if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        cs = [glue(c) for c in t.children()]
        return None if any(c is None for c in cs) else concat(z3.StringVal(""), *cs)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = glue(t.arg(1)), glue(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    if as_cmap(t) is not None:
        m = as_cmap(t)[0]
        b = glue(m.body)
        if b is not None:
            return apply_cmap(cmap(m.x, b), t.arg(0))
    return None


@model("str.replace", "str!replace")
def _replace(vm, s, a, k):
    t, old, new = st_(vm, s), vm.narrow(a[0]), vm.narrow(a[1])
    if isinstance(old, str) and len(old) == 1 and len(a) == 2:
        x = z3.Const("chx", CHAR_SORT)
        m = cmap(x, z3.If(x == z3.CharVal(ord(old)), st_(vm, new), z3.Unit(x)))
        return Sym(STR, apply_cmap(m, t))
    if len(a) > 2:
        return Sym(STR, ufun("replace_n", S, S, S, z3.IntSort(), S)(t, st_(vm, old), st_(vm, new), vm.num(a[2], INT)))
    o, n = st_(vm, old), st_(vm, new)
    r = REPL(t, o, n)
    vm.assume(z3.Implies(z3.Not(z3.Contains(t, o)), r == t))
    return Sym(STR, r)


for _n in ("center", "ljust", "rjust"):
    def _filled(vm, s, a, k, n=_n):
        w = vm.narrow(a[0])
        if k or len(a) > 1:
            raise Unsupported("a fill")
        if isinstance(vm.narrow(s), str) and conc(w):
            return getattr(vm.narrow(s), n)(w)
        return Sym(STR, ufun(n, S, z3.IntSort(), S)(st_(vm, s), vm.num(w, INT)))

    model(f"str.{_n}", f"str!{_n}")(_filled)


@model("html.escape")
def _html_escape(vm, a, k):
    v = vm.narrow(a[0])
    q = k.get("quote", a[1] if len(a) > 1 else True)
    if not isinstance(q, bool) or not (isinstance(v, str) or isinstance(v, Sym) and v.k is STR):
        raise Unsupported("html.escape")
    for c, r in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;")) + ((('"', "&quot;"), ("'", "&#x27;")) if q else ()):
        v = _replace(vm, v, [c, r], {})
    return v


@model("str.maketrans")
def _maketrans(vm, a, k):
    d = a[0] if len(a) == 1 else None
    if not isinstance(d, PyDict):
        raise Unsupported("maketrans")
    return d


@model("str.translate", "str!translate")
def _translate(vm, s, a, k):
    d = vm.narrow(a[0])
    if not isinstance(d, PyDict):
        raise Unsupported("a translation table of another form")
    x = z3.Const("chx", CHAR_SORT)
    body = z3.Unit(x)
    for c, r in d.state:
        c = chr(c) if type(c) is int else c
        if not (isinstance(c, str) and len(c) == 1 and (r is None or isinstance(r, str))):
            raise Unsupported("a translation table of another form")
        body = z3.If(x == z3.CharVal(ord(c)), z3.StringVal(r or ""), body)
    return Sym(STR, apply_cmap(cmap(x, body), st_(vm, s)))


@model("str.upper", "str!upper")
def _upper(vm, s, a, k):
    s = vm.narrow(s)
    return s.upper() if isinstance(s, str) else Sym(STR, UPPER(st_(vm, s)))


@model("str.lower", "str!lower")
def _lower(vm, s, a, k):
    s = vm.narrow(s)
    return s.lower() if isinstance(s, str) else Sym(STR, LOWER(st_(vm, s)))


def known_text(v):
    """the Python string a value is, where that is known"""
    if isinstance(v, str):
        return v
    if isinstance(v, Sym) and v.k is STR:
        t = z3.simplify(v.t)
        if z3.is_string_value(t) and "\\" not in t.as_string() and t.as_string().isascii():
            return t.as_string()
    return None


def _known(name, s, a):
    """the method's result on known strings"""
    ts = [known_text(x) for x in [s] + list(a)]
    return None if any(t is None for t in ts) else getattr(ts[0], name)(*ts[1:])


@model("str.strip", "str!strip")
def _strip(vm, s, a, k):
    if _known("strip", s, a) is not None:
        return _known("strip", s, a)
    if a:
        return Sym(STR, ufun("strip_chars", S, S, S)(st_(vm, s), st_(vm, a[0])))
    return Sym(STR, STRIP(st_(vm, s)))


for _n in ("rstrip", "lstrip", "title", "capitalize", "casefold", "swapcase"):
    def _f(vm, s, a, k, _n=_n):
        if _known(_n, s, a) is not None:
            return _known(_n, s, a)
        if a:
            return Sym(STR, ufun(_n + "_chars", S, S, S)(st_(vm, s), st_(vm, a[0])))
        return Sym(STR, ufun(_n, S, S)(st_(vm, s)))
    B["str." + _n] = _f
    B["str!" + _n] = _f


@model("str.startswith", "str!startswith")
def _startswith(vm, s, a, k):
    p = vm.narrow(a[0])
    if isinstance(p, tuple):
        return vm.wrapb(z3.Or(*[z3.PrefixOf(st_(vm, x), st_(vm, s)) for x in p]))
    if isinstance(p, PyTupSeq):
        e = vm.filter_state(p.state, lambda x: z3.PrefixOf(st_(vm, x), st_(vm, s)))
        return vm.wrapb(z3.Length(e[2]) > 0)
    return vm.wrapb(z3.PrefixOf(st_(vm, p), st_(vm, s)))


@model("str.endswith", "str!endswith")
def _endswith(vm, s, a, k):
    p = vm.narrow(a[0])
    if isinstance(p, tuple):
        return vm.wrapb(z3.Or(*[z3.SuffixOf(st_(vm, x), st_(vm, s)) for x in p]))
    return vm.wrapb(z3.SuffixOf(st_(vm, p), st_(vm, s)))


@model("str.find", "str!find")
def _find(vm, s, a, k):
    return Sym(INT, z3.IndexOf(st_(vm, s), st_(vm, a[0]), vm.num(a[1], INT) if len(a) > 1 else 0))


@model("str.encode")
def _encode(vm, s, a, k):
    return Sym(BYTES, ufun("utf8", S, S)(st_(vm, s)))


@model("bytes.decode")
def _decode(vm, s, a, k):
    return Sym(STR, ufun("utf8_decode", S, S)(vm.term(s, BYTES)))


for _n in ("isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric", "isspace", "isupper", "islower", "isidentifier"):
    def _f(vm, s, a, k, _n=_n):
        t = z3.simplify(vm.settle(st_(vm, s)))
        if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
            return vm.wrapb(ufun("ch_" + _n, CHAR_SORT, z3.BoolSort())(t.arg(0)))
        if _n in ("isalnum", "isalpha", "isdigit", "isspace", "isdecimal", "isnumeric"):
            x = z3.Const("chx", CHAR_SORT)
            bad = cmap(x, z3.If(ufun("ch_" + _n, CHAR_SORT, z3.BoolSort())(x), z3.StringVal(""), z3.Unit(x)))
            return vm.wrapb(z3.And(z3.Length(t) > 0, z3.Length(apply_cmap(bad, t)) == 0))
        return vm.wrapb(ufun(_n, S, z3.BoolSort())(t))
    B["str." + _n] = _f
    B["str!" + _n] = _f


@model("str.splitlines")
def _splitlines(vm, s, a, k):
    return PyList(("seq", STR, ufun("splitlines", S, SSEQ)(st_(vm, s))))


@model("str.format", "str!format")
def _format(vm, s, a, k):
    if isinstance(s, str):
        import string
        out = []
        n = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == "":
                v = a[n]
                n += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                raise Unsupported("format")
            out.append(vm.format(v, spec or "", -1 if not conv else ord(conv)))
        return Sym(STR, concat(z3.StringVal(""), *[vm.term(p, STR) for p in out])) if out else ""
    raise Unsupported("format")


@model("str.zfill", "str!zfill")
def _zfill(vm, s, a, k):
    return Sym(STR, ufun("zfill", S, z3.IntSort(), S)(st_(vm, s), vm.num(a[0], INT)))


# -------------------------------------------------------------- functools / itertools
@model("functools.reduce")
def _reduce(vm, a, k):
    st = state_of(vm, a[1])
    if st[0] == "items":
        items = list(st[1])
        if len(a) > 2:
            acc = a[2]
        elif items:
            acc = items.pop(0)
        else:
            raise PyExc(TypeError, ("reduce() of empty sequence",))
        for e in items:
            acc = vm.call(a[0], [acc, e], {})
        return acc
    # a fold determined by the step function: named by its effect on generic arguments
    codec, t = st[1], st[2]
    acc0 = a[2] if len(a) > 2 else None
    if len(a) > 2:
        ka = vm.codec_of(acc0)
        A, X = vm.fresh("acc", ka.sort), vm.fresh("x", codec.sort)
        outs = vm.sub_explore(lambda: vm.call(a[0], [ka.wrap(A), codec.wrap(X)], {}))
        body = None
        for conds, o, facts, ch in outs:
            if o[0] != "ok" or ch:
                raise Unsupported("reduce with effects")
            v = vm.term(o[1], ka)
            body = v if body is None else z3.If(z3.And(*conds) if conds else True, v, body)
        return Sym(ka, fold_fn(A, X, body, ka, t.sort())(vm.term(acc0, ka), t))
    raise Unsupported("reduce without initial value")


FOLDS = {}


def fold_fn(A, X, body, ka, seqsort):
    """fold(acc, seq) of a step; fold(a, []) = a, fold(a, p ++ [x]) = step(fold(a, p), x)"""
    ca, cx = z3.Const("fold_acc", A.sort()), z3.Const("fold_x", X.sort())
    b = z3.simplify(z3.substitute(body, (A, ca), (X, cx)))
    key = (str(A.sort()), str(X.sort()), b.sexpr())
    if key not in FOLDS:
        n = f"FOLD{len(FOLDS)}"
        FOLDS[key] = (z3.Function(n, A.sort(), seqsort, A.sort()), ca, cx, b)
    return FOLDS[key][0]


@model("itertools.chain")
def _chain(vm, a, k):
    st = ("items", ())
    for x in a:
        st = vm.cat_states(st, state_of(vm, x))
    return PyIter(st)


@model("itertools.islice")
def _islice(vm, a, k):
    it = a[0]
    st = vm.iter_state(it)
    if len(a) != 2:
        raise Unsupported("islice")
    n = vm.narrow(a[1])
    if n is None:
        return PyIter(state_of(vm, it))
    if st[0] in ("enum", "range"):
        st = vm.comp_state(st, lambda x: x)
    if vm.branch(vm.order(ast.Lt(), n, 0)):
        raise PyExc(ValueError, ("islice",))
    if st[0] == "items":
        if not conc(n):
            n = next((j for j in range(len(st[1])) if vm.branch(vm.num(n, INT) == j)), len(st[1]))
        if isinstance(it, PyIter):
            vm.mut(it, ("items", st[1][n:]))
        return PyIter(("items", st[1][:n]))
    st = seq_state(vm, st)
    nt = vm.num(n, INT)
    ln = z3.Length(st[2])
    h = z3.If(nt < ln, nt, ln)
    if isinstance(it, PyIter):
        vm.mut(it, ("seq", st[1], z3.Extract(st[2], h, ln - h)))
    return PyIter(("seq", st[1], z3.Extract(st[2], 0, h)))


# -------------------------------------------------------------- time
@model("time.time_ns", "time.time", "time.perf_counter", "time.monotonic")
def _time(vm, a, k):
    t = vm.fresh("time", z3.IntSort())
    last = getattr(vm, "last_time", None)
    if last is not None and last[0] is vm.solver:
        vm.assume(t >= last[1])
    vm.last_time = (vm.solver, t)
    return Sym(INT, t)


@model("time.sleep")
def _sleep(vm, a, k):
    return None


BASE = B


def _operator(op):
    return lambda vm, a, k: vm.wrapb(vm.compare(op, a[0], a[1]))


for _n, _o in (("eq", ast.Eq()), ("ne", ast.NotEq()), ("lt", ast.Lt()), ("gt", ast.Gt()), ("le", ast.LtE()), ("ge", ast.GtE()), ("is_", ast.Is()), ("is_not", ast.IsNot())):
    B["operator." + _n] = B["_operator." + _n] = _operator(_o)
