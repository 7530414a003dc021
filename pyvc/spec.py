"""Helpers for writing contracts."""
import z3

from .models import *
from . import libs
from .libs import *
from .models import BASE, S, SSEQ, PAIR, ITEMS, perm_fn, state_of, ufun, st_
from .interp import Interp
from .vm import *
from .terms import *
from .runner import registry


def fn(vm, qual):
    """the repository's function or class of that dotted name"""
    parts = qual.split(".")
    for i in range(len(parts) - 1, 0, -1):
        mod = ".".join(parts[:i])
        if vm.tree(mod) is not None:
            o = vm.module_get(mod, parts[i])
            for p in parts[i + 1 :]:
                o = vm.getattr(o, p) if not isinstance(o, ClassInfo) else o.lookup(vm, p)[0]
            if o is None:
                raise Unsupported(f"{qual} is not in the source")
            return o
    raise Unsupported(f"{qual} is not in the source")


def outcome(vm, f, *args, **kw):
    """("ok", value) or ("exc", PyExc)"""
    try:
        return "ok", vm.call(f, list(args), kw)
    except PyExc as e:
        return "exc", e


def sstr(vm, name):
    return Sym(STR, vm.fresh(name, S))


def sint(vm, name, lo=None):
    t = vm.fresh(name, z3.IntSort())
    if lo is not None:
        vm.assume(t >= lo)
    return Sym(INT, t)


def sval(vm, name):
    return Sym(VAL, vm.fresh(name, V))


def sbool(vm, name):
    return Sym(BOOL, vm.fresh(name, z3.BoolSort()))


def is_rec(x):
    return z3.And(V.is_obj(x), ISDICT(x))


def records(vm, name="records"):
    """an arbitrary sequence of dictionaries"""
    t = vm.fresh(name, SV)
    vm.every(t, is_rec)
    return t


def rec(vm, name="record"):
    t = vm.fresh(name, V)
    vm.assume(is_rec(t))
    return Sym(VAL, t)


def seqv(t, codec=VAL):
    return PyList(("seq", codec, t))


def has(vm, r, k):
    return z3.Select(z3.Select(vm.HAS, vm.orig(r)), k)


def at(vm, r, k):
    return z3.Select(z3.Select(vm.DICT, vm.orig(r)), k)


def getd(vm, r, k):
    """r.get(k)"""
    return z3.If(has(vm, r, k), at(vm, r, k), V.none)


def filt(vm, t, pred):
    """spec: the elements of t that satisfy pred (term -> z3 Bool), in order"""
    x = z3.FreshConst(t.sort().basis() if not is_z3str(t.sort()) else CHAR_SORT, "spx")
    return apply_cmap(cmap(x, z3.If(pred(x), z3.Unit(x), empty(t.sort()))), t)


def mapped(vm, t, f):
    """spec: f (term -> sequence term) of every element, concatenated"""
    x = z3.FreshConst(t.sort().basis() if not is_z3str(t.sort()) else CHAR_SORT, "spx")
    return apply_cmap(cmap(x, f(x)), t)


def items_of(vm, v, codec=VAL):
    st = vm.iter_state(v)
    if st[0] in ("enum", "range"):
        st = vm.comp_state(st, lambda x: x)
    return vm.seq_term(st, codec)


def py(f):
    """a Python-callable model as a function value"""
    return Builtin(getattr(f, "__name__", "f"), lambda vm, a, k: f(vm, *a, **k))


def char_const(c):
    return z3.CharVal(ord(c))


class Every:
    """an invariant's claim about every element of a sequence"""

    def __init__(self, t, pred):
        self.t, self.pred = t, pred


def assume_inv(vm, claims):
    for c in claims:
        if isinstance(c, Every):
            vm.every(c.t, c.pred)
        else:
            vm.assume(c)


def prove_inv(vm, name, claims):
    for i, c in enumerate(claims):
        vm.prove(f"{name} ({i + 1})" if len(claims) > 1 else name, vm.every_goal(c.t, c.pred) if isinstance(c, Every) else c)


def fold(vm, name, inv, codec, split=None):
    """a contract for functools.reduce: inv(done elements, accumulator) is checked to hold at
    the start and to be kept by the step, and is all that is known of the result"""

    def model(vm, a, k):
        st = vm.iter_state(a[1])
        ec = st[1] if st[0] == "seq" else vm.elem_codec(st)
        t = vm.seq_term(st, ec)
        if len(a) > 2:
            prove_inv(vm, f"{name}: holds before the first step", inv(empty(t.sort()), a[2]))
        else:
            if not vm.branch(z3.Length(t) > 0):
                raise PyExc(TypeError, ("reduce() of empty sequence",))
            prove_inv(vm, f"{name}: holds of the first element", inv(z3.Unit(t[0]), ec.wrap(t[0])))

        if vm.unroll is not None:
            xs = [ec.wrap(x) for x in vm.split_elements(t, ec)]
            acc = a[2] if len(a) > 2 else xs.pop(0)
            if not isinstance(codec, tuple):
                acc = codec.wrap(vm.term(acc, codec))
            done = empty(t.sort()) if len(a) > 2 else z3.Unit(vm.term(acc, ec))
            for x in xs:
                if split:
                    split(done, acc, x)
                acc = vm.call(a[0], [acc, x], {})
                if not isinstance(codec, tuple):
                    acc = codec.wrap(vm.term(acc, codec))
                done = concat(empty(t.sort()), done, z3.Unit(vm.term(x, ec)))
            return acc

        def arbitrary(tag):
            if isinstance(codec, tuple):
                return codec[0](vm.fresh(tag, codec[1]))
            return codec.wrap(vm.fresh(tag, codec.sort))

        def step():
            p, x, r = vm.fresh("pre", t.sort()), vm.fresh("x", ec.sort), vm.fresh("rest", t.sort())
            vm.assume(t == concat(empty(t.sort()), p, z3.Unit(x), r))
            vm.inherit(t, p)
            vm.elem_assume(t, x)
            if len(a) <= 2:
                vm.assume(z3.Length(p) > 0)
            acc = arbitrary("acc")
            assume_inv(vm, inv(p, acc))
            if split:
                split(p, acc, ec.wrap(x))
            n = vm.call(a[0], [acc, ec.wrap(x)], {})
            prove_inv(vm, f"{name}: kept by every step", inv(concat(empty(t.sort()), p, z3.Unit(x)), n))

        if not z3.is_true(z3.simplify(z3.Length(t) == 0)):
            vm.sub_explore(step)
        res = arbitrary("folded")
        assume_inv(vm, inv(t, res))
        return res

    return model


def pick(vm, label, n):
    """one of 0..n-1, any of them"""
    for i in range(n - 1):
        if vm.choose(f"{label} {i}"):
            return i
    return n - 1


ANY_EXCEPTION = External("AnyException")


def any_exception(text):
    """an exception of any class below Exception"""
    e = PyExc(ANY_EXCEPTION, (text,))
    e.obj = PyObj(ANY_EXCEPTION, {"args": (text,)})
    return e
