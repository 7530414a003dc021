"""Terms, codecs and sequence-map symbols of the verifier's logic.

Logic: many-sorted FOL with sequences, strings, integers and reals (z3).  `V` is the
universal sort of dynamically typed Python values.
"""
import z3

_V = z3.Datatype("V")
_V.declare("none")
_V.declare("bool", ("b", z3.BoolSort()))
_V.declare("int", ("i", z3.IntSort()))
_V.declare("real", ("r", z3.RealSort()))
_V.declare("str", ("s", z3.StringSort()))
_V.declare("bytes", ("y", z3.StringSort()))
_V.declare("list", ("l", z3.SeqSort(z3.DatatypeSort("V"))))
_V.declare("tup", ("t", z3.SeqSort(z3.DatatypeSort("V"))))
_V.declare("obj", ("o", z3.IntSort()))
V = _V.create()
SV = z3.SeqSort(V)
CHAR_SORT = z3.CharSort()


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation is undecided."""


class Codec:
    def __init__(self, name, sort):
        self.name, self.sort = name, sort

    def __repr__(self):
        return self.name

    def wrap(self, term):
        return Sym(self, term)


class CharCodec(Codec):
    """Elements of a string seen as a sequence: wrapped as one-character strings."""

    def wrap(self, term):
        return Sym(STR, z3.Unit(term))


class ByteCharCodec(Codec):
    def wrap(self, term):
        return Sym(BYTES, z3.Unit(term))


INT = Codec("int", z3.IntSort())
BOOL = Codec("bool", z3.BoolSort())
REAL = Codec("real", z3.RealSort())
STR = Codec("str", z3.StringSort())
BYTES = Codec("bytes", z3.StringSort())
VAL = Codec("val", V)
CHAR = CharCodec("char", CHAR_SORT)

UNIQS = set()  # names of the functions that give a set's members
_tups = {}
_lists = {}


class TupCodec(Codec):
    def __init__(self, elems):
        self.elems = elems
        name = "T_" + "_".join(e.name for e in elems)
        d = z3.Datatype(name)
        d.declare("mk", *[(f"f{i}", e.sort) for i, e in enumerate(elems)])
        d = d.create()
        self.dt = d
        super().__init__(name, d)

    def wrap(self, term):
        return tuple(
            e.wrap(z3.simplify(self.dt.accessor(0, i)(term))) for i, e in enumerate(self.elems)
        )


def tup_codec(elems):
    key = tuple(id(e) for e in elems)
    if key not in _tups:
        _tups[key] = TupCodec(list(elems))
    return _tups[key]


def join_codec(a, b):
    """a codec for values of either"""
    if a is b:
        return a
    if isinstance(a, TupCodec) and isinstance(b, TupCodec) and len(a.elems) == len(b.elems):
        return tup_codec([join_codec(x, y) for x, y in zip(a.elems, b.elems)])
    return VAL


class ListCodec(Codec):
    def __init__(self, elem):
        self.elem = elem
        super().__init__("L_" + elem.name, z3.SeqSort(elem.sort))

    def wrap(self, term):
        return PyList(("seq", self.elem, term))


def list_codec(elem):
    if id(elem) not in _lists:
        _lists[id(elem)] = ListCodec(elem)
    return _lists[id(elem)]


class Sym:
    """A symbolic scalar: codec plus z3 term."""

    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k, self.t = k, t

    def __repr__(self):
        return f"<{self.k} {self.t}>"


_oid = [0]


class Heap:
    """A mutable heap object.  `state` is replaced, never mutated in place."""

    def __init__(self, state):
        self.state = state
        _oid[0] += 1
        self.oid = _oid[0]


class PyList(Heap):
    """state: ("items", tuple_of_values) or ("seq", elem_codec, term)"""

    kind = "list"

    def __repr__(self):
        return f"PyList{self.state}"


class PySet(Heap):
    """state as PyList: a sequence of elements (duplicates irrelevant)"""

    kind = "set"

    def __repr__(self):
        return f"PySet{self.state}"


class PyDict(Heap):
    """state: tuple of (key, value) in insertion order, keys concrete or symbolic; or
    ("map", key codec, value codec, has array, value array): a dictionary of unknown size"""

    kind = "dict"

    def __repr__(self):
        return f"PyDict{self.state}"


class PyObj(Heap):
    def __init__(self, cls, fields=None):
        super().__init__(dict(fields or {}))
        self.cls = cls

    def __repr__(self):
        return f"<obj {getattr(self.cls, 'name', self.cls)} {list(self.state)}>"


class PyIter(Heap):
    """An iterator with its remaining elements. state as PyList"""

    kind = "iter"


class PyGen(PyIter):
    """A generator object, run when it is first touched; then the items that remain"""

    def __init__(self, run):
        super().__init__(("lazy", run))


class Undef:
    """A value that was overwritten by an abstracted loop: reading it is unsupported"""

    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class TypeOf:
    def __init__(self, v):
        self.v = v


def is_z3str(sort):
    return sort == z3.StringSort()


def unit_of(codec, term):
    return z3.Unit(term)


def empty(sort):
    """the empty sequence of a sequence sort"""
    if is_z3str(sort):
        return z3.StringVal("")
    return z3.Empty(sort)


def concat(*ts):
    flat = []
    for t in ts:
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            flat.extend(t.children())
        elif z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY):
            continue
        elif z3.is_string_value(t) and t.as_string() == "":
            continue
        else:
            flat.append(t)
    if not flat:
        return ts[0]
    if len(flat) == 1:
        return flat[0]
    return z3.Concat(*flat)


def chars_of(t):
    """the characters of a text whose length and make-up are known, or None"""
    if z3.is_string_value(t):
        return [z3.CharVal(ord(c)) for c in str_value(t)]
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        out = []
        for c in t.children():
            p = chars_of(c)
            if p is None:
                return None
            out += p
        return out
    if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
        return [t.arg(0)]
    if z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY):
        return []
    return None


def char_value(c):
    """the code point of a character term, or None"""
    if z3.is_app(c) and c.num_args() == 0 and c.decl().name() == "Char":
        return c.decl().params()[0]
    return None


def text_from(cs):
    """a Python string when every character is known, otherwise a term"""
    vs = [char_value(c) for c in cs]
    if all(v is not None for v in vs):
        return "".join(map(chr, vs))
    return concat(*[z3.Unit(c) for c in cs])


def str_value(t):
    """the Python string of a z3 string literal"""
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t.as_string())


def consts_of(t, acc=None):
    """names of the uninterpreted constants in a term"""
    acc = set() if acc is None else acc
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
            continue
        if z3.is_app(u):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(u.decl().name())
            stack.extend(u.children())
    return acc


# ------------------------------------------------------------------ sequence maps


class CMapDef:
    """what is shared by the maps of one shape: element x, parameters, body"""

    table = {}
    by_decl = {}
    count = 0

    def __init__(self, x, params, body):
        CMapDef.count += 1
        self.x = z3.Const(f"el{CMapDef.count}_{x.sort()}", x.sort())
        self.params = [z3.Const(f"par{CMapDef.count}_{i}", c.sort()) for i, c in enumerate(params)]
        self.body = z3.substitute(body, (x, self.x), *zip(params, self.params))
        self.decl = z3.Function(f"CM{CMapDef.count}", z3.SeqSort(x.sort()), *[c.sort() for c in params], body.sort())
        CMapDef.by_decl[self.decl.name()] = self


class CMap:
    """A homomorphism Seq(in) -> Seq(out) given by what it makes of one element.

    CMap_h(empty) = empty; CMap_h(a ++ b) = CMap_h(a) ++ CMap_h(b); CMap_h([x]) = h(x).
    Filters, maps, flat maps and comprehensions all are CMaps.  The constants of h are
    parameters of the function symbol, so that a map inside the body of another one
    depends on the other's element.
    """

    def __init__(self, d, actuals):
        self.d, self.actuals = d, tuple(actuals)
        self.x = d.x
        self.body = z3.substitute(d.body, *zip(d.params, self.actuals)) if d.params else d.body
        self.in_sort, self.out_sort = z3.SeqSort(d.x.sort()), d.body.sort()

    def fn(self, t):
        return self.d.decl(t, *self.actuals)

    @property
    def name(self):
        return self.d.decl.name()

    def __repr__(self):
        return f"{self.name}[{self.x} -> {self.body}]"

    def at(self, t):
        return z3.substitute(self.body, (self.x, t))


def free_consts(t, x):
    """the constants of a term but x and the heap, in order of occurrence"""
    out, seen, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen or z3.is_quantifier(u):
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and not u.eq(x) and not z3.is_array(u):
                out.append(u)
            stack.extend(reversed(u.children()))
    return out


def cmap(x, body):
    body = z3.simplify(body)
    params = free_consts(body, x)
    canon = [(x, z3.Const(f"el_{x.sort()}", x.sort()))] + [(c, z3.Const(f"par_{i}", c.sort())) for i, c in enumerate(params)]
    key = (x.sort().sexpr(), z3.substitute(body, *canon).sexpr())
    if key not in CMapDef.table:
        CMapDef.table[key] = CMapDef(x, params, body)
    return CMap(CMapDef.table[key], params)


def as_cmap(t):
    """(map, sequence) of an application of a map, or None"""
    if z3.is_app(t) and t.num_args() >= 1:
        d = CMapDef.by_decl.get(t.decl().name())
        if d is not None:
            return CMap(d, t.children()[1:]), t.arg(0)
    return None


def is_empty_term(t):
    return z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY) or (
        z3.is_string_value(t) and t.as_string() == ""
    )


def always_unit(t):
    if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
        return True
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return always_unit(t.arg(1)) and always_unit(t.arg(2))
    if z3.is_string_value(t):
        return len(t.as_string()) == 1
    return False


def guard_form(body, x):
    """if body is If(g, Unit(x), Empty) up to ITE-structure return g, else None"""

    def go(t):
        if is_empty_term(t):
            return z3.BoolVal(False)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT) and t.arg(0).eq(x):
            return z3.BoolVal(True)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = go(t.arg(1)), go(t.arg(2))
            if a is None or b is None:
                return None
            return z3.simplify(z3.If(t.arg(0), a, b))
        return None

    return go(body)


def apply_cmap(m, t):
    if is_empty_term(t):
        return empty(m.out_sort)
    if z3.is_string_value(t):
        return concat(
            empty(m.out_sort), *[z3.simplify(m.at(z3.CharVal(ord(c)))) for c in t.as_string()]
        )
    if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
        return z3.simplify(m.at(t.arg(0)))
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return concat(empty(m.out_sort), *[apply_cmap(m, c) for c in t.children()])
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), apply_cmap(m, t.arg(1)), apply_cmap(m, t.arg(2)))
    if is_empty_term(m.body):
        return empty(m.out_sort)
    if z3.is_app_of(m.body, z3.Z3_OP_SEQ_UNIT) and m.body.arg(0).eq(m.x):
        return t
    ia = as_cmap(t)
    if ia is not None:
        inner = ia[0]
        y = z3.Const("cmp_" + str(inner.x), inner.x.sort())
        return apply_cmap(cmap(y, apply_cmap(m, inner.at(y))), ia[1])
    return m.fn(t)


def find_apps(ts):
    """CMap applications in the given terms: list of (cmap, arg)"""
    out, seen, stack = [], set(), list(ts)
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            continue
        if z3.is_app(u):
            ia = as_cmap(u)
            if ia is not None:
                out.append(ia)
            stack.extend(u.children())
    return out
