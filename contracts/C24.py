"""C24: rendered tables never leak markup from the data.

A page is a term: constants of the code, and parts made of the data. Every part made of the data has to be below a
character-wise map (however it is written: chained replacements, a translation table, a comprehension) that gives each
of the characters of markup as an entity that reads as the character, and that is the text itself otherwise."""
import html
import re

from pyvc.spec import *

SPECS, spec = registry()
DP = "mabel.data.internals.display."
CLEAN = ufun("clean", V, S)
MARKUP = "<>&\"'"


def chars_in(t, out=None):
    out = set() if out is None else out
    if t.sort() == CHAR_SORT and z3.is_app(t) and t.num_args() == 0:
        m = re.fullmatch(r"\(_ char #x([0-9a-f]+)\)|\(_ [Cc]har (\d+)\)", t.sexpr())
        if m:
            out.add(chr(int(m.group(1), 16) if m.group(1) else int(m.group(2))))
    for c in t.children():
        chars_in(c, out)
    return out


def text_of(t):
    t = z3.simplify(t)
    return t.as_string() if z3.is_string_value(t) else None


def need(vm, name, goal):
    """for what is assumed by induction: holds, or it cannot be assumed"""
    if goal is False or goal is not True and vm.entails(goal)[0] != z3.unsat:
        raise Unsupported("what is nested is not rendered safely by itself: no induction")


def escapes(vm, what, m, prove):
    """the map of characters makes nothing of data that could be read as markup"""
    x = z3.Const("any_char", CHAR_SORT)
    body = m.at(x)
    seen = chars_in(body) | set(MARKUP)
    for c in sorted(seen):
        r = text_of(m.at(char_const(c)))
        if r is None:
            raise Unsupported("a map of characters of another form")
        prove(f"{what}: {c} reads as itself and is no markup", html.unescape(r) == c and not set(r) & set("<>\"'") and r != "&")
    prove(f"{what}: other characters stay", z3.Implies(z3.And(*[x != char_const(c) for c in sorted(seen)]), body == z3.Unit(x)))


def page(vm, what, t, found, prove=None):
    """every part of the text that is made of data is escaped"""
    prove = prove or vm.prove
    t = z3.simplify(t) if not z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) else t
    if z3.is_string_value(t) or is_empty_term(t) or t.decl().eq(CLEAN):
        found.append(t)
        return
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        for c in t.children():
            page(vm, what, c, found, prove)
        return
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        page(vm, what, t.arg(1), found, prove)
        page(vm, what, t.arg(2), found, prove)
        return
    if t.decl().kind() == z3.Z3_OP_INT_TO_STR:
        return
    ia = as_cmap(t)
    if ia is not None:
        m, s = ia
        if m.x.sort() == CHAR_SORT:
            escapes(vm, what, m, prove)
            found.append(s)
        else:
            page(vm, what, m.at(z3.Const(f"any_{len(found)}", m.x.sort())), found, prove)
        return
    if t.decl().eq(JOIN(z3.StringVal(""), z3.Empty(SSEQ)).decl()):
        page(vm, what, t.arg(0), found, prove)
        page(vm, what, t.arg(1), found, prove)
        return
    if z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
        page(vm, what, t.arg(0), found, prove)
        return
    if is_z3str(t.sort()) and t.num_args() == 0 or t.decl().eq(STROF(V.none).decl()) or t.decl().eq(V.s(V.none).decl()):
        # text of the data as it is
        prove(f"{what}: no text of the data as it is", z3.Not(z3.Contains(t, z3.StringVal("<"))))
        return
    raise Unsupported(f"a text of another form: {t.decl().name()}")


def json_value(vm, v, kind):
    t = v.t
    vm.assume([V.is_str(t), z3.Or(V.is_none(t), V.is_bool(t), V.is_int(t), V.is_real(t)), V.is_list(t), is_rec(t)][kind])
    vm.assume(z3.Not(z3.Function("hasattr_as_list", V, z3.BoolSort())(t)))


def induction(vm, c, args, kwargs):
    """what is nested in a value is rendered as the value is"""
    v = args[0] if args else None
    if isinstance(v, Sym) and v.k is VAL and len(args) == 1 and not kwargs and not v.t.eq(vm.cell):
        vm.assumed[id(c.node)] = c
        return Sym(STR, CLEAN(v.t))
    return NotImplemented


def justified(vm):
    """the rendering of whatever value is safe, if that of what is nested in it is"""
    for c in list(vm.assumed.values()):
        v = sval(vm, "any")
        json_value(vm, v, pick(vm, "kind", 4))
        vm.cell = v.t
        r = vm.call(c, [v], {})
        page(vm, "what is nested", vm.term(r, STR), [], lambda n, g: need(vm, n, g))


def of_a(name, kind):
    @spec(DP + "html_table", budget=60, name=f"cell_{name}")
    def s(vm):
        v, k = sval(vm, "value"), sstr(vm, "column")
        json_value(vm, v, kind)
        vm.cell, vm.recursion, vm.assumed = v.t, induction, {}
        r = outcome(vm, fn(vm, DP + "html_table"), PyList(("items", (PyDict(((k, v),)),))), sint(vm, "limit", 1))
        vm.prove("rendering does not fail", r[0] == "ok")
        if r[0] != "ok":
            return
        found = []
        page(vm, "the page", vm.term(r[1], STR), found)
        vm.prove("the column is shown", any(f.eq(k.t) for f in found))
        justified(vm)


for _n, _k in (("text", 0), ("scalar", 1), ("list", 2), ("object", 3)):
    of_a(_n, _k)



def shown(vm, kind, n):
    """the page or table of n records, the i-th of which has column c<i> and one that is shared: (records shown, text)"""
    limit = sint(vm, "limit", 0)
    vm.cell, vm.recursion, vm.assumed = V.none, induction, {}
    cells = [[sstr(vm, f"own{i}"), sstr(vm, f"shared{i}")] for i in range(n)]
    rs = PyList(("items", tuple(PyDict(((f"c{i}", a), ("all", b))) for i, (a, b) in enumerate(cells))))
    r = outcome(vm, fn(vm, DP + kind), rs, limit)
    vm.prove("rendering does not fail", r[0] == "ok")
    if r[0] != "ok":
        return None
    m = next((j for j in range(n) if vm.branch(limit.t == j)), n)
    return m, cells, vm.term(r[1], STR)


def leaves(t, out):
    """the texts a term is made of, in order"""
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        for c in t.children():
            leaves(c, out)
        return out
    ia = as_cmap(t)
    if ia is not None:
        return leaves(ia[1], out)
    if t.decl().name() in ("center", "ljust", "rjust"):
        return leaves(t.arg(0), out)
    out.append(t)
    return out


def rows_of(kind, n):
    @spec(DP + kind, budget=60, name=f"{kind}_of_{n}")
    def s(vm):
        r = shown(vm, kind, n)
        if r is None:
            return
        m, cells, t = r
        ls = leaves(t, [])
        at_ = lambda x: [i for i, u in enumerate(ls) if u.eq(x.t)]
        text = "".join(u.as_string() for u in ls if z3.is_string_value(u))
        last = -1
        for i, own in enumerate(cells):
            for c in own:
                vm.prove("exactly the first records are shown", bool(at_(c)) == (i < m))
            vm.prove("every column of the records shown is there, and no other", (f"c{i}" in text) == (i < m))
            ps = [p for c in own for p in at_(c)]
            vm.prove("records are shown in order", not ps or min(ps) > last)
            last = max([last] + ps)


for _kind in ("html_table", "ascii_table"):
    for _n in range(4):
        rows_of(_kind, _n)
