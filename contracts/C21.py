"""C21: LIKE patterns and text cleaning."""
from pyvc.spec import *

SPECS, spec = registry()
TX = "mabel.utils.text"
REMATCH = ufun("re_match", S, z3.BoolSort(), z3.BoolSort(), S, z3.BoolSort())


def re_models(vm):
    """re.compile and .match: an uninterpreted relation of pattern, flags and text"""

    def flag(name):
        o = PyObj(External("re.Flag"), {"names": frozenset([name])})
        return o

    for long, short in (("DOTALL", "S"), ("IGNORECASE", "I")):
        vm.models["re." + long] = vm.models["re." + short] = PyObj(External("re.Flag"), {"names": frozenset([long])})

    def bor(vm, a, b):
        return PyObj(External("re.Flag"), {"names": a.state["names"] | b.state["names"]})

    vm.models["op:re.Flag.BitOr"] = bor

    def compile_(vm, a, k):
        fl = a[1] if len(a) > 1 else k.get("flags")
        names = fl.state["names"] if isinstance(fl, PyObj) else frozenset()
        return PyObj(External("re.Pattern"), {"p": vm.term(a[0], STR), "fl": names})

    vm.models["re.compile"] = compile_

    def match(vm, s, a, k):
        names = s.state["fl"]
        t = vm.narrow(a[0])
        if not (isinstance(t, str) or isinstance(t, Sym) and t.k is STR):
            raise PyExc(TypeError, ("expected string",))
        c = REMATCH(s.state["p"], z3.BoolVal("DOTALL" in names), z3.BoolVal("IGNORECASE" in names), vm.term(t, STR))
        return PyObj(External("re.Match"), {}) if vm.branch(c) else None

    vm.models["method:re.Pattern.match"] = match
    vm.models["re.match"] = lambda vm, a, k: match(vm, compile_(vm, [a[0]] + a[2:3], k), [a[1]], {})
    vm.assumptions.add("re: a pattern matches as Python's re documents; `^f1 f2 ... fn\\Z` with DOTALL matches exactly the texts that are a concatenation of matches of the fragments")


META = ".^$*+?{}[]|()\\"


def fragment(x):
    """what one character of a LIKE pattern stands for"""
    body = z3.Unit(x)
    for c in META:
        body = z3.If(x == char_const(c), z3.StringVal("\\" + c), body)
    body = z3.If(x == char_const("%"), z3.StringVal(".*?"), body)
    return z3.If(x == char_const("_"), z3.StringVal("."), body)


def like_holds(vm, value, pattern):
    """the specification: the whole value, ignoring case, is matched character by character"""
    v = vm.term(vm.str_(value), STR)
    p = vm.term(pattern, STR)
    rx = concat(z3.StringVal("^"), mapped(vm, LOWERF(p), fragment), z3.StringVal("\\Z"))
    return REMATCH(rx, z3.BoolVal(True), z3.BoolVal(False), LOWERF(v))


LOWERF = ufun("lower", S, S)


@spec(TX + "._sql_like_fragment_to_regex")
def pattern_translation(vm):
    re_models(vm)
    p = sstr(vm, "pattern")
    r = vm.call(fn(vm, TX + "._sql_like_fragment_to_regex"), [p], {})
    rx = r.state["p"]
    vm.prove("each character becomes exactly its fragment, anchored at both ends",
             z3.Or(rx == concat(z3.StringVal("^"), mapped(vm, p.t, fragment), z3.StringVal("\\Z")), ))
    vm.prove("% spans line breaks", "DOTALL" in r.state["fl"])


@spec(TX + ".like")
def like(vm):
    re_models(vm)
    x, y = sval(vm, "value"), sstr(vm, "pattern")
    r = vm.call(fn(vm, TX + ".like"), [x, y], {})
    t = vm.truth_term(r)
    vm.prove("LIKE holds exactly when the whole value matches, ignoring case",
             (z3.BoolVal(t) if isinstance(t, bool) else t) == like_holds(vm, x, y))


@spec(TX + ".not_like")
def not_like(vm):
    re_models(vm)
    x, y = sval(vm, "value"), sstr(vm, "pattern")
    r = vm.call(fn(vm, TX + ".not_like"), [x, y], {})
    t = vm.truth_term(r)
    vm.prove("NOT LIKE is the negation of LIKE",
             (z3.BoolVal(t) if isinstance(t, bool) else t) == z3.Not(like_holds(vm, x, y)))


@spec(TX + ".sanitize")
def sanitize(vm):
    t, safe = sstr(vm, "text"), sstr(vm, "permitted")
    r = vm.call(fn(vm, TX + ".sanitize"), [t, safe], {})
    vm.prove("the permitted characters in order and nothing else",
             vm.term(r, STR) == mapped(vm, t.t, lambda c: z3.If(z3.Contains(safe.t, z3.Unit(c)), z3.Unit(c), z3.StringVal(""))))


@spec(TX + ".sanitize")
def sanitize_default(vm):
    import string
    t = sstr(vm, "text")
    r = vm.call(fn(vm, TX + ".sanitize"), [t], {})
    ok = string.ascii_letters + string.digits + string.whitespace
    vm.prove("by default letters, digits and whitespace are permitted",
             vm.term(r, STR) == mapped(vm, t.t, lambda c: z3.If(vm.char_in(c, ok), z3.Unit(c), z3.StringVal(""))))
