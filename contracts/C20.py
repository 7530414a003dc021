"""C20: parsing dates and durations."""
from pyvc.spec import *

SPECS, spec = registry()
P = "mabel.utils.dates."
I = z3.IntSort()
VALID = ufun("valid_datetime", I, I, I, I, I, I, z3.BoolSort())
DT = ufun("datetime", I, I, I, I, I, I, I)
from pyvc.models import TOINT, ISINT


def dates(vm):
    """datetime: its constructor refuses what is not a date"""
    vm.assumptions.add("datetime.datetime(y, m, d, h, mi, s) is the named date-time, or ValueError")
    names = ["year", "month", "day", "hour", "minute", "second", "microsecond"]

    def make(vm, a, k):
        v = dict(zip(names, a), **k)
        if "microsecond" in v:
            raise Unsupported("microseconds")
        ts = [vm.num(v.get(n, 0), INT) for n in names[:6]]
        if not vm.branch(VALID(*ts)):
            raise PyExc(ValueError, ("datetime",))
        return PyObj(External("datetime.datetime"), {"at": Sym(INT, DT(*ts))})

    vm.models["datetime.datetime"] = make

    def fromtimestamp(vm, a, k):
        i = pick(vm, "the timestamp is refused", 4)
        if i:
            raise PyExc([ValueError, OverflowError, OSError][i - 1], ("timestamp",))
        return PyObj(External("datetime.datetime"), {"at": Sym(INT, ufun("from_timestamp", z3.RealSort(), I)(vm.num(vm.narrow(a[0]), REAL)))})

    vm.models["datetime.datetime.fromtimestamp"] = fromtimestamp


def digits(vm, n, name):
    cs = [z3.Const(f"{name}{i}", CHAR_SORT) for i in range(n)]
    for c in cs:
        vm.assume(z3.And(z3.CharVal(48) <= c, c <= z3.CharVal(57)))
    return cs


def text_of(cs):
    return z3.Concat(*[z3.Unit(c if not isinstance(c, str) else char_const(c)) for c in cs])


SUFFIX = ["", "Z", "+hh", "+hhmm", "+hh:mm"]


def form(parts, fraction, suffix, t_sep):
    def f(vm):
        dates(vm)
        fields = [digits(vm, 4, "y"), digits(vm, 2, "mo"), digits(vm, 2, "d"), digits(vm, 2, "h"), digits(vm, 2, "mi"), digits(vm, 2, "s")][:parts]
        seps = ["", "-", "-", t_sep, ":", ":"]
        cs = []
        for s, x in zip(seps, fields):
            cs += ([s] if s else []) + x
        if fraction:
            cs += ["."] + digits(vm, fraction, "f")
        for i, ch in enumerate(suffix):
            cs += digits(vm, 1, f"o{i}") if ch in "hm" else [ch]
        ns = []
        for x in fields:
            vm.assume(ISINT(text_of(x)))
            ns.append(TOINT(text_of(x)))
        ns += [z3.IntVal(0)] * (6 - parts)
        kind, v = outcome(vm, fn(vm, P + "parse_iso"), Sym(STR, text_of(cs)))
        vm.prove("does not raise", kind == "ok")
        if kind == "ok":
            if v is None:
                vm.prove("nothing, only when the parts form no valid date-time", z3.Not(VALID(*ns)))
            else:
                vm.prove("the named date-time", z3.And(VALID(*ns), v.state["at"].t == DT(*ns)))

    return f


spec(P + "parse_iso", name="dates")(lambda vm: form(3, 0, SUFFIX[pick(vm, "suffix", len(SUFFIX))], "")(vm))
for _t, _n in (("T", "T"), (" ", "space")):
    spec(P + "parse_iso", name="minutes_" + _n)(lambda vm, t=_t: form(5, 0, SUFFIX[pick(vm, "suffix", len(SUFFIX))], t)(vm))
    for _f in range(7):
        spec(P + "parse_iso", name=f"seconds_{_n}_{_f}")(lambda vm, t=_t, f=_f: form(6, f, SUFFIX[pick(vm, "suffix", len(SUFFIX))], t)(vm))


def a_datetime(vm):
    return PyObj(External("datetime.datetime"), {"at": sint(vm, "at")})


def is_time(vm, v):
    """a date-time object, or an unknown value whose type is datetime"""
    if isinstance(v, PyObj):
        return getattr(v.cls, "q", None) == "datetime.datetime"
    if isinstance(v, Sym) and v.k is VAL:
        return vm.type_is(v, External("datetime.datetime"))
    return False


def never_raises(vm, value):
    vm.models["datetime.datetime.combine"] = lambda vm, a, k: a_datetime(vm)
    vm.models["datetime.time.min"] = PyObj(External("datetime.time"), {})
    # pandas timestamps
    vm.models["obj.to_pydatetime"] = vm.models["method:pandas.Timestamp.to_pydatetime"] = lambda vm, s, a, k: a_datetime(vm)
    kind, v = outcome(vm, fn(vm, P + "parse_iso"), value)
    vm.prove("does not raise", kind == "ok")
    if kind == "ok" and v is not None:
        vm.prove("returns a date-time or nothing", is_time(vm, v))


@spec(P + "parse_iso")
def any_value(vm):
    dates(vm)
    v = sval(vm, "value")
    vm.assume(z3.Implies(V.is_obj(v.t), z3.Not(ufun("isa_numpy.datetime64", V, z3.BoolSort())(v.t))))
    vm.assume(z3.Not(V.is_str(v.t)))
    never_raises(vm, v)


LONGEST = 40  # parse_iso looks at texts of at most 33 characters


def characters(vm, n, name):
    return [z3.Const(f"{name}{i}", CHAR_SORT) for i in range(n)]


def anything(vm):
    """int() of any text gives a number or ValueError; over-approximated"""
    real = vm.models["builtins.int"]

    def to_int(vm, a, k):
        if a and (isinstance(a[0], str) or isinstance(a[0], Sym) and a[0].k is STR):
            if vm.choose("not a number"):
                raise PyExc(ValueError, ("int",))
            return sint(vm, "number")
        return real(vm, a, k)

    vm.models["builtins.int"] = to_int


def text_or_empty(cs):
    return Sym(STR, text_of(cs)) if len(cs) > 1 else Sym(STR, z3.Unit(cs[0])) if cs else ""


def text_without_plus(lo, hi):
    def f(vm):
        dates(vm)
        anything(vm)
        cs = characters(vm, lo + pick(vm, "length", hi - lo), "c")
        for c in cs:
            vm.assume(c != char_const("+"))
        never_raises(vm, text_or_empty(cs))

    return f


for _lo in range(0, LONGEST, 10):
    spec(P + "parse_iso", name=f"text_of_{_lo}_to_{_lo + 9}")(text_without_plus(_lo, _lo + 10))


@spec(P + "parse_iso")
def longer_text(vm):
    dates(vm)
    t = sstr(vm, "text")
    vm.assume(z3.Length(t.t) >= LONGEST)
    never_raises(vm, t)


def text_with_plus(lo, hi):
    def f(vm):
        """the first plus comes after m characters, n follow"""
        dates(vm)
        anything(vm)
        m = lo + pick(vm, "before", hi - lo)
        n = pick(vm, "after", LONGEST - m - 1)
        cs = characters(vm, m, "c")
        for c in cs:
            vm.assume(c != char_const("+"))

        def split(vm, s, a, k):
            if a != ["+"]:
                raise Unsupported("splitting otherwise")
            return PyList(("items", (text_or_empty(cs), sstr(vm, "offset"))))

        vm.models["str.split"] = vm.models["str!split"] = split
        never_raises(vm, Sym(STR, z3.Concat(*[z3.Unit(c) for c in cs + [char_const("+")] + characters(vm, n, "o")])) if m + n else "+")

    return f


for _lo in range(0, LONGEST - 1, 3):
    spec(P + "parse_iso", name=f"plus_after_{_lo}_to_{_lo + 2}")(text_with_plus(_lo, _lo + 3))


@spec(P + "parse_iso")
def numpy_value(vm):
    dates(vm)
    i = pick(vm, "astype", 4)
    r = [None, sint(vm, "ns"), a_datetime(vm), PyObj(External("datetime.date"), {})][i]
    vm.models["method:numpy.datetime64.astype"] = lambda vm, s, a, k: r
    never_raises(vm, PyObj(External("numpy.datetime64"), {}))


@spec(P + "parse_iso")
def pandas_value(vm):
    dates(vm)
    never_raises(vm, PyObj(External("pandas.Timestamp"), {}))


@spec(P + "parse_iso")
def containers(vm):
    dates(vm)
    v = [PyList(("items", ())), PyDict(()), seqv(vm.fresh("list", SV)), (), (1, 2), b"2024-01-01", Sym(BYTES, vm.fresh("bytes", S))][pick(vm, "container", 7)]
    never_raises(vm, v)


# ---------------------------------------------------------------- durations
def match_tokens(pattern, ignorecase, toks):
    """re.match of a pattern on a text of characters and of blocks of digits, by the rules of
    the re module (leftmost, greedy, with backtracking); a block is only matched as a whole"""
    import re._parser as sre
    from re._constants import LITERAL, MAX_REPEAT, SUBPATTERN, IN, CATEGORY, CATEGORY_DIGIT

    def digit(n):
        return n[0] is IN and n[1] == [(CATEGORY, CATEGORY_DIGIT)]

    def run(nodes, i, groups, k):
        if not nodes:
            return k(i, groups)
        (op, av), rest = nodes[0], nodes[1:]
        if op is LITERAL:
            c = chr(av)
            t = toks[i] if i < len(toks) else None
            same = isinstance(t, str) and (t.lower() == c.lower() if ignorecase else t == c)
            return run(rest, i + 1, groups, k) if same else None
        if op is SUBPATTERN:
            g, _, _, sub = av
            return run(list(sub), i, groups, lambda j, gs: run(rest, j, dict(gs, **{str(g): (i, j)}), k))
        if op is MAX_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            if lo == 1 and hi > 1000 and len(sub) == 1 and digit(sub[0]):
                block = i < len(toks) and not isinstance(toks[i], str)
                return run(rest, i + 1, groups, k) if block else None
            if (lo, hi) == (0, 1):
                r = run(sub, i, groups, lambda j, gs: run(rest, j, gs, k))
                return r if r is not None else run(rest, i, groups, k)
        raise Unsupported("pattern")

    p = sre.parse(pattern)
    gs = run(list(p), 0, {}, lambda j, gs: gs)
    return p.state.groupdict, gs


def regex(vm):
    vm.models["re.IGNORECASE"] = vm.models["re.I"] = PyObj(External("re.Flag"), {})
    vm.models["re.compile"] = lambda vm, a, k: PyObj(External("re.Pattern"), {"p": a[0], "i": len(a) > 1 or bool(k)})

    def match(vm, s, a, k):
        toks = a[0].state["toks"]
        if not isinstance(s.state["p"], str):
            raise Unsupported("pattern")
        names, gs = match_tokens(s.state["p"], s.state["i"], toks)
        if gs is None:
            return None
        found = []
        for n, g in names.items():
            span = gs.get(str(g))
            part = toks[span[0] : span[1]] if span else None
            if part is not None and all(isinstance(t, str) for t in part):
                part = "".join(part)
            elif part is not None:
                part = Sym(STR, concat(z3.StringVal(""), *[z3.StringVal(t) if isinstance(t, str) else t.t for t in part]))
            found.append((n, part))
        return PyObj(External("re.Match"), {"groups": PyDict(tuple(found))})

    vm.models["method:re.Pattern.match"] = match
    vm.models["re.match"] = lambda vm, a, k: match(vm, vm.models["re.compile"](vm, [a[0]] + a[2:], k), [a[1]], {})
    vm.models["method:re.Match.groupdict"] = lambda vm, s, a, k: s.state["groups"]
    vm.models["method:re.Match.group"] = lambda vm, s, a, k: dict(s.state["groups"].state)[a[0]]


UNITS = {"weeks": 604800, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}


def durations(vm):
    regex(vm)

    def timedelta(vm, a, k):
        v = dict(zip(["days", "seconds"], a), **k)
        return PyObj(External("datetime.timedelta"), {"seconds": sum((UNITS[n] * vm.num(x, INT) for n, x in v.items()), z3.IntVal(0))})

    vm.models["datetime.timedelta"] = timedelta


def duration(units):
    def f(vm):
        durations(vm)
        toks, want = [], z3.IntVal(0)
        for u in units:
            d = sstr(vm, "digits_" + u)
            n = TOINT(d.t)
            vm.assume(z3.And(z3.Length(d.t) > 0, ISINT(d.t), n >= 0))
            neg = z3.Concat(z3.StringVal("-"), d.t)
            vm.assume(z3.And(ISINT(neg), TOINT(neg) == -n))
            name = {"d": "days", "h": "hours", "m": "minutes", "s": "seconds"}[u]
            if vm.choose("negative " + u):
                toks.append("-")
                n = -n
            toks += [d, u]
            want = want + UNITS[name] * n
        r = vm.call(fn(vm, P + "parse_delta"), [PyObj(External("duration text"), {"toks": toks})], {})
        vm.prove("the sum of the parts", r.state["seconds"] == want)

    return f


for _i in range(16):
    _u = [u for b, u in enumerate("dhms") if _i >> b & 1]
    spec(P + "parse_delta", name="duration_" + ("".join(_u) or "empty"))(duration(_u))
