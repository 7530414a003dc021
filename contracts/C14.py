"""C14: text filter expressions mean what their Boolean structure says."""
from pyvc.spec import *

SPECS, spec = registry()
EX = "mabel.data.internals.expression."
TL = "mabel.utils.token_labeler."
I, BS = z3.IntSort(), z3.BoolSort()
N = z3.Int("number_of_tokens")
TYPE, TOK = ufun("type_of_token", I, I), ufun("token", I, S)
# what begins at a position: whether it is well formed, where it ends, and what it means
OK = {k: ufun(f"{k}_is_well_formed", I, BS) for k in ("expression", "conjunction", "condition", "terminal")}
END = {k: ufun(f"end_of_{k}", I, I) for k in OK}
MEANS = {k: ufun(f"meaning_of_{k}", I, BS if k != "terminal" else V) for k in OK}
# the rest of a disjunction or conjunction, by recursion on the number of its terms
REST_OK = {k: ufun(f"rest_of_{k}_is_well_formed", I, BS) for k in ("OR", "AND")}
REST_END = {k: ufun(f"end_of_rest_of_{k}", I, I) for k in ("OR", "AND")}
REST = {k: ufun(f"meaning_of_rest_of_{k}", I, BS) for k in ("OR", "AND")}
COMPARE = ufun("comparison", S, V, V, BS)
TRUTH = ufun("truth_of", V, BS)


class Refused(Exception):
    pass


def token_codes(vm):
    t = fn(vm, TL + "TOKENS")
    return {n: vm.getattr(t, n) for n in ("INTEGER", "FLOAT", "LITERAL", "VARIABLE", "BOOLEAN", "DATE", "NULL", "LEFTPARENTHESES", "RIGHTPARENTHESES",
                                          "FUNCTION", "AGGREGATOR", "OPERATOR", "AND", "OR", "NOT", "COMMA")}


def node(vm, sort, t):
    return PyObj(External("part"), {"means": t})


def meaning(vm, codes, o):
    """what a node of the tree means (evaluate_recursive gives it that meaning, see below)"""
    if getattr(o.cls, "q", None) == "part":
        return o.state["means"]
    if o.state.get("token_type") is None:
        return None
    kind, left, right = (o.state.get(k) for k in ("token_type", "left", "right"))
    if isinstance(kind, Sym):
        kind = next((c for c in codes.values() if vm.check([vm.num(kind, INT) != c]) == z3.unsat), None)
    if kind == codes["NOT"]:
        return z3.Not(meaning(vm, codes, left))
    if kind == codes["AND"]:
        return z3.And(meaning(vm, codes, left), meaning(vm, codes, right))
    if kind == codes["OR"]:
        return z3.Or(meaning(vm, codes, left), meaning(vm, codes, right))
    if kind == codes["OPERATOR"]:
        return COMPARE(vm.term(o.state["value"], STR), value_of(left), value_of(right))
    return None


def value_of(o):
    if getattr(o.cls, "q", None) != "part" or o.state["means"].sort() != V:
        raise Unsupported("something other than a terminal is compared")
    return o.state["means"]


def parser(vm, own):
    """a parser at some position of some tokens, the parts other than `own` by their contracts"""
    codes = token_codes(vm)
    start = vm.fresh("start", I)
    vm.assume(start >= 0)
    vm.assume(start <= N)
    tokenizer = PyObj(fn(vm, TL + "Tokenizer"), {"i": Sym(INT, start)})
    e = PyObj(fn(vm, EX + "Expression"), {"tokenizer": tokenizer, "root": None})

    def at_(a):
        return vm.num(vm.getattr(a[0], "i"), INT)

    def inside(a):
        if not vm.branch(at_(a) < N):
            raise PyExc(IndexError, ("no more tokens",))
        return at_(a)

    def has_next(vm, c, a, k):
        i = at_(a)
        for w, part in (("OR", "conjunction"), ("AND", "condition")):
            more = z3.And(i < N, TYPE(i) == codes[w])
            vm.assume(REST_OK[w](i) == z3.Implies(more, z3.And(OK[part](i + 1), REST_OK[w](END[part](i + 1)))))
            vm.assume(REST_END[w](i) == z3.If(more, REST_END[w](END[part](i + 1)), i))
            f, unit = (z3.Or, z3.BoolVal(False)) if w == "OR" else (z3.And, z3.BoolVal(True))
            vm.assume(REST[w](i) == z3.If(more, f(MEANS[part](i + 1), REST[w](END[part](i + 1))), unit))
        return Sym(BOOL, i < N)

    def step(vm, c, a, k):
        i = inside(a)
        vm.setattr(a[0], "i", Sym(INT, z3.simplify(i + 1)))
        return Sym(STR, TOK(i))

    vm.contracts[TL + "Tokenizer.has_next"] = has_next
    vm.contracts[TL + "Tokenizer.next"] = step
    vm.contracts[TL + "Tokenizer.peek"] = vm.contracts[TL + "Tokenizer.next_token_value"] = lambda vm, c, a, k: Sym(STR, TOK(inside(a)))
    vm.contracts[TL + "Tokenizer.next_token_type"] = lambda vm, c, a, k: Sym(INT, TYPE(inside(a)))

    def part(kind, method):
        def f(vm, c, a, k):
            i = vm.num(vm.getattr(tokenizer, "i"), INT)
            if not vm.branch(OK[kind](i)):
                raise PyExc(ValueError, ("not well formed",))
            vm.assume(i < N)
            vm.assume(END[kind](i) > i)
            vm.assume(END[kind](i) <= N)
            vm.setattr(tokenizer, "i", Sym(INT, END[kind](i)))
            return PyObj(External("part"), {"means": MEANS[kind](i)})

        vm.contracts[EX + "Expression." + method] = f

    for kind, method in (("expression", "parse_expression"), ("conjunction", "parse_and_term"), ("condition", "parse_condition"), ("terminal", "parse_terminal")):
        if kind != own or own == "condition":
            part(kind, method)
    vm.models["abstract"] = (lambda o: meaning(vm, codes, o), lambda t: PyObj(External("part"), {"means": t}))
    return e, codes, start, tokenizer


def at_now(vm, tokenizer):
    return vm.num(vm.getattr(tokenizer, "i"), INT)


def sequence(kind, method, word, part):
    def f(vm):
        e, codes, start, tk = parser(vm, kind)

        def tpl(vm, view):
            now = lambda: at_now(vm, tk)
            first = END[part](start)
            yield "the rest is well formed as the rest of all is", lambda g: REST_OK[word](now()) == REST_OK[word](first)
            yield "the rest ends where the rest of all does", lambda g: REST_END[word](now()) == REST_END[word](first)
            yield "positions", lambda g: z3.And(now() <= N, now() > start)
            join = z3.Or if word == "OR" else z3.And
            for name, loc, k, pre in view.locs("obj"):
                if isinstance(pre, PyObj):
                    yield "what is built and the rest mean what all means", lambda g, loc=loc: join(vm.models["abstract"][0](view.get(loc)), REST[word](now())) == join(MEANS[part](start), REST[word](first))

        vm.loop_templates = [tpl]
        kind_, r = outcome(vm, vm.getattr(e, method))
        first = END[part](start)
        fine = z3.And(OK[part](start), REST_OK[word](first))
        if kind_ != "ok":
            vm.prove(f"only what is not well formed is refused", z3.Not(fine))
            return
        join = z3.Or if word == "OR" else z3.And
        vm.prove(f"terms joined by {word} are joined so, each of them", meaning(vm, codes, r) == join(MEANS[part](start), REST[word](first)))
        vm.prove("all of the terms are taken", at_now(vm, tk) == REST_END[word](first))
        vm.prove("it is well formed", fine)

    spec(EX + "Expression." + method, name=method, budget=100)(f)


sequence("expression", "parse_expression", "OR", "conjunction")
sequence("conjunction", "parse_and_term", "AND", "condition")


@spec(EX + "Expression.parse_condition")
def parse_condition(vm):
    """NOT applies to the condition after it; parentheses hold an expression; anything else is a comparison"""
    e, codes, start, tk = parser(vm, "condition")
    vm.assume(z3.Implies(start < N, z3.And(TYPE(start) != codes["FUNCTION"], TYPE(start) != codes["AGGREGATOR"])))
    vm.assumptions.add("conditions on the result of a function are checked by execution only")
    f = fn(vm, EX + "Expression.parse_condition")
    try:
        r, refused = vm.run_closure(f, [e], {}), False
    except PyExc:
        refused = True
    is_not = z3.And(start < N, TYPE(start) == codes["NOT"])
    is_par = z3.And(start < N, TYPE(start) == codes["LEFTPARENTHESES"])
    close = END["expression"](start + 1)
    left = END["terminal"](start)
    ok_not = OK["condition"](start + 1)
    ok_par = z3.And(OK["expression"](start + 1), close < N, TYPE(close) == codes["RIGHTPARENTHESES"])
    ok_cmp = z3.And(start < N, OK["terminal"](start), left < N, TYPE(left) == codes["OPERATOR"], OK["terminal"](left + 1))
    fine = z3.If(is_not, ok_not, z3.If(is_par, ok_par, ok_cmp))
    if refused:
        vm.prove("only what is not well formed is refused", z3.Not(fine))
        return
    m, now = meaning(vm, codes, r), at_now(vm, tk)
    vm.prove("it is well formed", fine)
    vm.prove("NOT negates the condition after it", z3.Implies(is_not, z3.And(m == z3.Not(MEANS["condition"](start + 1)), now == END["condition"](start + 1))))
    vm.prove("parentheses mean what is in them", z3.Implies(is_par, z3.And(m == MEANS["expression"](start + 1), now == close + 1)))
    vm.prove("a comparison is of what is on its sides", z3.Implies(z3.Not(z3.Or(is_not, is_par)), z3.And(
        m == COMPARE(UPPER(TOK(left)), MEANS["terminal"](start), MEANS["terminal"](left + 1)), now == END["terminal"](left + 1))))


@spec(EX + "Expression.parse")
def parse(vm):
    """all of the text takes part"""
    e, codes, start, tk = parser(vm, None)
    kind, r = outcome(vm, vm.getattr(e, "parse"))
    fine = z3.And(OK["expression"](start), END["expression"](start) == N)
    if kind != "ok":
        vm.prove("only what is not an expression is refused", z3.Not(fine))
        return
    vm.prove("no part of the text is left over", fine)
    vm.prove("the expression means what all of the text does", meaning(vm, codes, vm.getattr(e, "root")) == MEANS["expression"](start))


# ------------------------------------------------------------------ what a tree means
MEANING = ufun("meaning_of_part", I, V)
READ_AS = ufun("read_as", V, V)


def evaluated(vm, kind, value, children):
    """evaluate_recursive of a node whose children mean what their contract says"""
    r = rec(vm)
    tree = PyObj(fn(vm, EX + "TreeNode"), {"token_type": kind, "value": value, "left": None, "right": None, "parameters": PyList(("items", ()))})
    kids = [PyObj(External("part"), {"means": MEANING(z3.IntVal(i))}) for i in range(children)]
    for n, c in zip(("left", "right"), kids):
        tree.state = {**tree.state, n: c}
    f = fn(vm, EX + "Expression.evaluate_recursive")

    def part(vm, c, a, k):
        if a[1] is tree:
            return vm.run_closure(c, a, k)
        vm.prove("the parts are evaluated on the record", vm.to_V(a[2]) == r.t)
        return Sym(VAL, a[1].state["means"])

    vm.contracts[EX + "Expression.evaluate_recursive"] = part
    vm.contracts[EX + "Expression.interpret_value"] = lambda vm, c, a, k: Sym(VAL, READ_AS(vm.to_V(a[1])))
    e = PyObj(fn(vm, EX + "Expression"), {"tokenizer": None, "root": tree})
    how = ["__call__", "evaluate"][0 if vm.choose("called") else 1]
    kind_, res = outcome(vm, vm.getattr(e, how), r)
    return kind_, res, r, [c.state["means"] for c in kids]


def truth(vm, v):
    t = vm.truth_term(v)
    return z3.BoolVal(t) if isinstance(t, bool) else t


@spec(EX + "Expression.evaluate_recursive", name="structure")
def structure(vm):
    """NOT, AND and OR are those of the truth of their parts"""
    codes = token_codes(vm)
    which = "NOT" if vm.choose("NOT") else "AND" if vm.choose("AND") else "OR"
    for i in (0, 1):
        vm.assume(z3.Or(V.is_bool(MEANING(z3.IntVal(i))), V.is_none(MEANING(z3.IntVal(i)))))
    kind, res, r, kids = evaluated(vm, codes[which], None, 1 if which == "NOT" else 2)
    vm.prove("it has a truth value", kind == "ok")
    if kind == "ok":
        ts = [truth(vm, Sym(VAL, k)) for k in kids]
        want = {"NOT": lambda: z3.Not(ts[0]), "AND": lambda: z3.And(*ts), "OR": lambda: z3.Or(*ts)}[which]()
        vm.prove(f"{which} is that of the truth of its parts", truth(vm, res) == want)


@spec(EX + "Expression.evaluate_recursive", name="constants")
def constants(vm):
    codes = token_codes(vm)
    v = sval(vm, "constant")
    for c in ("INTEGER", "FLOAT", "LITERAL", "BOOLEAN", "NULL", "DATE"):
        kind, res, r, _ = evaluated(vm, codes[c], v, 0)
        vm.prove("a literal is itself", kind == "ok" and vm.to_V(res) == v.t)


@spec(EX + "Expression.evaluate_recursive", name="variables")
def variables(vm):
    """a field is what its value reads as, or None when there is no such field"""
    codes = token_codes(vm)
    quoted = vm.choose("in backticks")
    head, tail = vm.fresh("head", CHAR_SORT), vm.fresh("tail", S)
    name = z3.Concat(z3.Unit(head), tail)
    tick = z3.StringVal("`")
    vm.assume(head != char_const("`"))
    text = z3.Concat(tick, name, tick) if quoted else name
    vm.assume(z3.Not(z3.SuffixOf(tick, name)))
    kind, res, r, _ = evaluated(vm, codes["VARIABLE"], Sym(STR, text), 0)
    k = V.str(name)
    vm.prove("a field has a value", kind == "ok")
    if kind == "ok":
        vm.prove("a field that is there is what its value reads as", z3.Implies(has(vm, r.t, k), vm.to_V(res) == READ_AS(at(vm, r.t, k))))
        vm.prove("a field that is missing is None", z3.Implies(z3.Not(has(vm, r.t, k)), V.is_none(vm.to_V(res))))


@spec(EX + "Expression.evaluate_recursive", name="comparisons")
def comparisons(vm):
    """a comparison is what its operator says of both sides; one that cannot be made does not hold"""
    codes = token_codes(vm)
    op = sstr(vm, "operator")
    left, right = MEANING(z3.IntVal(0)), MEANING(z3.IntVal(1))
    made, errors = [], (TypeError, ValueError, AttributeError)

    def compare(vm, l, r):
        made.append((vm.to_V(l), vm.to_V(r)))
        for e in errors:
            if vm.choose(f"{e.__name__}"):
                failed.append(1)
                raise PyExc(e, ("not comparable",))
        return Sym(BOOL, COMPARE(op.t, vm.to_V(l), vm.to_V(r)))

    failed = []

    def entry(vm, s, a):
        vm.prove("it is the operator of the comparison that is used", vm.term(a, STR) == op.t)
        return py(compare)

    vm.models["getitem:operators"] = entry
    vm.module_get(EX[:-1], "OPERATORS")
    vm.setvar(vm.module_frame(EX[:-1]), "OPERATORS", PyObj(External("operators"), {}))
    kind, res, r, kids = evaluated(vm, codes["OPERATOR"], op, 2)
    vm.prove("a comparison does not raise", kind == "ok")
    if kind != "ok":
        return
    vm.prove("both sides are compared, in their order", len(made) == 1 and z3.And(made[0][0] == left, made[0][1] == right))
    if failed:
        vm.prove("one that cannot be made does not hold", z3.Not(truth(vm, res)))
    else:
        vm.prove("it holds when the operator says so", truth(vm, res) == COMPARE(op.t, left, right))


# ------------------------------------------------------------------ operators and values
def operators(vm):
    return vm.module_get(TL[:-1], "OPERATORS")


@spec(TL + "OPERATORS", name="operators")
def table(vm):
    """each operator is the comparison it is written as"""
    t = operators(vm)
    x, y = sint(vm, "x"), sint(vm, "y")
    n, m = sstr(vm, "n"), sstr(vm, "m")
    for op, f in {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
                  "=": lambda a, b: a == b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<>": lambda a, b: a != b}.items():
        g = vm.getitem(t, op)
        vm.prove(f"{op} of numbers", truth(vm, vm.call(g, [x, y], {})) == f(x.t, y.t))
        if op in (">", ">="):
            want = m.t < n.t if op == ">" else m.t <= n.t
        else:
            want = f(n.t, m.t)
        vm.prove(f"{op} of texts", truth(vm, vm.call(g, [n, m], {})) == want)
    u, w = sval(vm, "u"), sval(vm, "w")
    for op in ("=", "==", "!=", "<>"):
        r = truth(vm, vm.call(vm.getitem(t, op), [u, w], {}))
        vm.prove(f"{op} of any values", r == (u.t == w.t if op[0] == "=" else u.t != w.t))
    for v in (None, True, False):
        for op in ("IS", "IS NOT"):
            r = truth(vm, vm.call(vm.getitem(t, op), [u, v], {}))
            same = u.t == vm.to_V(v)
            vm.prove(f"{op} of any value and {v}", r == (same if op == "IS" else z3.Not(same)))
    LIKE, MATCHES = ufun("text_like", V, V, BS), ufun("text_matches", V, V, BS)
    TX = "mabel.utils.text."
    vm.contracts[TX + "like"] = lambda vm, c, a, k: Sym(BOOL, LIKE(vm.to_V(a[0]), vm.to_V(a[1])))
    vm.contracts[TX + "not_like"] = lambda vm, c, a, k: Sym(BOOL, z3.Not(LIKE(vm.to_V(a[0]), vm.to_V(a[1]))))
    vm.contracts[TX + "matches"] = lambda vm, c, a, k: Sym(BOOL, MATCHES(vm.to_V(a[0]), vm.to_V(a[1])))
    for op, want in (("LIKE", LIKE(u.t, w.t)), ("NOT LIKE", z3.Not(LIKE(u.t, w.t))), ("MATCHES", MATCHES(u.t, w.t))):
        vm.prove(f"{op} of any values", truth(vm, vm.call(vm.getitem(t, op), [u, w], {})) == want)
    items = vm.fresh("items", SV)
    vm.prove("CONTAINS of a list", truth(vm, vm.call(vm.getitem(t, "CONTAINS"), [seqv(items), u], {})) == z3.Contains(items, z3.Unit(u.t)))
    vm.prove("CONTAINS of a text", truth(vm, vm.call(vm.getitem(t, "CONTAINS"), [n, m], {})) == z3.Contains(n.t, m.t))


@spec(EX + "Expression.interpret_value", name="reading_values")
def reading_values(vm):
    """text that reads as a truth value, a number or a date is that; anything else is itself"""
    INTS, FLOATS, DATES = (ufun(n, S, BS) for n in ("reads_as_int", "reads_as_float", "reads_as_date"))
    INTOF, FLOATOF, DATEOF = (ufun(n, S, V) for n in ("int_of", "float_of", "date_of"))

    def number(is_, of):
        def f(vm, a, k):
            t = vm.term(a[0], STR)
            if not vm.branch(is_(t)):
                raise PyExc(ValueError, ("not a number",))
            return Sym(VAL, of(t))

        return f

    def date(vm, c, a, k):
        t = vm.term(a[0], STR)
        if not vm.branch(DATES(t)):
            return None
        vm.assume(V.is_obj(DATEOF(t)))
        return PyObj(External("date"), {"v": DATEOF(t)})

    vm.models["truth:date"] = lambda vm, s: True
    vm.models["builtins.int"], vm.models["builtins.float"] = number(INTS, INTOF), number(FLOATS, FLOATOF)
    vm.contracts["mabel.utils.dates.parse_iso"] = date
    if vm.choose("not text"):
        v = sval(vm, "value")
        vm.assume(z3.Not(V.is_str(v.t)))
        r = vm.call(vm.getattr(PyObj(fn(vm, EX + "Expression"), {}), "interpret_value"), [v], {})
        vm.prove("what is not text is itself", vm.to_V(r) == v.t)
        return
    t = sstr(vm, "text")
    up = UPPER(t.t)
    r = vm.call(vm.getattr(PyObj(fn(vm, EX + "Expression"), {}), "interpret_value"), [t], {})
    r = r.state["v"] if isinstance(r, PyObj) else vm.to_V(r)
    yes, no = up == z3.StringVal("TRUE"), up == z3.StringVal("FALSE")
    vm.prove("text that reads as a truth value, a number or a date is that", r == z3.If(yes, V.bool(True), z3.If(no, V.bool(False),
             z3.If(INTS(t.t), INTOF(t.t), z3.If(FLOATS(t.t), FLOATOF(t.t), z3.If(DATES(t.t), DATEOF(t.t), V.str(t.t)))))))


@spec(EX + "Expression.parse_terminal", name="terminals")
def terminals(vm):
    """a literal or name is one token, and stands for what it is written as"""
    e, codes, start, tk = parser(vm, "terminal")
    kinds = ["INTEGER", "FLOAT", "VARIABLE", "LITERAL", "BOOLEAN", "NULL", "DATE"]
    kind = next((k for k in kinds[:-1] if vm.choose(k)), kinds[-1])
    vm.assume(start < N)
    vm.assume(TYPE(start) == codes[kind])
    body = vm.fresh("between_the_quotes", S)
    if kind in ("LITERAL", "DATE"):
        q = z3.StringVal("'" if vm.choose("single quotes") else '"')
        vm.assume(TOK(start) == z3.Concat(q, body, q))
    DATEOF, INTOF, FLOATOF = (ufun(n, S, V) for n in ("date_of", "int_of", "float_of"))
    vm.models["builtins.int"] = lambda vm, a, k: Sym(VAL, INTOF(vm.term(a[0], STR)))
    vm.models["builtins.float"] = lambda vm, a, k: Sym(VAL, FLOATOF(vm.term(a[0], STR)))
    vm.contracts["mabel.utils.dates.parse_iso"] = lambda vm, c, a, k: Sym(VAL, DATEOF(vm.term(a[0], STR)))
    t = TOK(start)
    LOWER_TRUE = LOWER(t) == z3.StringVal("true")
    kind_, r = outcome(vm, vm.getattr(e, "parse_terminal"))
    vm.prove("a literal or a name is taken", kind_ == "ok")
    if kind_ != "ok":
        return
    want = {"INTEGER": INTOF(t), "FLOAT": FLOATOF(t), "VARIABLE": V.str(t), "LITERAL": V.str(body), "BOOLEAN": V.bool(LOWER_TRUE), "NULL": V.none, "DATE": DATEOF(body)}[kind]
    vm.prove("it stands for what it is written as", vm.to_V(vm.getattr(r, "value")) == want)
    vm.prove("it is what its token is", vm.num(vm.getattr(r, "token_type"), INT) == codes[kind])
    vm.prove("one token is taken", at_now(vm, tk) == start + 1)


@spec(TL + "Tokenizer", name="tokenizer")
def tokenizer(vm):
    """tokens are taken one after the other, to the last"""
    tokens = vm.fresh("tokens", SSEQ)
    KIND = ufun("type_of", S, I)
    vm.contracts[TL + "get_token_type"] = lambda vm, c, a, k: Sym(INT, KIND(vm.term(a[0], STR)))
    t = vm.call(fn(vm, TL + "Tokenizer"), [seqv(tokens, STR)], {})
    vm.prove("it begins with the first", vm.num(vm.getattr(t, "i"), INT) == 0)
    before, x, after = vm.fresh("before", SSEQ), vm.fresh("x", S), vm.fresh("after", SSEQ)
    i = z3.Length(before)
    if vm.choose("there are more"):
        vm.assume(tokens == z3.Concat(before, z3.Unit(x), after))
        vm.setattr(t, "i", Sym(INT, i))
        ask = lambda m: vm.call(vm.getattr(t, m), [], {})
        vm.prove("there is a next one", truth(vm, ask("has_next")))
        for m in ("peek", "next_token_value"):
            vm.prove(f"{m} tells which", vm.term(ask(m), STR) == x)
        vm.prove("next_token_type tells its type", vm.num(ask("next_token_type"), INT) == KIND(x))
        vm.prove("telling takes nothing", vm.num(vm.getattr(t, "i"), INT) == i)
        vm.prove("next takes it", vm.term(ask("next"), STR) == x)
        vm.prove("and goes to the one after it", vm.num(vm.getattr(t, "i"), INT) == i + 1)
    else:
        vm.setattr(t, "i", Sym(INT, z3.Length(tokens)))
        vm.prove("there are no more after the last", z3.Not(truth(vm, vm.call(vm.getattr(t, "has_next"), [], {}))))
