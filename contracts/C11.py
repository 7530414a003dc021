"""C11: no data is read outside the permitted prefixes, and SQL cannot address a path."""
from pyvc.spec import *

SPECS, spec = registry()
SQ = "mabel.data.readers.internals.sql_reader."
RD = "mabel.data.readers.reader."
ALNUM = ufun("ch_isalnum", CHAR_SORT, z3.BoolSort())
ALPHA = ufun("ch_isalpha", CHAR_SORT, z3.BoolSort())
GOOD = ufun("may_be_addressed", S, z3.BoolSort())


def parser(vm):
    return PyObj(fn(vm, SQ + "SqlParser"), {})


@spec(SQ + "SqlParser.validate_dataset")
def validate_dataset(vm):
    """accepted exactly when it starts with a letter, has only the permitted characters and no path traversal"""
    if vm.choose("no characters"):
        t, head = z3.StringVal(""), None
    else:
        head, rest = vm.fresh("first", CHAR_SORT), vm.fresh("rest", S)
        t = z3.Concat(z3.Unit(head), rest)
        vm.assume(z3.Implies(ALPHA(head), ALNUM(head)))
    vm.assumptions.add("letters are what str.isalpha says and letters or digits what str.isalnum says; a letter is one of the latter, and . / - _ are not")
    for w in "./-_":
        vm.assume(z3.Not(ALNUM(char_const(w))))
        vm.assume(z3.Not(ALPHA(char_const(w))))
    bad = filt(vm, t, lambda c: z3.Not(z3.Or(ALNUM(c), *[c == char_const(w) for w in "./-_"])))
    good = z3.And(z3.BoolVal(head is not None) if head is None else ALPHA(head), z3.Length(bad) == 0,
                  *[z3.Not(z3.Contains(t, z3.StringVal(w))) for w in ("..", "//", "--")])
    kind, r = outcome(vm, vm.getattr(parser(vm), "validate_dataset"), Sym(STR, t))
    if kind == "ok":
        vm.prove("an accepted name starts with a letter", z3.BoolVal(False) if head is None else ALPHA(head))
        vm.prove("an accepted name has only letters, digits and . / - _", z3.Length(bad) == 0)
        for w in ("..", "//", "--"):
            vm.prove(f"an accepted name has no {w}", z3.Not(z3.Contains(t, z3.StringVal(w))))
    else:
        vm.prove("only a name that is not well formed is refused", z3.Not(good))


@spec(SQ + "SqlParser.parse", budget=200)
def parse(vm):
    """a statement is accepted only if the name it reads from is"""
    p = parser(vm)
    for n in ("select_expression", "dataset", "where_expression", "group_by", "having", "order_by", "limit"):
        vm.setattr(p, n, None)
    for n in ("distinct", "order_descending"):
        vm.setattr(p, n, False)
    vm.contracts[SQ + "SqlParser.remove_comments"] = lambda vm, c, a, k: sstr(vm, "uncommented")
    vm.contracts[SQ + "SqlParser.clean_statement"] = lambda vm, c, a, k: sstr(vm, "clean")
    vm.contracts[SQ + "SqlParser.sql_parts"] = lambda vm, c, a, k: PyObj(External("pieces"), {})
    # whatever the pieces are: every question about them has any answer
    TK = "mabel.utils.token_labeler.Tokenizer."
    for n in ("next", "peek", "next_token_value"):
        vm.contracts[TK + n] = lambda vm, c, a, k: sstr(vm, "token")
    vm.contracts[TK + "has_next"] = lambda vm, c, a, k: sbool(vm, "another")

    def kind_of(vm, c, a, k):
        t = sint(vm, "type")
        vm.assume(t.t != vm.num(vm.getattr(fn(vm, "mabel.utils.token_labeler.TOKENS"), "LEFTPARENTHESES"), INT))
        return t

    vm.contracts[TK + "next_token_type"] = kind_of
    vm.assumptions.add("a statement that reads from a sub-query is not covered: the names in it are those of the statement in it")
    vm.contracts[SQ + "SqlParser.collector"] = lambda vm, c, a, k: sstr(vm, "collected")
    vm.models["str.strip"] = vm.models["str.upper"] = lambda vm, s, a, k: sstr(vm, "text")
    vm.models["int:STR"] = lambda vm, s: sint(vm, "number")

    def check(vm, c, a, k):
        if not isinstance(a[1], (Sym, str)):
            raise Unsupported("validate_dataset is given something else")
        if not vm.branch(GOOD(vm.term(a[1], STR))):
            raise PyExc(ValueError, ("refused",))
        return True

    vm.contracts[SQ + "SqlParser.validate_dataset"] = check
    kind, r = outcome(vm, vm.getattr(p, "parse"), sstr(vm, "statement"))
    if kind != "ok":
        return
    d = vm.getattr(p, "dataset")
    if isinstance(d, Sym) and d.k is VAL:
        vm.prove("a name that is read from has been checked", z3.Implies(V.is_str(d.t), GOOD(V.s(d.t))))
        vm.prove("there is something to read from", z3.Not(V.is_none(d.t)))
    elif isinstance(d, (Sym, str)):
        vm.prove("a name that is read from has been checked", GOOD(vm.term(d, STR)))
    else:
        vm.prove("there is something to read from", d is not None)


@spec(SQ + "SqlReader", name="sql_reader")
def sql_reader(vm):
    """what a statement reads is the name the parser accepted, and nothing is read when it refuses"""
    log = PyList(("items", ()))
    name = sstr(vm, "dataset")
    state = {"dataset": name, "distinct": False, "order_descending": False, "select_evaluator": PyObj(External("evaluator"), {"tokens": PyList(("items", ()))})}
    for n, v in (("select_expression", sstr(vm, "select")), ("where_expression", None), ("group_by", None), ("having", None), ("order_by", None), ("limit", None)):
        state[n] = v
    if vm.choose("a condition"):
        state["where_expression"] = sstr(vm, "where")
    if vm.choose("a limit"):
        state["limit"] = sint(vm, "limit", 0)
    refused = []

    def parsed(vm, c, a, k):
        if vm.choose("the statement is not accepted"):
            refused.append(1)
            raise PyExc(ValueError, ("refused",))
        return PyObj(External("statement"), dict(state))

    def read(vm, c, a, k):
        vm.append(log, k.get("dataset"))
        return PyObj(External("data"), {})

    vm.contracts[SQ + "SqlParser"] = parsed
    vm.contracts[RD + "Reader"] = read
    for n in ("select", "take", "filter"):
        vm.models["method:data." + n] = lambda vm, s, a, k: s
    vm.models["method:evaluator.fields"] = lambda vm, s, a, k: sval(vm, "fields")
    kind, r = outcome(vm, fn(vm, SQ + "SqlReader"), sstr(vm, "statement"))
    for d in log.state[1]:
        vm.prove("what is read is the name that was accepted", vm.term(d, STR) == name.t)
    if refused:
        vm.prove("nothing is read for a statement that is refused", not log.state[1])


@spec(RD + "Reader", budget=200)
def reader(vm):
    """refused before anything is constructed exactly when the name starts with none of the prefixes"""
    log = PyList(("items", ()))
    prefixes = vm.fresh("prefixes", SSEQ)
    name = sstr(vm, "dataset")
    given = vm.choose("prefixes are given")

    def make(vm, o, a, k):
        vm.append(log, ("storage", k.get("dataset")))
        return PyObj(External("storage"), {})

    inner = PyObj(External("storage_class"), {})
    vm.models["call:storage_class"] = make
    vm.models["attr:storage_class.__name__"] = lambda vm, o: "storage_class"
    vm.models["attr:storage.start_date"] = vm.models["attr:storage.end_date"] = lambda vm, o: sint(vm, "day")
    vm.contracts["mabel.utils.dates.parse_delta"] = lambda vm, c, a, k: sint(vm, "delta")
    vm.contracts[RD + "_LowLevelReader"] = lambda vm, c, a, k: PyObj(External("low"), dict(k))

    def data_set(vm, c, a, k):
        vm.append(log, ("set", a[0]))
        return a[0]

    vm.contracts["mabel.data.internals.dictset.DictSet"] = data_set
    f = fn(vm, RD + "Reader")
    kw = {"dataset": name, "inner_reader": inner, "select": sstr(vm, "select"), "filters": None}
    if given:
        kw["valid_dataset_prefixes"] = seqv(prefixes, STR)
    kind, r = outcome(vm, f, **kw)
    allowed = filt(vm, prefixes, lambda p: z3.PrefixOf(p, name.t))
    if not given:
        return
    entries = log.state[1]
    vm.prove("a name that starts with none of the prefixes reaches no storage",
             z3.Or(z3.BoolVal(not entries), z3.Length(prefixes) == 0, z3.Length(allowed) > 0))
    if kind == "exc" and not entries:
        vm.prove("a name that starts with one of them is not refused", z3.Length(allowed) == 0)
    for e in entries:
        if e[0] == "storage":
            vm.prove("what is read is the name that was checked", vm.term(e[1], STR) == name.t)
