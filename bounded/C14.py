"""Random Boolean expressions rendered to text with varied parentheses, case, spacing, line breaks and literals (some holding
keywords), evaluated over random records against the tree they were rendered from; token sequences with one token dropped,
doubled or swapped against an own parser of the grammar. Non-trivial when text or records are distinct."""
import datetime
import itertools
import re

from mabel.data import DictSet
from mabel.data.internals.expression import Expression

FILES = ["mabel/data/internals/expression.py", "mabel/utils/token_labeler.py"]
FIELDS = ["a", "b", "name", "x.y", "f-1", "`q r`"]
VALUES = [0, 1, 2, -1, 1.5, "", "x", "and", "1", "2.5", "true", "False", "2021-03-04", "2021-03-04T05:06:07", "a b", "NULL", None, True, False, [1, 2], ["x"], {"k": 1}, " 1", "or", "é"]
LITS = [("1", 1), ("0", 0), ("2.5", 2.5), ("-1", -1), ("'x'", "x"), ('"x"', "x"), ("'and'", "and"), ("'a b'", "a b"), ("'a  b'", "a  b"), ("'(x OR y)'", "(x OR y)"), ("TRUE", True), ("false", False),
        ("'2021-03-04'", datetime.datetime(2021, 3, 4)), ("''", ""), ("NULL", None), ("'1'", "1"), ("'not like'", "not like"), ("'x, y'", "x, y"), ("'it%'", "it%"), ("'é'", "é")]


def reads_as(v):
    if not isinstance(v, str):
        return v
    if v.upper() in ("TRUE", "FALSE"):
        return v.upper() == "TRUE"
    for t in (int, float):
        try:
            return t(v)
        except ValueError:
            pass
    if re.fullmatch(r"\d{4}-\d\d-\d\d([T ]\d\d:\d\d(:\d\d)?)?", v):
        try:
            return datetime.datetime.fromisoformat(v)
        except ValueError:
            pass
    return v


def like(v, p):
    rx = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in p)
    return re.fullmatch(rx, str(v), re.I | re.S) is not None


OPS = {
    "=": lambda x, y: x == y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<>": lambda x, y: x != y, "<": lambda x, y: x < y, ">": lambda x, y: x > y,
    "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y, "IS": lambda x, y: x is y, "IS NOT": lambda x, y: x is not y, "LIKE": like,
    "NOT LIKE": lambda x, y: not like(x, y), "IN": lambda x, y: x in y, "CONTAINS": lambda x, y: y in x,
}


def truth(n, r):
    if n[0] == "and":
        return all([truth(x, r) for x in n[1]])
    if n[0] == "or":
        return any([truth(x, r) for x in n[1]])
    if n[0] == "not":
        return not truth(n[1], r)
    _, f, op, y = n
    if isinstance(y, tuple):
        y = reads_as(r.get(y[0].strip("`")))
    x = f[1] if isinstance(f, tuple) else reads_as(r.get(f.strip("`")))
    try:
        return bool(OPS[op](x, y))
    except (TypeError, ValueError, AttributeError):
        return False


def cases(rng, tier, K):
    def case_of(w):
        return rng.choice([w, w.lower(), w.title()])

    def ws():
        return rng.choice([" ", " ", "  ", "\n", " \t "])

    def cmp():
        f = rng.choice(FIELDS)
        op = rng.choice(["=", "==", "!=", "<>", "<", ">", "<=", ">=", "IS", "IS NOT", "LIKE", "NOT LIKE", "IN", "CONTAINS"])
        lit = rng.choice(LITS)
        if op in ("IS", "IS NOT"):
            lit = rng.choice([("NULL", None), ("none", None), ("TRUE", True), ("FALSE", False)])
        if op in ("LIKE", "NOT LIKE"):
            lit = rng.choice([("'x%'", "x%"), ("'%'", "%"), ("'_'", "_"), ("'1'", "1"), ("'and'", "and"), ("'a%b'", "a%b"), ("''", "")])
        if op == "IN":
            vs = [rng.choice([("1", 1), ("'x'", "x"), ("2.5", 2.5), ("'and'", "and"), ("0", 0)]) for _ in range(rng.randrange(1, 4))]
            lit = ("(" + rng.choice([", ", ","]).join(t for t, _ in vs) + ")", [v for _, v in vs])
        if op == "CONTAINS" and lit[1] is None:
            lit = ("'x'", "x")
        y = lit[1]
        if op in ("=", "!=", "<") and rng.random() < 0.1:
            g = rng.choice(FIELDS)
            lit, y = (g, None), (g,)
        sp = ws() if op[0].isalpha() else rng.choice(["", " ", "  "])
        return [f, ws() if not op[0].isalpha() else " ", (rng.choice([op, op.lower()]) if op[0].isalpha() else op), sp or (" " if lit[0][0] not in "'\"(" and op[0].isalpha() else ""), lit[0]], ("cmp", f, op, y)

    # returns (pieces, tree, precedence) with 0 or, 1 and, 2 not / comparison
    def tree(d):
        k = rng.random()
        if d == 0 or k < 0.3:
            p, t = cmp()
            return p, t, 2
        if k < 0.45:
            p, t, pr = tree(d - 1)
            return [case_of("NOT"), ws()] + (p if pr == 2 and rng.random() < 0.7 else ["("] + p + [")"]), ("not", t), 2
        op, pr = ("and", 1) if rng.random() < 0.5 else ("or", 0)
        ps, ts = [], []
        for i in range(rng.choice([2, 2, 3])):
            p, t, q = tree(d - 1)
            # an operator of the same strength associates, so it needs no parentheses
            if q < pr or rng.random() < 0.2:
                p = ["("] + p + [")"]
            ps += ([ws(), case_of(op.upper()), ws()] if i else []) + p
            ts.append(t)
        return ps, (op, ts), pr

    def rec():
        return {f.strip("`"): rng.choice(VALUES) for f in FIELDS if rng.random() < 0.8}

    for f, o, (t, v) in itertools.product(["a"], ["=", "!=", "<", ">="], LITS):
        yield {"text": f"a {o} {t}", "tree": ("cmp", "a", o, v), "recs": [{"a": x} for x in VALUES] + [{}]}
    N = 6000 if tier == "quick" else 60000
    for i in range(N):
        p, t, _ = tree(rng.choice([1, 2, 2, 3, 4]))
        yield {"text": rng.choice(["", " "]) + "".join(p), "tree": t, "recs": [rec() for _ in range(6)]}
        if i % 2 == 0:
            toks = ["a", "=", "1", "AND", "NOT", "b", "<", "2", "OR", "name", "IS", "NULL", "(", ")"]
            s = toks_of(rng)
            j = rng.randrange(len(s))
            m = rng.random()
            if m < 0.35:
                s = s[:j] + s[j + 1 :]
            elif m < 0.6:
                s = s[:j] + [s[j]] + s[j:]
            elif m < 0.8:
                s[j] = rng.choice(toks)
            else:
                s = s + [rng.choice(toks)]
            if s:
                yield {"tokens": s, "recs": [{f: rng.choice([0, 1, 2, None, True]) for f in ("a", "b", "name")} for _ in range(4)]}


def toks_of(rng, d=2):
    if d == 0 or rng.random() < 0.35:
        return [rng.choice(["a", "b", "name"])] + rng.choice([["=", "1"], ["<", "2"], ["IS", "NULL"], [">=", "0"]])
    k = rng.random()
    if k < 0.2:
        return ["NOT"] + toks_of(rng, d - 1)
    if k < 0.4:
        return ["("] + toks_of(rng, d - 1) + [")"]
    return toks_of(rng, d - 1) + [rng.choice(["AND", "OR"])] + toks_of(rng, d - 1)


TERMS = {"a", "b", "name", "1", "2", "0", "NULL"}
CMP = {"=", "<", "IS", ">="}


def parse(toks):
    """the grammar: or-lists of and-lists of NOT*, ( ), term op term"""
    pos = [0]
    peek = lambda: toks[pos[0]] if pos[0] < len(toks) else None

    def term():
        t = peek()
        if t not in TERMS:
            raise SyntaxError
        pos[0] += 1
        return t

    def cond():
        if peek() == "NOT":
            pos[0] += 1
            return ("not", cond())
        if peek() == "(":
            pos[0] += 1
            e = expr()
            if peek() != ")":
                raise SyntaxError
            pos[0] += 1
            return e
        x = term()
        o = peek()
        if o not in CMP:
            raise SyntaxError
        pos[0] += 1
        y = term()
        lit = lambda t: (t,) if t in ("a", "b", "name") else None if t == "NULL" else int(t)
        lx, ly = lit(x), lit(y)
        return ("cmp", x if isinstance(lx, tuple) else ("lit", lx), o, ly)

    def andt():
        r = [cond()]
        while peek() == "AND":
            pos[0] += 1
            r.append(cond())
        return ("and", r)

    def expr():
        r = [andt()]
        while peek() == "OR":
            pos[0] += 1
            r.append(andt())
        return ("or", r)

    e = expr()
    if pos[0] != len(toks):
        raise SyntaxError
    return e


def check(case):
    out = []
    if "tokens" in case:
        text = " ".join(case["tokens"])
        # neighbouring words are one name
        if re.search(r"IS NOT|NOT LIKE|= =|< =|> =", text) or any(x in TERMS and y in TERMS for x, y in zip(case["tokens"], case["tokens"][1:])):
            return []
        try:
            t = parse(case["tokens"])
        except SyntaxError:
            t = None
        try:
            e = Expression(text)
            got = [e.evaluate(dict(r)) for r in case["recs"]]
        except BaseException as x:
            if type(x).__name__ == "Hang":
                raise
            return [] if t is None else [f"rejected: {text!r} raises {type(x).__name__}: {x}"]
        if t is None:
            return [f"accepted: {text!r} is not an expression and gives {got}"]
        want = [truth(t, r) for r in case["recs"]]
        return [] if [bool(g) for g in got] == want else [f"value: {text!r} on {case['recs']} gives {got}, should be {want}"]
    e = Expression(case["text"])
    for r in case["recs"]:
        x = dict(r)
        got, want = bool(e.evaluate(x)), truth(case["tree"], r)
        if got != want:
            out.append(f"value: {case['text']!r} on {r!r} gives {got}, should be {want}")
            break
        if x != r:
            out.append(f"changed: {r!r}")
    recs = [dict(r, i=i) for i, r in enumerate(case["recs"])]
    got = [r["i"] for r in DictSet(recs).filter(case["text"])]
    want = [r["i"] for r in recs if truth(case["tree"], r)]
    if got != want:
        out.append(f"kept: {case['text']!r} keeps {got}, should keep {want}")
    return out
