"""LIKE / NOT LIKE against a character-by-character matcher and text cleaning against its definition, on random
texts and patterns over a small alphabet with wildcards, regular-expression characters, line breaks and
non-ASCII letters; a case is non-trivial when it is a distinct (value, pattern) or (text, permitted) pair."""
import itertools
import string

from mabel.data import DictSet
from mabel.utils import text as T

FILES = ["mabel/utils/text.py"]
ALPHA = "abAB%_.\n*+?[]()\\^$| é-{}1"


def matches(v, p):
    v, p = v.lower(), p.lower()
    ok = {0}
    for c in p:
        if c == "%":
            ok = set(range(min(ok), len(v) + 1)) if ok else set()
        elif c == "_":
            ok = {i + 1 for i in ok if i < len(v)}
        else:
            ok = {i + 1 for i in ok if i < len(v) and v[i] == c}
    return len(v) in ok


def cases(rng, tier, K):
    fixed = [("a\nb", "a%b"), ("a\n", "a"), ("a", "a\n"), ("", ""), ("", "%"), ("", "_"), ("a.c", "a_c"), ("abc", "a.c"),
             ("\n", "_"), ("A", "a"), ("É", "é"), ("a\nb", "a_b"), ("a\\", "a\\"), ("100%", "100%"), ("xay", "a"), ("ab", "a"), ("ba", "a")]
    for v, p in fixed:
        yield {"like": [v, p]}
    for v in (None, 12, 1.5, True):
        for p in ("n%", "1%", "12", "1._", "true", "NONE", "%"):
            yield {"like": [v, p]}
    yield {"san": ["a-b_c D9\t\n/.é", None]}
    for t in ("", "../x", "a/b", "\x00\x7f"):
        yield {"san": [t, None]}
    for s in K["strs"]:
        yield {"like": [s, s]}
        yield {"like": ["x" + s, s]}
        yield {"san": [s, None]}
    for n in range(0, 4):
        for p in itertools.product("a%_\n", repeat=n):
            for m in range(0, 4):
                for v in itertools.product("aB\n", repeat=m):
                    yield {"like": ["".join(v), "".join(p)]}
    N = 20000 if tier == "quick" else 120000
    for i in range(N):
        al = rng.choice([ALPHA, "ab%_", "aé%\n_", "sSßẞ%_", string.printable])
        p = "".join(rng.choice(al) for _ in range(rng.randrange(0, 9)))
        if rng.random() < 0.6:
            v = "".join("".join(rng.choice(al) for _ in range(rng.randrange(0, 4))) if c == "%" else rng.choice(al) if c == "_" else c for c in p)
            if rng.random() < 0.3 and v:
                j = rng.randrange(len(v))
                v = v[:j] + rng.choice(al) + v[j + rng.randrange(2):]
            if rng.random() < 0.3:
                v = v.swapcase()
        else:
            v = "".join(rng.choice(al) for _ in range(rng.randrange(0, 9)))
        yield {"like": [v, p]}
        if i % 5 == 0:
            t = "".join(rng.choice(string.printable + "éß/.\\") for _ in range(rng.randrange(0, 20)))
            yield {"san": [t, rng.choice([None, None, "abc", string.ascii_letters + "/-_.", ""])]}
        if i % 40 == 0:
            w = "".join(rng.choice("ab%_ c") for _ in range(rng.randrange(1, 6))).strip() or "a"
            yield {"where": [["".join(rng.choice("abc ") for _ in range(rng.randrange(0, 5))) for _ in range(6)], w]}


def check(case):
    if "like" in case:
        v, p = case["like"]
        want = matches(str(v), p)
        got, ngot = bool(T.like(v, p)), bool(T.not_like(v, p))
        out = []
        if got != want:
            out.append(f"like: {v!r} LIKE {p!r} gives {got}, the definition {want}")
        if ngot == want:
            out.append(f"not_like: {v!r} NOT LIKE {p!r} gives {ngot}, the definition {not want}")
        return out
    if "where" in case:
        vs, p = case["where"]
        rows = [{"i": i, "v": v} for i, v in enumerate(vs)]
        got = [r["i"] for r in DictSet(list(rows)).filter(f"v LIKE '{p}'")]
        want = [i for i, v in enumerate(vs) if matches(v, p) and v == v]
        out = [] if got == want else [f"where: v LIKE {p!r} keeps {got} of {vs}, the definition {want}"]
        got2 = [r["i"] for r in DictSet(list(rows)).filter([("v", "like", p)])]
        if got2 != want:
            out.append(f"like: the filter ('v', 'like', {p!r}) keeps {got2} of {vs}, the definition {want}")
        return out
    t, ok = case["san"]
    want = "".join(c for c in t if c in (string.ascii_letters + string.digits + string.whitespace if ok is None else ok))
    got = T.sanitize(t) if ok is None else T.sanitize(t, ok)
    return [] if got == want else [f"sanitize: {t!r} permitted {ok!r} gives {got!r}, the definition {want!r}"]
