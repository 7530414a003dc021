"""Reads with permitted prefixes over generated dataset names, and SQL statements whose FROM clause holds generated names
(alphabets of letters, digits, permitted and other characters), against the stated rules; a recording store notes whether
storage was touched. Non-trivial when the name, prefixes or statement is distinct."""
import datetime
import itertools
import re

import rcommon

from mabel import SqlReader
from mabel.data import Reader
from mabel.data.readers.internals.sql_reader import InvalidSqlError, SqlParser
from mabel.data.readers.reader import AccessDenied
from mabel.errors import DataNotFoundError

FILES = ["mabel/data/readers/reader.py", "mabel/data/readers/internals/sql_reader.py"]
D = datetime.date(2021, 2, 3)
AL = "ab1Z./-_ \\~%;$*'`é:é2!@#&+=|<>?^{}[]\"\n\t"


AROUND = ["SELECT * FROM {} LIMIT 0", "SELECT * FROM {} WHERE a = 1", "SELECT a FROM {} LIMIT 1", "SELECT DISTINCT a FROM {} WHERE a > 0 ORDER BY a DESC LIMIT 3", "select COUNT(*) from {} group by a",
          "SELECT * FROM (SELECT * FROM {})", "SELECT * FROM (SELECT a FROM {} WHERE a = 1) WHERE a = 1", "SELECT a FROM (SELECT * FROM {} LIMIT 0) LIMIT 1", "SELECT COUNT(*) FROM (SELECT * FROM {}) WHERE a = 2 GROUP BY a"]


def cases(rng, tier, K):
    names = ["public/a", "private/a", "publicity", "public", "pub", "", "PUBLIC/a", "xpublic/a", "../public/a", "/public", "a", "public/../private"]
    prefs = [["public/"], ["public"], ["a", "public/"], ["private/", "public/"], ["zz"], [""], [], None, ["public/a", "b"], ["../public"]]
    for n, p in itertools.product(names, prefs):
        if n:
            yield {"ds": n, "prefixes": p}
    good = ["a", "abc/def", "a.b.c", "a-b_c/d1", "A1", "a/b/c", "é/b", "a_", "a-", "a."]
    bad = ["1a", "/a", ".a", "-a", "_a", "a..b", "a//b", "a--b", "a/../b", "a b", "a;b", "a\\b", "a~", "*", "a%b", "a'b", "a.-/_..", "a/./b", "a./b", "a/.b", "a.-.b"]
    for n in good + bad:
        yield {"sql": n}
    for s in K["strs"]:
        yield {"ds": s + "/x", "prefixes": [s[:-1] or "q"]}
        yield {"sql": s}
    for n in range(1, 4):
        for t in itertools.product("a1./-_", repeat=n):
            yield {"sql": "".join(t)}
    for n in good + bad + ["ab/c.d", "1", "a*b"]:
        for q in AROUND:
            yield {"sql": n, "around": q}
    for n, p, q in itertools.product(["public/a", "private/a", "publicity", "public"], [["public/"], ["public"], ["zz"], [], None], AROUND):
        yield {"sub": n, "around": q, "prefixes": p}
    N = 6000 if tier == "quick" else 40000
    for _ in range(N):
        if rng.random() < 0.3:
            n = "".join(rng.choice("ab/.") for _ in range(rng.randrange(1, 6)))
            yield {"ds": n, "prefixes": ["".join(rng.choice("ab/.") for _ in range(rng.randrange(0, 4))) for _ in range(rng.randrange(0, 4))]}
        else:
            yield {"sql": "".join(rng.choice(rng.choice([AL, "ab1./-_"])) for _ in range(rng.randrange(1, 8)))}


KEYWORDS = {"SELECT", "DISTINCT", "FROM", "WHERE", "GROUPBY", "HAVING", "ORDERBY", "ASC", "DESC", "LIMIT"}


def valid(name):
    """(the rule, ignoring names that the statement syntax itself cuts up)"""
    return bool(name) and name[0].isalpha() and all(c.isalnum() or c in "./-_" for c in name) and not any(x in name for x in ("..", "//", "--"))


def check_sub(case):
    Mem, looked, read = rcommon.store({case["sub"] + "/x.jsonl": b'{"a":1}\n{"a":2}'})
    outer = None
    try:
        outer = list(SqlReader(case["around"].replace("{}", case["sub"]), inner_reader=Mem, partitions=None, start_date=D, end_date=D, valid_dataset_prefixes=case["prefixes"]))
        denied = False
    except AccessDenied:
        denied = True
    want = bool(case["prefixes"]) and not case["sub"].startswith(tuple(case["prefixes"]))
    if denied != want:
        return [f"subquery: {case['around']!r} of {case['sub']!r} with {case['prefixes']} is {'refused' if denied else 'allowed, and gives ' + repr(outer)}"]
    if denied and (looked or read):
        return [f"touched: storage was used before the refusal of {case['sub']!r}"]
    return []


def check(case):
    if "sub" in case:
        return check_sub(case)
    if "ds" in case:
        Mem, looked, read = rcommon.store({case["ds"].rstrip("/") + "/x.jsonl": b'{"a":1}'})
        made = []

        class Rec(Mem):
            def __init__(self, **k):
                made.append(k)
                super().__init__(**k)

        kw = {"valid_dataset_prefixes": case["prefixes"]} if case["prefixes"] is not None else {}
        try:
            list(Reader(dataset=case["ds"], partitions=None, inner_reader=Rec, start_date=D, end_date=D, **kw))
            denied = False
        except AccessDenied:
            denied = True
        except DataNotFoundError:
            denied = False
        want = bool(case["prefixes"]) and not any(case["ds"].startswith(p) for p in case["prefixes"])
        if denied != want:
            return [f"prefix: dataset {case['ds']!r} with {case['prefixes']} is {'refused' if denied else 'allowed'}"]
        if denied and (looked or read or made):
            return [f"touched: storage was used before the refusal of {case['ds']!r}"]
        return []
    name = case["sql"]
    Mem, looked, read = rcommon.store({})
    if name.upper().replace(" ", "") in KEYWORDS:
        return []
    ok = valid(name)
    plain = not re.search(r"[\s'\"`(),]", name) and "/*" not in name and "--" not in name
    out = []
    try:
        if "(SELECT" in case.get("around", ""):
            ok, plain = False, False
        p = SqlParser(case.get("around", "SELECT * FROM {}").replace("{}", name))
        accepted, ds = True, p.dataset
    except Exception:
        accepted, ds = False, None
    # a dot separates folders in a FROM clause
    folders = name.replace(".", "/")
    if ok and valid(folders) and not accepted:
        out.append(f"refused: FROM {name!r}")
    if accepted and isinstance(ds, str) and not valid(ds):
        out.append(f"sql: FROM {name!r} addresses {ds!r}")
    if accepted and plain and ds != folders:
        out.append(f"other: FROM {name!r} addresses {ds!r}")
    if plain and accepted and not ok:
        out.append(f"accepted: FROM {name!r}")
    try:
        SqlReader(case.get("around", "SELECT * FROM {}").replace("{}", name), inner_reader=Mem, partitions=None, start_date=D, end_date=D)
    except Exception:
        if looked:
            out.append(f"touched: FROM {name!r} is refused after storage was used: {looked}")
    for l in looked:
        if not valid(l):
            out.append(f"read: FROM {name!r} reads {l!r}")
    return out
