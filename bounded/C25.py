"""Random rules and calls through the validator, random parameter sets on the reader itself (with adapters that declare rules), and the
spelling distance of random names. Non-trivial when rules, parameters or names are distinct."""
import datetime
import logging

import rcommon

from mabel.data import Reader
from mabel.errors import DataNotFoundError, InvalidReaderConfigError
from mabel.utils.parameter_validator import get_levenshtein_distance, validate

logging.disable(logging.CRITICAL)
FILES = ["mabel/utils/parameter_validator.py", "mabel/data/readers/reader.py"]
NAMES = ["alpha", "beta", "gamma", "delta", "eps"]
SETTINGS = [None, 0, 1, "", "x", [], [1], False, True]
READER = {"cursor", "dataset", "end_date", "freshness_limit", "inner_reader", "raw_path", "select", "start_date", "filters", "persistence", "override_format", "multiprocess", "valid_dataset_prefixes", "partitions", "partition_filter", "project"}
CLASH = {"raw_path": {"freshness_limit"}, "multiprocess": {"cursor"}, "partitions": {"raw_path"}, "partition_filter": {"freshness_limit"}}
D = datetime.date(2021, 2, 3)


def cases(rng, tier, K):
    def rules(names):
        out = []
        for n in names:
            r = {"name": n}
            if rng.random() < 0.8:
                r["required"] = rng.random() < 0.25
            if rng.random() < 0.3:
                r["warning"] = rng.choice([None, "", "take care"])
            if rng.random() < 0.6:
                r["incompatible_with"] = rng.sample(NAMES + ["zeta"], rng.choice([0, 0, 1, 2]))
            out.append(r)
        return out

    n = 0
    while n < (12000 if tier == "quick" else 60000):
        n += 1
        k = n % 3
        if k == 0:
            own = rng.sample(NAMES, rng.randrange(1, 5))
            adapter = rules(rng.sample(["zeta", "eta", "eps"], rng.randrange(1, 3))) if rng.random() < 0.4 else None
            given = {p: rng.choice(SETTINGS) for p in rng.sample(NAMES + ["zeta", "eta", "unknown", "alpga"], rng.randrange(0, 5))}
            given = {p: v for p, v in given.items() if p in own or rng.random() < 0.3}
            yield ("rules", rules(own), given, adapter, rng.randrange(0, 3))
        elif k == 1:
            given = {"dataset": "lake/data", "start_date": D, "end_date": D}
            pool = {"select": ["*", "a", None], "freshness_limit": ["3d", "", None], "raw_path": [True, False], "filters": [None, "a = 1", []], "override_format": [None], "multiprocess": [False, None], "cursor": [None, {}], "valid_dataset_prefixes": [None, ["lake"]], "partitions": [["year_{yyyy}/month_{mm}/day_{dd}"], []], "partition_filter": [None], "project": [True], "data": [1], "Dataset": ["x"], "selct": ["*"], "where": ["x"], "zeta": [0, 1], "eta": ["e"]}
            for p in rng.sample(sorted(pool), rng.randrange(0, 4)):
                given[p] = rng.choice(pool[p])
            if rng.random() < 0.1:
                del given["dataset"]
            yield ("reader", given, rng.choice([None, None, [{"name": "zeta", "required": False, "incompatible_with": ["select"]}, {"name": "eta", "required": True}], [{"name": "zeta"}]]))
        else:
            a = "".join(rng.choice("abAB_é") for _ in range(rng.randrange(0, 8)))
            b = list(a)
            for _ in range(rng.randrange(0, 4)):
                j = rng.randrange(len(b) + 1)
                b[j:j + rng.randrange(0, 2)] = rng.choice(["", "a", "B", "x"])
            yield ("distance", a, "".join(b) if rng.random() < 0.7 else "".join(rng.choice("abAB") for _ in range(rng.randrange(0, 8))))


def distance(a, b, memo):
    if (a, b) not in memo:
        if not a or not b:
            memo[a, b] = len(a) + len(b)
        elif a[0] == b[0]:
            memo[a, b] = distance(a[1:], b[1:], memo)
        else:
            memo[a, b] = 1 + min(distance(a[1:], b, memo), distance(a, b[1:], memo), distance(a[1:], b[1:], memo))
    return memo[a, b]


def refused(rules, given):
    known = {r["name"] for r in rules}
    return any(p not in known for p in given) or any(r.get("required") and r["name"] not in given for r in rules) or any(given.get(r["name"]) and any(t in given for t in r.get("incompatible_with") or []) for r in rules)


def check(case):
    if case[0] == "distance":
        _, a, b = case
        got, want = get_levenshtein_distance(a, b), distance(a.lower(), b.lower(), {})
        return [] if got == want else [f"distance: of {a!r} and {b!r} is {got}, not {want}"]
    if case[0] == "rules":
        _, rules, given, adapter, positional = case
        given = dict(given)
        calls = []
        v = validate([dict(r) for r in rules])

        @v
        def f(alpha=5, beta=None, gamma=None, delta=None, eps=None, **kw):
            calls.append(dict(alpha=alpha, beta=beta, gamma=gamma, delta=delta, eps=eps, **kw))
            return "done"

        all_rules = list(rules)
        if adapter:
            class Adapter:
                RULES = [dict(r) for r in adapter]

            given["beta"] = Adapter
            all_rules += adapter
        order = ["alpha", "beta", "gamma", "delta", "eps"]
        pos = []
        for p in order[:positional]:
            if p not in given:
                break
            pos.append(p)
        for turn in (1, 2):  # a call leaves the rules as they were
            calls.clear()
            try:
                r = f(*[given[p] for p in pos], **{p: x for p, x in given.items() if p not in pos})
                out = "called"
            except InvalidReaderConfigError:
                out = "refused"
            want = "refused" if refused(all_rules, given) else "called"
            if out != want:
                return [f"verdict: {given} by {all_rules} is {out}, not {want} (call {turn})"]
            if out == "refused" and calls:
                return ["verdict: refused after the call"]
            if out == "called":
                full = dict({"alpha": 5, "beta": None, "gamma": None, "delta": None, "eps": None}, **given)
                if len(calls) != 1 or repr(sorted(calls[0].items(), key=lambda kv: kv[0])) != repr(sorted(full.items(), key=lambda kv: kv[0])) or r != "done":
                    return [f"parameters: {given} reached the function as {calls}"]
        return []
    _, given, adapter = case
    blob = rcommon.encode("jsonl", [{"a": 1, "b": "x"}, {"a": 2, "b": "y"}])
    Mem, looked, read = rcommon.store({"lake/data/year_2021/month_02/day_03/x.jsonl": blob})
    rules = [{"name": n, "required": n == "dataset", "incompatible_with": sorted(CLASH.get(n, []))} for n in READER]
    given = dict(given)
    if adapter:
        class WithRules(Mem):
            RULES = [dict(r) for r in adapter]

        Mem = WithRules
        rules += adapter
    given["inner_reader"] = Mem
    want = refused(rules, given)
    try:
        Reader(**given)
        got = False
    except InvalidReaderConfigError:
        got = True
    except Exception as e:
        # past the validation
        got = False
    if got != want:
        return [f"reader: {sorted(given)} is {'refused' if got else 'accepted'}: {given}"]
    if got and (looked or read):
        return [f"reader: {looked or read} consulted before the refusal"]
    return []
