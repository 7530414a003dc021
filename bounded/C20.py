"""Every type of value, valid and damaged date texts in each supported form, and duration texts. Non-trivial when distinct."""
import datetime
import decimal

import numpy

from mabel.utils.dates import parse_delta, parse_iso

FILES = ["mabel/utils/dates.py"]


class Odd:
    def __len__(self):
        return 12


class Stamp:
    def to_pydatetime(self):
        return datetime.datetime(2020, 1, 2, 3)


class Text(str):
    pass


def cases(rng, tier, K):
    for i in range(len(fixed_values)):
        yield ("fixed", i)
    for name in ("Odd", "Stamp", "Text"):
        yield ("made", name)
    n = 0
    while n < (20000 if tier == "quick" else 150000):
        n += 1
        k = rng.random()
        if k < 0.55:
            y = rng.choice([1, 999, 1970, 2000, 2020, 2021, 2024, 1900, 9999, rng.randrange(1, 10000)])
            mo = rng.choice([1, 2, 12, rng.randrange(1, 13)])
            d = rng.choice([1, 28, 29, 30, 31, rng.randrange(1, 32)])
            h, mi, s = rng.choice([0, 23, rng.randrange(24), 24]) if rng.random() < 0.9 else 0, rng.choice([0, 59, rng.randrange(60), 60]) if rng.random() < 0.9 else 0, rng.choice([0, 59, rng.randrange(60), 60])
            form = rng.choice(["date", "minutes", "seconds", "fraction"])
            tail = rng.choice(["", "", "Z", "+0000", "+01:00", "+00:00"])
            sep = rng.choice("T ")
            yield ("form", form, (y, mo, d, h, mi, s), sep, tail, "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 3, 6, 2, 5]))) if form == "fraction" else "")
        elif k < 0.7:
            parts = [(u, rng.choice([0, 1, -1, 5, 19, 100, rng.randrange(-1000, 1000)])) for u in "dhms" if rng.random() < 0.6]
            yield ("delta", parts, rng.random() < 0.2)
        elif k < 0.9:
            t = list("2021-02-03T04:05:06.789")[: rng.choice([10, 16, 19, 23, rng.randrange(0, 24)])]
            for _ in range(rng.randrange(1, 4)):
                if t:
                    j = rng.randrange(len(t))
                    t[j] = rng.choice(["", "-", ":", "Z", "+", " ", "T", "0", "9", "٣", "²", "_", "x", "\x00", "é", "--", "\ud800"])
            yield ("damaged", "".join(t) + rng.choice(["", "", "Z", "+", "+1", "ZZ"]))
        else:
            yield ("damaged", "".join(rng.choice("0123456789-:TZ+ .x_é") for _ in range(rng.randrange(0, 36))))


fixed_values = [None, True, False, 0, -1, 10**30, 10**400, -(10**30), 1.5, float("nan"), float("inf"), -float("inf"), b"2021-01-01", bytearray(b"2021-01-01"), [], {}, set(), (), object, len, 1j, decimal.Decimal("1.5"), datetime.date(2021, 2, 3), datetime.date.max,
             datetime.datetime(2021, 2, 3, 4, 5, 6, 7), datetime.datetime.min, datetime.time(1), datetime.timedelta(1), [1] * 10, ["2021-01-01"] * 10, "", "Z", "+" * 10, "+" * 20, "Z" * 33, "0" * 10, "-" * 10, " " * 20,
             numpy.datetime64("2021-02-03"), numpy.datetime64("2021-02-03T04:05"), numpy.datetime64("NaT"), numpy.datetime64("2021-02-03T04:05:06.123456789"), numpy.datetime64(10**18, "s"), numpy.int64(5), numpy.float64(1.5), 2**63, 253402300800, 1e18]


def check(case):
    kind = case[0]
    if kind == "delta":
        _, parts, upper = case
        t = "".join(f"{n}{u}" for u, n in parts)
        t = t.upper() if upper else t
        want = sum(n * {"d": 86400, "h": 3600, "m": 60, "s": 1}[u] for u, n in parts)
        got = parse_delta(t)
        if got != datetime.timedelta(seconds=want):
            return [f"delta: {t!r} gives {got}, not {want} s"]
        return []
    want = "any"
    if kind == "form":
        _, form, (y, mo, d, h, mi, s), sep, tail, frac = case
        v = f"{y:04}-{mo:02}-{d:02}"
        args = (y, mo, d)
        if form != "date":
            v += f"{sep}{h:02}:{mi:02}"
            args += (h, mi)
            if form != "minutes":
                v += f":{s:02}"
                args += (s,)
                if form == "fraction":
                    v += "." + frac
        v += tail
        try:
            want = datetime.datetime(*args)
        except ValueError:
            want = None
    elif kind == "fixed":
        v = fixed_values[case[1]]
        if type(v) is datetime.datetime:
            want = v
        elif type(v) is datetime.date:
            want = datetime.datetime(v.year, v.month, v.day)
    elif kind == "made":
        v = {"Odd": Odd(), "Stamp": Stamp(), "Text": Text("2021-01-01")}[case[1]]
    else:
        v = case[1]
    try:
        got = parse_iso(v)
    except Exception as e:
        return [f"raises: parse_iso({v!r}) raises {type(e).__name__}: {e}"]
    if got is not None and not isinstance(got, datetime.datetime):
        return [f"type: parse_iso({v!r}) gives {got!r}"]
    if want != "any" and got != want:
        return [f"{kind}: parse_iso({v!r}) gives {got!r}, not {want!r}"]
    return []
