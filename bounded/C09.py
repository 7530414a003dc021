"""Date ranges of every span and type (dates, date-times, texts, swapped, across days, months and years) against the list of
hours between them; freshness limits against data placed a number of days back. A recording store in memory notes every
folder a read consults. Non-trivial when the range, limit or data position is distinct."""
import datetime
import json

import rcommon

from mabel.data import Reader
from mabel.errors import DataNotFoundError
from mabel.utils.dates import date_range

FILES = ["mabel/utils/dates.py", "mabel/data/readers/reader.py", "mabel/data/readers/internals/base_inner_reader.py"]
H = datetime.timedelta(hours=1)


def cases(rng, tier, K):
    D = datetime.datetime
    for s, e in [(D(2021, 2, 28, 22), D(2021, 3, 1, 2)), (D(2020, 12, 31, 23, 59, 59), D(2021, 1, 1, 0, 0, 1)), (D(2021, 1, 1), D(2021, 1, 1)), (D(2021, 1, 1, 5, 59), D(2021, 1, 1, 6, 1)),
                 (datetime.date(2021, 1, 1), datetime.date(2021, 1, 2)), ("2021-01-01", "2021-01-01"), ("2021-01-01T05:30:00", "2021-01-02"), ("2021-01-01 05:30", D(2021, 1, 1, 7)),
                 (D(2021, 1, 2), D(2021, 1, 1)), (D(2024, 2, 28, 23), D(2024, 3, 1, 0)), (datetime.date(2021, 5, 5), D(2021, 5, 5, 3, 3))]:
        yield {"range": [s, e]}
        yield {"read": [s, e]}
    ints = [i for i in K["ints"] if 0 <= i <= 400]
    N = 1200 if tier == "quick" else 12000
    for _ in range(N):
        s = D(rng.choice([1999, 2020, 2021, 2024]), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(10**6))
        e = s + datetime.timedelta(hours=rng.choice([0, 1, 2, 23, 24, 25, 47, 48, 49, 72, rng.randrange(200)] + ints), minutes=rng.randrange(60))
        form = lambda x: rng.choice([lambda: x, lambda: x.replace(minute=0, second=0, microsecond=0), lambda: x.isoformat()[:19], lambda: x.date(), lambda: x.isoformat(" ")[:16], lambda: x.date().isoformat()])()
        yield {"range": [form(s), form(e)]}
        yield {"read": [form(s), form(e)] if rng.random() < 0.8 else [form(e), form(s)]}
        if rng.random() < 0.2:
            yield {"back": [s, e], "times": rng.randrange(1, 5)}
    for back in [None, 0, 1, 2, 3, 5]:
        for limit in ["1d", "2d", "3d", "1d12h", "25h", "6h", "47h", "48h", "1s", "", "5d", "1d1s", "23h59m", "4d23h"]:
            yield {"fresh": [back, limit], "date": rng.choice([D(2021, 3, 2), D(2021, 1, 1, 3), D(2020, 3, 1, 0)])}


def when(x, end):
    """the hour a range end names; None when the reader is not given one"""
    if isinstance(x, str):
        d = datetime.datetime.fromisoformat(x)
        if len(x) == 10 and end:
            d = d.replace(hour=23)
    elif isinstance(x, datetime.datetime):
        d = x
    else:
        d = datetime.datetime.combine(x, datetime.time.min).replace(hour=23 if end else 0)
    return d.replace(minute=0, second=0, microsecond=0)


def hours(s, e):
    out = []
    while s <= e:
        out.append(s)
        s += H
    return out


def check(case):
    out = []
    if "range" in case:
        s, e = case["range"]
        a, b = when(s, False), when(e, True)
        try:
            got = list(date_range(s, e))
        except ValueError:
            return [] if b < a else [f"refused: {case['range']}"]
        if b < a:
            return [f"accepted: the end {e!r} is before the start {s!r}"]
        if got != hours(a, b):
            out.append(f"range: {len(got)} hours from {got[:1]} to {got[-1:]}, should be {len(hours(a, b))} from {a} to {b}")
        return out
    fmt = "p/%Y/%m/%d/%H"
    if "read" in case:
        # the reader takes a date without a time as midnight
        a, b = sorted(when(x, False) for x in case["read"])
        Mem, looked, _ = rcommon.store({})
        r = Mem(dataset="p", partitions=["{yyyy}/{mm}/{dd}/{HH}"], start_date=case["read"][0], end_date=case["read"][1])
        r.get_list_of_blobs()
        want = [f"p/{x.year}/" + x.strftime("%m/%d/%H") for x in hours(a, b)]
        if looked != want:
            extra = [x for x in looked if x not in want][:3]
            missing = [x for x in want if x not in looked][:3]
            out.append(f"folders: read of {case['read']} looks in {len(looked)} folders, should be {len(want)}; missing {missing}, extra {extra}")
        Mem, looked, _ = rcommon.store({})
        Mem(dataset="p", partitions=["{yyyy}/{mm}/{dd}"], start_date=case["read"][0], end_date=case["read"][1]).get_list_of_blobs()
        want = sorted({f"p/{x.year}/" + x.strftime("%m/%d") for x in hours(a, b)})
        if sorted(looked) != want:
            out.append(f"days: read of {case['read']} looks in {looked[:5]}, should be {want[:5]}")
        return out
    if "back" in case:
        (a, b), n = case["back"], case["times"]
        Mem, looked, _ = rcommon.store({})
        r = Mem(dataset="p", partitions=["{yyyy}/{mm}/{dd}/{HH}"], start_date=a, end_date=b)
        told = [r.step_back_a_day() for _ in range(n)]
        r.get_list_of_blobs()
        want = [f"p/{x.year}/" + x.strftime("%m/%d/%H") for x in hours(*(when(x - datetime.timedelta(days=n), False) for x in (a, b)))]
        if looked != want or told != list(range(1, n + 1)):
            out.append(f"back: {n} days before {a} to {b}, said to be {told}, looks in {looked[:2]} to {looked[-2:]}, should be {want[:1]} to {want[-1:]}")
        return out
    back, limit = case["fresh"]
    units = {"d": 86400, "h": 3600, "m": 60, "s": 1}
    total, n = 0, ""
    for c in limit:
        if c.isdigit():
            n += c
        else:
            total, n = total + int(n) * units[c], ""
    start = case["date"]
    blobs = {}
    if back is not None:
        d = start - datetime.timedelta(days=back)
        blobs[f"p/{d.year}/" + d.strftime("%m/%d") + "/a.jsonl"] = json.dumps({"back": back}).encode()
        d = d - datetime.timedelta(days=1)
        blobs[f"p/{d.year}/" + d.strftime("%m/%d") + "/a.jsonl"] = json.dumps({"back": back + 1}).encode()
    Mem, looked, read = rcommon.store(blobs)
    kw = {"freshness_limit": limit} if limit else {}
    try:
        got = list(Reader(dataset="p", partitions=["{yyyy}/{mm}/{dd}"], inner_reader=Mem, start_date=start, end_date=start, **kw))
    except DataNotFoundError:
        got = None
    found = back is not None and (back == 0 or (total > 1 and back * 86400 <= total))
    if found and got != [{"back": back}]:
        out.append(f"stale: with data {back} days back and the limit {limit!r} the read gives {got}")
    if not found and got is not None:
        out.append(f"beyond: with data {back} days back and the limit {limit!r} the read gives {got}")
    for i, p in enumerate(looked):
        d = start - datetime.timedelta(days=i)
        if p != f"p/{d.year}/" + d.strftime("%m/%d"):
            out.append(f"steps: folders consulted {looked}")
            break
    if found and len(looked) != back + 1:
        out.append(f"stops: {len(looked)} folders consulted for data {back} days back")
    return out
