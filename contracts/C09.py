"""C09: a read consults every time bucket in its date range once, and none outside it."""
import pathlib

from pyvc.spec import *

SPECS, spec = registry()
DT = "mabel.utils.dates."
RD = "mabel.data.readers.internals.base_inner_reader.BaseInnerReader"
LL = "mabel.data.readers.reader._LowLevelReader"
HOUR = 3600


def moment(hour, rest, q="datetime"):
    """a point in time: a number of whole hours and of seconds (a real number of them, less than an hour's)"""
    return PyObj(External(q), {"hour": hour, "rest": rest})


def any_moment(vm, name):
    h, s = vm.fresh(name + "_hour", z3.IntSort()), vm.fresh(name + "_seconds", z3.RealSort())
    vm.assume(z3.And(s >= 0, s < HOUR))
    return moment(h, s)


def calendar(vm):
    vm.assumptions.add("datetime arithmetic: a date-time is a number of hours and seconds; replace(minute=0, second=0, microsecond=0) drops the seconds; a time delta is a number of seconds; no time zones")
    M = vm.models

    def replace(vm, s, a, k):
        if a or set(k) != {"minute", "second", "microsecond"} or any(v != 0 for v in k.values()):
            raise Unsupported("a replacement other than of the parts of an hour by 0")
        return moment(s.state["hour"], z3.RealVal(0))

    M["method:datetime.replace"] = replace
    at_ = lambda s: z3.ToReal(s.state["hour"]) * HOUR + s.state["rest"]
    M["op:datetime.Sub"] = lambda vm, a, b: PyObj(External("timedelta"), {"s": at_(a) - at_(b)}) if b.cls.q == "datetime" else add(vm, a, PyObj(b.cls, {"s": -b.state["s"]}))
    M["method:timedelta.total_seconds"] = lambda vm, s, a, k: Sym(REAL, z3.simplify(s.state["s"]))

    def delta(vm, a, k):
        f = {"days": 86400, "hours": HOUR, "minutes": 60, "seconds": 1}
        if a or set(k) - set(f):
            raise Unsupported("timedelta")
        return PyObj(External("timedelta"), {"s": sum((vm.num(v, REAL) * f[n] for n, v in k.items()), z3.RealVal(0))})

    M["datetime.timedelta"] = delta

    def add(vm, a, d):
        s = z3.simplify(d.state["s"] / HOUR)
        n = z3.ToInt(s)
        vm.prove("only whole hours are added", z3.ToReal(n) == s)
        return moment(z3.simplify(a.state["hour"] + n), a.state["rest"])

    M["op:datetime.Add"] = add

    def order(vm, f, a, b):
        x, y = (a.state["s"], b.state["s"]) if a.cls.q == "timedelta" else (at_(a), at_(b))
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[{"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}[f.__name__]]

    M["order:datetime"] = M["order:timedelta"] = order
    M["truth:datetime"] = lambda vm, o: True
    M["eq:datetime"] = lambda vm, a, b: at_(a) == at_(b)


@spec(DT + "date_range")
def date_range(vm):
    calendar(vm)
    start, end = any_moment(vm, "start"), any_moment(vm, "end")
    now = any_moment(vm, "now")
    day = vm.fresh("day", z3.IntSort())
    text, long_text = sstr(vm, "text"), sstr(vm, "long_text")
    vm.assume(z3.And(z3.Length(text.t) == 10, z3.Length(long_text.t) > 10))
    def combine(vm, a, k):
        vm.prove("a day ends with its last moment", getattr(a[1], "q", None) == "datetime.time.max")
        return moment(a[0].state["day"] * 24 + 23, z3.RealVal("3599.999999"))

    vm.models["datetime.datetime.combine"] = combine
    vm.assumptions.add("datetime.combine(day, time.max) lies in the last hour of the day; the text of a date with an hour appended is parsed as that hour of the date (parse_iso: C20)")

    def parse(vm, c, a, k):
        v = a[0]
        if isinstance(v, Sym):
            if v.t.eq(long_text.t):
                return written
            vm.prove("the text of a date covers its whole day", v.t == z3.Concat(text.t, z3.StringVal("T23:00:00")))
            return moment(day * 24 + 23, z3.RealVal(0))
        return v

    written = any_moment(vm, "written")
    vm.contracts[DT + "parse_iso"] = parse
    vm.models["datetime.datetime.utcnow"] = lambda vm, a, k: now
    s, e = start, end
    if vm.choose("no start"):
        s, start = None, now
    form = pick(vm, "end", 5)
    if form == 1:
        e, end = None, now
    elif form == 2:
        e, end = PyObj(External("datetime.date"), {"day": day}), moment(day * 24 + 23, z3.RealVal(0))
    elif form == 3:
        e, end = text, moment(day * 24 + 23, z3.RealVal(0))
    elif form == 4:
        e, end = long_text, written
    # what is yielded is told by its second
    add = vm.models["op:datetime.Add"]
    vm.models["op:datetime.Add"] = lambda vm, a, d: (lambda m: (vm.prove("a bucket is a whole hour", m.state["rest"] == 0), Sym(INT, m.state["hour"]))[1])(add(vm, a, d))
    i = vm.fresh("i", z3.IntSort())  # any position

    def tpl(vm, view):
        for nm, l, k, pre in view.locs(("list", "state"), INT):
            out = lambda l=l: vm.seq_term(view.get(l), INT)
            yield "one for each turn", lambda g, out=out: z3.Length(out()) == g.i
            yield "each is the next hour", lambda g, out=out: z3.Implies(z3.And(i >= 0, i < z3.Length(out())), out()[i] == start.state["hour"] + i)

    vm.loop_templates = [tpl]
    kind, r = outcome(vm, fn(vm, DT + "date_range"), s, e)
    if kind == "ok":
        kind, out = outcome(vm, py(lambda vm: items_of(vm, r, INT)))
    a, b = start.state["hour"], end.state["hour"]
    if kind == "exc":
        vm.prove("only a range that ends before it starts is refused", b < a)
        return
    vm.prove("each hour of the range is consulted once", z3.Length(out) == b - a + 1)
    vm.prove("they are the hours from the first to the last", z3.Implies(z3.And(i >= 0, i < z3.Length(out)), out[i] == a + i))


SS = z3.SeqSort(STR.sort)
FOLDER = ufun("folder_of_hour", z3.IntSort(), STR.sort)


def unmodelled(vm):
    raise Unsupported("a path of several parts")


@spec(RD + ".get_list_of_blobs")
def folders(vm):
    """each folder of the range is consulted once, and no other"""
    hours = vm.fresh("hours", z3.SeqSort(z3.IntSort()))
    start, end = PyObj(External("datetime"), {}), PyObj(External("datetime"), {})
    looked = PyList(("items", ()))

    def date_range(vm, c, a, k):
        vm.prove("the range is the reader's", a[0] is start and a[1] is end)
        return PyList(("seq", INT, hours))

    vm.contracts[DT + "date_range"] = date_range
    vm.contracts["mabel.utils.paths.build_path"] = lambda vm, c, a, k: Sym(STR, FOLDER(vm.num(k["date"] if "date" in k else a[1], INT)))
    vm.models["pathlib.Path"] = vm.models["pathlib.PurePosixPath"] = lambda vm, a, k: a[0] if len(a) == 1 else unmodelled(vm)
    vm.models["unmodelled"] = [x for x in dir(pathlib.Path) if not x.startswith("__")]  # a path is its text here
    vm.contracts[RD + ".get_blobs_at_path"] = lambda vm, c, a, k: (vm.append(looked, k["path"] if "path" in k else a[1]), PyList(("items", ())))[1]
    folder = sstr(vm, "any_folder").t
    those = lambda t: filt(vm, t, lambda h: FOLDER(h) == folder)
    asked = lambda t: filt(vm, t, lambda f: f == folder)

    def tpl(vm, view):
        for n, l, k, p in view.locs("dict"):
            yield "visited iff an hour had it", lambda g, l=l: z3.Select(vm.map_terms(view.get(l), STR, BOOL)[0], folder) == (z3.Length(those(g.p)) > 0)
        for n, l, k, p in view.locs("set", STR):
            yield "seen iff an hour had it", lambda g, l=l: z3.Contains(vm.seq_term(view.get(l), STR), z3.Unit(folder)) == (z3.Length(those(g.p)) > 0)
        for n, l, k, p in view.locs(("list", "state"), STR):
            yield "consulted once", lambda g, l=l: asked(vm.seq_term(view.get(l), STR)) == z3.If(z3.Length(those(g.p)) > 0, z3.Unit(folder), empty(SS))

    vm.loop_templates = [tpl]
    o = PyObj(fn(vm, RD), {"start_date": start, "end_date": end, "dataset": sstr(vm, "dataset"), "partition_filter": None, "days_stepped_back": 0})
    kind, r = outcome(vm, vm.getattr(o, "get_list_of_blobs"))
    vm.prove("the folders are listed", kind == "ok")
    if kind != "ok":
        return
    vm.prove("a folder of the range is consulted once, and no other is", asked(vm.seq_term(looked, STR)) == z3.If(z3.Length(those(hours)) > 0, z3.Unit(folder), empty(SS)))


@spec(RD + ".step_back_a_day")
def step_back_a_day(vm):
    calendar(vm)
    a, b, n = any_moment(vm, "start"), any_moment(vm, "end"), sint(vm, "days", 0)
    o = PyObj(fn(vm, RD), {"start_date": a, "end_date": b, "days_stepped_back": n})
    kind, r = outcome(vm, vm.getattr(o, "step_back_a_day"))
    vm.prove("it steps back", kind == "ok")
    if kind != "ok":
        return
    for nm, x in (("start_date", a), ("end_date", b)):
        y = o.state[nm].state
        vm.prove(nm + " is a whole day earlier", z3.And(y["hour"] == x.state["hour"] - 24, y["rest"] == x.state["rest"]))
    vm.prove("the day is counted", vm.num(o.state["days_stepped_back"], INT) == n.t + 1)


BLOBS = ufun("blobs_of_range_stepped_back", z3.IntSort(), SS)


@spec(LL + "._create_line_reader", name="freshness", budget=150)
def freshness(vm):
    """the first range with data, at most the limit back"""
    calendar(vm)
    days = sint(vm, "days", 0)
    vm.assume(days.t == 0)
    src = PyObj(External("InnerReader"), {"dataset": "d", "days_stepped_back": 0, "start_date": "then"})
    limit = PyObj(External("timedelta"), {"s": vm.fresh("limit", z3.RealSort())})
    L = limit.state["s"]
    back = lambda: vm.num(vm.narrow(src.state["days_stepped_back"]), INT)
    vm.models["method:InnerReader.get_list_of_blobs"] = lambda vm, s, a, k: PyList(("seq", STR, BLOBS(back())))
    vm.models["method:InnerReader.step_back_a_day"] = lambda vm, s, a, k: vm.setattr(src, "days_stepped_back", Sym(INT, z3.simplify(back() + 1)))
    EXT, SUPPORTED, DATA = ufun("extension", STR.sort, STR.sort), ufun("supported", STR.sort, z3.BoolSort()), ufun("holds_data", STR.sort, z3.BoolSort())
    vm.models["str.split"] = lambda vm, s, a, k: PyList(("items", (Sym(STR, EXT(vm.term(s, STR))),)))
    vm.models["contains:extensions"] = lambda vm, o, x: SUPPORTED(vm.term(x, STR))
    vm.models["getitem:extensions"] = lambda vm, o, x: (None, None, PyObj(External("kind"), {"x": x}))
    vm.models["eq:kind"] = lambda vm, a, b: DATA(vm.term(a.state["x"], STR))
    frame = vm.module_frame("mabel.data.readers.reader")
    vm.setvar(frame, "KNOWN_EXTENSIONS", PyObj(External("extensions"), {}))
    vm.setvar(frame, "EXTENSION_TYPE", PyObj(External("kinds"), {"DATA": PyObj(External("kind"), {})}))
    dot = z3.StringVal(".")
    readable = lambda t: filt(vm, t, lambda n: z3.And(SUPPORTED(z3.Concat(dot, EXT(n))), DATA(z3.Concat(dot, EXT(n)))))
    read = []

    def cursor(vm, c, a, k):
        read.append(vm.seq_term(k["readable_blobs"], STR))
        return PyObj(External("Cursor"), {})

    vm.contracts["mabel.data.readers.internals.cursor.Cursor"] = cursor
    vm.models["method:Cursor.next_blob"] = lambda vm, s, a, k: None
    vm.contracts["mabel.data.readers.internals.parallel_reader.ParallelReader"] = lambda vm, c, a, k: PyObj(External("Parallel"), {})
    j = vm.fresh("j", z3.IntSort())  # any number of days
    within = lambda d: z3.ToReal(d) * 86400 <= L

    def tpl(vm, view):
        if view.codec is not None:
            return
        n = lambda: back()
        yield "days are counted", lambda g: z3.And(n() >= 0, z3.Or(n() == 0, within(n() - 1)))
        yield "there was no data so far", lambda g: z3.Implies(z3.And(j >= 0, j < n()), z3.Length(BLOBS(j)) == 0)
        for nm, l, k, p in view.locs(("list", "state"), STR):
            yield "the blobs are those of the range", lambda g, l=l: vm.seq_term(view.get(l), STR) == BLOBS(n())

    vm.loop_templates = [tpl]
    o = PyObj(fn(vm, LL), {"reader_class": src, "freshness_limit": limit, "select": None, "filters": None, "override_format": None, "cursor": None, "multiprocess": False})
    kind, r = outcome(vm, vm.getattr(o, "_create_line_reader"))
    if kind == "ok":
        kind, r = outcome(vm, py(lambda vm: items_of(vm, r)))
    d = back()
    old = z3.Implies(z3.And(j >= 0, j < d), z3.Length(BLOBS(j)) == 0)
    if kind == "exc":
        vm.prove("no data is reported as that", "DataNotFoundError" in str(r.cls))
        vm.prove("only when there is none within the limit", z3.Or(z3.Length(readable(BLOBS(d))) == 0, z3.And(L > 1, z3.Implies(z3.And(j >= 0, within(j)), z3.Length(BLOBS(j)) == 0))))
        vm.prove("and no blob is read", not read)
        vm.prove("data further back than it need be is not asked for", z3.Or(d == 0, within(d - 1)))
        return
    vm.prove("the blobs of one range are read", z3.And(z3.BoolVal(len(read) == 1), read[0] == readable(BLOBS(d))))
    vm.prove("the range is at most the limit back", z3.Or(d == 0, within(d)))
    vm.prove("without a limit it is not stepped back", z3.Implies(L <= 1, d == 0))
    vm.prove("no later range has data", old)
