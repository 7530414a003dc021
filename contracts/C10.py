"""C10: resuming from a cursor yields exactly the records not read yet."""
from pyvc.spec import *

SPECS, spec = registry()
CU = "mabel.data.readers.internals.cursor.Cursor"
RD = "mabel.data.readers.reader._LowLevelReader"
SS = z3.SeqSort(STR.sort)
RECS = ufun("records_of", STR.sort, SV)


def cursor_libraries(vm):
    """bitarray, hashing and JSON, as far as a cursor uses them"""
    vm.assumptions.add("xxh3_64 of different blob names is different; bitarray(text).tobytes() holds a bit for each character, padded to whole bytes; "
                       "bytes.fromhex(b.hex()) == b; orjson.loads(orjson.dumps(d)) == d for a dictionary of text and numbers; bitarray.frombytes extends an empty bitarray by the bits of the bytes")

    def digest(vm, a, k):
        # names and their digests correspond one to one: a digest is as good as the name
        return PyObj(External("digest"), {"of": vm.narrow(a[0])})

    vm.models["xxhash.xxh3_64_intdigest"] = digest

    vm.models["eq:digest"] = lambda vm, a, b: vm.eq_term(a.state["of"], b.state["of"]) if isinstance(b, PyObj) and isinstance(a, PyObj) else False

    def bits(vm, a, k):
        return PyObj(External("bitarray"), {"_bits": a[0] if a else ""})

    vm.models["bitarray.bitarray"] = bits
    vm.models["method:bitarray.tobytes"] = lambda vm, s, a, k: PyObj(External("packed"), {"_bits": s.state["_bits"]})
    vm.models["method:packed.hex"] = lambda vm, s, a, k: PyObj(External("hexed"), {"_bits": s.state["_bits"]})
    vm.models["bytes.fromhex"] = vm.models["builtins.bytes.fromhex"] = lambda vm, a, k: PyObj(External("packed"), {"_bits": a[0].state["_bits"]})
    vm.models["method:bitarray.frombytes"] = lambda vm, s, a, k: vm.mut(s, {**s.state, "_bits": a[0].state["_bits"]})

    def bit(vm, o, i):
        t, n = vm.term(o.state["_bits"], STR), vm.num(i, INT)
        m = as_cmap(t)
        if m is None or vm.check([z3.Length(m[0].body) != 1]) != z3.unsat:
            return Sym(BOOL, z3.SubString(t, n, 1) == z3.StringVal("1"))
        # a text joined of single characters: the n-th is that of the n-th element
        return Sym(BOOL, m[0].at(m[1][n]) == z3.StringVal("1"))

    vm.models["getitem:bitarray"] = bit


@spec(CU + ".get, load_cursor")
def round_trip(vm):
    cursor_libraries(vm)
    blobs = vm.fresh("blobs", z3.SeqSort(STR.sort))
    read = vm.fresh("read", z3.SeqSort(STR.sort))
    c1 = vm.call(fn(vm, CU), [], {"readable_blobs": PyList(("seq", STR, blobs))})
    b = vm.seq_term(vm.getattr(c1, "readable_blobs"), STR)
    p = sstr(vm, "partition")
    loc = sint(vm, "location", 0)
    vm.assume(z3.Length(filt(vm, b, lambda n: n == p.t)) == 1)
    vm.setattr(c1, "partition", p)
    vm.setattr(c1, "location", loc)
    vm.setattr(c1, "read_blobs", PyList(("seq", STR, read)))
    if vm.choose("text"):
        text = lambda q, o: PyObj(External(q), {"of": o})
        vm.models["orjson.dumps"] = lambda vm, a, k: text("json", a[0])
        vm.models["method:json.decode"] = lambda vm, s, a, k: text("json text", s.state["of"])
        vm.models["orjson.loads"] = lambda vm, a, k: a[0].state["of"]
        vm.models["isinstance"] = lambda vm, v, cls, sub: True if isinstance(v, PyObj) and getattr(v.cls, "q", "") == "json text" and cls is str else None
        d = vm.call(vm.getattr(c1, "__repr__"), [], {})
    else:
        d = vm.call(vm.getattr(c1, "get"), [], {})
    c2 = vm.call(fn(vm, CU), [], {"readable_blobs": PyList(("seq", STR, blobs)), "cursor": d})
    vm.prove("the same blobs, in the same order", vm.seq_term(vm.getattr(c2, "readable_blobs"), STR) == b)
    vm.prove("the same blob is being read", vm.term(vm.narrow(vm.getattr(c2, "partition")), STR) == p.t)
    vm.prove("at the same record", vm.term(vm.narrow(vm.getattr(c2, "location")), INT) == loc.t)
    vm.prove("the blobs that were read are those", vm.seq_term(vm.getattr(c2, "read_blobs"), STR) == filt(vm, b, lambda n: z3.Contains(read, z3.Unit(n))))


def a_cursor(vm):
    """a cursor over some blobs"""
    b = vm.fresh("blobs", z3.SeqSort(STR.sort))
    read = vm.fresh("read", z3.SeqSort(STR.sort))
    vm.every(b, lambda n: z3.Length(n) > 0)
    c = PyObj(fn(vm, CU), {"readable_blobs": PyList(("seq", STR, b)), "read_blobs": PyList(("seq", STR, read)), "partition": "", "location": -1})
    return c, b, read


def field(vm, c, name, codec):
    v = vm.narrow(vm.getattr(c, name))
    return vm.seq_term(v, STR) if codec is None else vm.term(v, codec)


@spec(CU + ".next_blob")
def next_blob(vm):
    cursor_libraries(vm)
    c, b, read = a_cursor(vm)
    p, loc = sstr(vm, "partition"), sint(vm, "location", -1)
    vm.setattr(c, "partition", p)
    vm.setattr(c, "location", loc)
    if vm.choose("a blob was finished"):
        done = sstr(vm, "done")
        vm.assume(z3.Length(done.t) > 0)
        r = vm.narrow(vm.call(vm.getattr(c, "next_blob"), [done], {}))
        now = z3.Concat(read, z3.Unit(done.t))
        fresh = True
    else:
        # a cursor that was loaded, or a new one
        vm.assume(z3.Or(z3.Contains(b, z3.Unit(p.t)), z3.And(z3.Length(p.t) == 0, loc.t == -1)))
        r = vm.narrow(vm.call(vm.getattr(c, "next_blob"), [], {}))
        now = read
        fresh = not vm.branch(z3.And(z3.Length(p.t) > 0, loc.t >= 0))
    vm.prove("what was read is what was, and the blob that was finished", field(vm, c, "read_blobs", None) == now)
    unread = filt(vm, b, lambda n: z3.Not(z3.Contains(now, z3.Unit(n))))
    if not fresh:
        vm.prove("a blob that was begun is read on", r is not None and vm.term(r, STR) == p.t)
        vm.prove("from the same record", field(vm, c, "location", INT) == loc.t)
    elif r is None:
        vm.prove("it ends when every blob was read", z3.Length(unread) == 0)
    else:
        vm.prove("the next blob is the first that was not read", z3.And(z3.Length(unread) > 0, z3.Extract(unread, 0, 1) == z3.Unit(vm.term(r, STR))))
        vm.prove("it is the blob being read", field(vm, c, "partition", STR) == vm.term(r, STR))
        vm.prove("from its first record", field(vm, c, "location", INT) == -1)


@spec(CU + ".skip_to_cursor")
def skip_to_cursor(vm):
    c, b, read = a_cursor(vm)
    loc = sint(vm, "location", -1)
    vm.setattr(c, "location", loc)
    t = vm.fresh("records", SV)
    it = PyIter(("seq", VAL, t))

    def tpl(vm, view):
        for nm, l, k, pre in view.locs("state", VAL):
            rest = lambda l=l: vm.seq_term(view.get(l), VAL)
            left = lambda n, rest=rest: z3.Length(rest()) == z3.If(n < z3.Length(t), z3.Length(t) - n, 0)
            yield "how many are left", lambda g, left=left: left(g.i)
            # in a while loop, some integer counts what was passed over, or what is to be
            for n2, c2, k2, p2 in view.locs("sym", INT):
                count = lambda c2=c2: vm.num(view.get(c2), INT)
                yield "the count is one", lambda g, count=count: z3.And(count() >= 0, count() <= loc.t + 1)
                yield "how many are passed", lambda g, count=count, left=left: left(count())
                yield "how many are to be passed", lambda g, count=count, left=left: left(loc.t + 1 - count())
            yield "the last ones are left", lambda g, rest=rest: t == z3.Concat(z3.Extract(t, 0, z3.Length(t) - z3.Length(rest())), rest())

    vm.loop_templates = [tpl]
    r = vm.call(vm.getattr(c, "skip_to_cursor"), [it], {})
    rest = items_of(vm, it)
    n = z3.If(loc.t + 1 < z3.Length(t), loc.t + 1, z3.Length(t))
    vm.prove("the records up to the cursor's are passed over", z3.Length(rest) == z3.Length(t) - n)
    vm.prove("and no others", t == z3.Concat(z3.Extract(t, 0, n), rest))
    vm.prove("the next record has the next position", vm.num(r, INT) == loc.t + 1)
    vm.prove("the cursor stays", field(vm, c, "location", INT) == loc.t)


UNREAD = ufun("unread_blobs", SS, SS)  # the readable blobs that are not among those read


@spec(CU + ": unread blobs")
def unread_blobs(vm):
    """when the first unread blob was read, the other unread blobs are left (a listing names a blob once)"""
    b, read, t = vm.fresh("blobs", SS), vm.fresh("read", SS), vm.fresh("others", SS)
    x = sstr(vm, "x").t
    vm.assume(filt(vm, b, lambda n: z3.Not(z3.Contains(read, z3.Unit(n)))) == z3.Concat(z3.Unit(x), t))
    vm.every(t, lambda n: n != x)
    keep = lambda s, seen: filt(vm, s, lambda n: z3.Not(z3.Contains(seen, z3.Unit(n))))
    now = z3.Concat(read, z3.Unit(x))
    vm.prove("reading one more blob leaves those of the unread that are others", keep(b, now) == filt(vm, keep(b, read), lambda n: n != x))
    vm.prove("which are all but the first", filt(vm, z3.Concat(z3.Unit(x), t), lambda n: n != x) == t)


FLAT = ufun("records_of_all", SS, SV)
LEFT = ufun("left_to_deliver", SS, z3.IntSort(), SV)
EXT, SUPPORTED, DATA = ufun("extension", STR.sort, STR.sort), ufun("supported", STR.sort, z3.BoolSort()), ufun("holds_data", STR.sort, z3.BoolSort())


@spec(RD + "._create_line_reader", budget=250)
def line_reader(vm):
    """reading on from any point of a linear read delivers what was left at that point"""
    names = vm.fresh("names", SS)  # what the listing gives
    vm.every(names, lambda n: z3.Length(n) > 0)
    vm.models["str.split"] = lambda vm, s, a, k: PyList(("items", (Sym(STR, EXT(vm.term(s, STR))),)))
    vm.models["contains:extensions"] = lambda vm, o, x: SUPPORTED(vm.term(x, STR))
    vm.models["getitem:extensions"] = lambda vm, o, x: (None, None, PyObj(External("kind"), {"x": x}))
    vm.models["eq:kind"] = lambda vm, a, b: DATA(vm.term(a.state["x"], STR))
    frame = vm.module_frame("mabel.data.readers.reader")
    vm.setvar(frame, "KNOWN_EXTENSIONS", PyObj(External("extensions"), {}))
    vm.setvar(frame, "EXTENSION_TYPE", PyObj(External("kinds"), {"DATA": PyObj(External("kind"), {})}))
    source = PyObj(External("InnerReader"), {"dataset": "d", "days_stepped_back": 0})
    vm.models["method:InnerReader.get_list_of_blobs"] = lambda vm, s, a, k: PyList(("seq", STR, names))
    vm.models["datetime.timedelta"] = lambda vm, a, k: PyObj(External("limit"), {})
    vm.models["order:limit"] = lambda vm, f, a, b: False
    vm.assumptions.add("a listing names a blob once; a blob's records are the same when it is read again; the cursor was taken in a read of the same blobs in order, so the blob it stands in is the first that was not read")

    cursor = PyObj(External("Cursor"), {})
    read = PyList(("seq", STR, vm.fresh("read", SS)))
    loc0 = sint(vm, "location", -1)
    vm.setattr(cursor, "location", loc0)
    B = []

    def at_of():
        return vm.term(vm.narrow(vm.getattr(cursor, "location")), INT)

    def unread():
        return UNREAD(vm.seq_term(read, STR))

    def tail(u):
        return z3.Extract(u, 1, z3.Length(u) - 1)

    def left(u, at):
        """what is left to deliver: of the first blob, what comes after the location; the others"""
        return LEFT(u, at)

    def unfold(u):
        """the definition of what is left, at u"""
        vm.assume(FLAT(u) == LEFT(u, z3.IntVal(-1)))
        vm.assume(z3.Implies(z3.Length(u) > 0, z3.Length(u[0]) > 0))

    def make(vm, closure, args, kw):
        vm.prove("what is read is the data blobs of the listing", vm.seq_term(kw["readable_blobs"], STR) ==
                 filt(vm, names, lambda n: z3.And(SUPPORTED(z3.Concat(z3.StringVal("."), EXT(n))), DATA(z3.Concat(z3.StringVal("."), EXT(n))))))
        B.append(True)
        unfold(unread())
        whole.append((unread(), loc0.t))
        vm.assume(loc0.t < z3.If(z3.Length(unread()) > 0, z3.Length(RECS(unread()[0])), 0))
        return cursor

    def next_blob(vm, s, a, k):
        if a:
            u = unread()
            done = V.s(vm.to_V(a[0]))
            vm.prove("the blob that was finished is the one that was being read", z3.And(z3.Length(u) > 0, done == u[0]))
            vm.append(read, Sym(STR, done))
            vm.assume(unread() == tail(u))
            vm.assume(FLAT(unread()) == FLAT(tail(u)))
            vm.setattr(cursor, "location", -1)
            unfold(unread())
        u = unread()
        return Sym(VAL, z3.If(z3.Length(u) > 0, V.str(u[0]), V.none))

    def skip(vm, s, a, k):
        it, at = a[0], at_of()
        t = vm.seq_term(it, VAL)
        before, after = vm.fresh("passed", SV), vm.fresh("after", SV)
        vm.assume(z3.And(t == z3.Concat(before, after), z3.Length(before) == at + 1, after == z3.Extract(t, at + 1, z3.Length(t) - at - 1)))
        vm.mut(it, ("seq", VAL, after))
        u = unread()
        vm.assume(z3.Implies(z3.And(z3.Length(u) > 0, t == RECS(u[0])), LEFT(u, at) == z3.Concat(after, FLAT(tail(u)))))
        return Sym(INT, at + 1)

    vm.contracts[CU] = make
    vm.models["method:Cursor.next_blob"] = next_blob
    vm.models["method:Cursor.skip_to_cursor"] = skip
    vm.contracts["mabel.data.readers.internals.parallel_reader.ParallelReader"] = lambda vm, c, a, k: PyObj(External("Parallel"), {})
    vm.models["call:Parallel"] = lambda vm, o, a, k: PyIter(("seq", VAL, RECS(V.s(vm.to_V(a[0])))))
    whole = []

    def tpl(vm, view):
        if view.codec is not None:
            return
        outs = [l for n, l, k, p in view.locs(("list", "state"), VAL)]
        for n, l, k, p in view.locs("sym", VAL):
            yield "the blob to read is the first that was not read", lambda g, l=l: vm.term(view.get(l), VAL) == z3.If(z3.Length(unread()) > 0, V.str(unread()[0]), V.none)
        yield "the location is one", lambda g: z3.And(at_of() >= -1, at_of() < z3.If(z3.Length(unread()) > 0, z3.Length(RECS(unread()[0])), 0))
        yield "blobs have names", lambda g: z3.Implies(z3.Length(unread()) > 0, z3.Length(unread()[0]) > 0)
        for o in outs:
            yield "what was delivered and what is left are the whole", lambda g, o=o: concat(empty(SV), vm.seq_term(view.get(o), VAL), left(unread(), at_of())) == left(*start())

    def start():
        return whole[0]

    vm.loop_templates = [tpl]
    o = PyObj(fn(vm, RD), {"reader_class": source, "freshness_limit": PyObj(External("limit"), {}), "select": None, "filters": None,
                           "override_format": None, "cursor": None, "multiprocess": False})
    kind, r = outcome(vm, vm.getattr(o, "_create_line_reader"))
    if kind == "ok":
        kind, out = outcome(vm, py(lambda vm: items_of(vm, r)))
    if kind == "exc":
        vm.prove("only a read of no blobs is refused", z3.BoolVal(not B))
        return
    vm.assume(z3.Implies(z3.Length(unread()) == 0, LEFT(unread(), at_of()) == empty(SV)))
    vm.prove("what is delivered is what was left", out == left(*start()))
