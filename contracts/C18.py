"""C18: persisting a data set does not change what it contains."""
from pyvc.spec import *

SPECS, spec = registry()
M = "mabel.data.internals.storage_classes."
COMPRESSED = M + "storage_class_compressed_memory.StorageClassCompressedMemory"
DISK = M + "storage_class_disk.StorageClassDisk"
MEMORY = M + "storage_class_memory.StorageClassMemory"

DUMP, LOAD = ufun("json_text", V, S), ufun("json_value", S, V)
PACK, UNPACK = ufun("lz4", S, S), ufun("unlz4", S, S)
SIZE = 250


def codecs(vm):
    """JSON and lz4 round trips (assumed of the libraries, for JSON-representable records)"""
    x = z3.Const("rt_x", V)
    y = z3.Const("rt_y", S)
    vm.assumptions.add("orjson.loads(orjson.dumps(v)) == v for JSON-representable v; the text holds no newline and is not empty")
    vm.assumptions.add("lz4.frame.decompress(lz4.frame.compress(b)) == b; bytearray(b) holds the bytes of b")

    def dumps(vm, a, k):
        v = vm.to_V(a[0])
        vm.assume(LOAD(DUMP(v)) == v)
        return Sym(BYTES, DUMP(v))

    def unbox(vm, t):
        t = z3.simplify(t)
        if z3.is_app(t) and t.decl().name() == "json_text":
            return t.arg(0)
        return LOAD(t)

    vm.models["orjson.dumps"] = dumps
    vm.models["orjson.loads"] = lambda vm, a, k: Sym(VAL, unbox(vm, vm.term(a[0], BYTES)))

    def compress(vm, a, k):
        b = vm.term(a[0], BYTES)
        vm.assume(UNPACK(PACK(b)) == b)
        return Sym(BYTES, PACK(b))

    vm.models["lz4.frame.compress"] = compress
    vm.models["lz4.frame.decompress"] = lambda vm, a, k: Sym(BYTES, UNPACK(vm.term(a[0], BYTES)))
    vm.models["builtins.bytearray"] = lambda vm, a, k: a[0]
    vm.models["gc.collect"] = lambda vm, a, k: 0


def inside(b):
    """the records of a stored batch"""
    return V.l(LOAD(UNPACK(b)))


def stored(vm, batches):
    return mapped(vm, batches, inside)


def position(vm, name):
    """an arbitrary position j = 250 q + r, where j // 250 is q and j % 250 is r"""
    q, r = sint(vm, name + "_q", 0).t, sint(vm, name + "_r", 0).t
    vm.assume(r < SIZE)
    return q * SIZE + r, q, r


def compressed_state(vm, t, j):
    """what the constructor is proved to establish """
    batches = vm.fresh("batches", z3.SeqSort(S))
    o = PyObj(fn(vm, COMPRESSED), {"compressor": External("lz4.frame"), "decompressor": External("lz4.frame"),
                                   "batches": seqv(batches, BYTES), "length": Sym(INT, z3.Length(t)), "iterator": None})
    vm.every(batches, lambda b: V.is_list(LOAD(UNPACK(b))))
    vm.assume(stored(vm, batches) == t)
    return o, batches


@spec(COMPRESSED + ".__init__")
def compressed_init(vm):
    codecs(vm)
    t = records(vm)
    # for every batch size, the one in the source included
    mf = vm.module_frame(COMPRESSED.rsplit(".", 1)[0])
    if not isinstance(vm.module_get(mf.module, "BATCH_SIZE"), int):
        raise Unsupported("BATCH_SIZE is not a constant")
    SIZE = sint(vm, "batch_size", 1).t
    vm.setvar(mf, "BATCH_SIZE", Sym(INT, SIZE))

    def tpl(vm, view):
        ll = {n: l for n, l, k, p in view.locs()}
        lists = [l for n, l, k, p in view.locs(("state", "list"))]
        for a in lists:
            for b in lists:
                if a is b or view.M[(id(a[0]), a[1])][1][1] is not BYTES or view.M[(id(b[0]), b[1])][1][1] is not VAL:
                    continue
                bs = lambda a=a: vm.seq_term(view.get(a), BYTES)
                cur = lambda b=b: vm.seq_term(view.get(b), VAL)
                yield "stored batches and the open one hold what was read", lambda g, bs=bs, cur=cur: concat(empty(SV), stored(vm, bs()), cur()) == g.p
                yield "the open batch is not full", lambda g, cur=cur: z3.Length(cur()) < SIZE
                for n, l, k, p in view.locs("sym", INT):
                    yield "the length counts what was stored", lambda g, l=l, cur=cur: vm.num(view.get(l), INT) == z3.Length(g.p) - z3.Length(cur())

    vm.loop_templates = [tpl]
    o = PyObj(fn(vm, COMPRESSED), {})
    vm.call(vm.getattr(o, "__init__"), [seqv(t)], {})
    bs = vm.seq_term(vm.getattr(o, "batches"), BYTES)
    vm.prove("the stored batches hold the records, in order", stored(vm, bs) == t)
    vm.prove("the length is the number of records", vm.num(vm.getattr(o, "length"), INT) == z3.Length(t))


@spec(COMPRESSED + ".__init__", name="compressed_placement", budget=120)
def compressed_placement(vm):
    """where a record is: what compressed_fetch is given of batches"""
    codecs(vm)
    t = vm.fresh("records", SV)
    mf = vm.module_frame(COMPRESSED.rsplit(".", 1)[0])
    SIZE = vm.module_get(mf.module, "BATCH_SIZE")
    if not isinstance(SIZE, int) or SIZE < 1:
        raise Unsupported("BATCH_SIZE is not a constant")
    Q, R = sint(vm, "q", 0).t, sint(vm, "r", 0).t
    vm.assume(R < SIZE)
    P = Q * SIZE + R

    def last(s):
        """what a sequence is made of before its last element, and the element, if that is how it was put together"""
        cs = s.children() if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT) else [s]
        if z3.is_app_of(cs[-1], z3.Z3_OP_SEQ_UNIT):
            return concat(empty(s.sort()), *cs[:-1]), cs[-1].arg(0)
        return None

    def nth(s, i, f):
        """f of the i-th element, by cases"""
        c = last(s)
        if c is None:
            # of a sequence that is not known further, what it says of the element is a function of it
            return (ufun("batch_holds", s.sort(), z3.BoolSort()) if f is holds else ufun("open_holds", s.sort(), z3.BoolSort()))(s)
        return z3.If(i < z3.Length(c[0]), nth(c[0], i, f), f(c[1])) if not is_empty_term(c[0]) else f(c[1])

    def size(s):
        c = last(s)
        return z3.Length(s) if c is None else size(c[0]) + 1

    def holds(b):
        b = unboxed(inside(b))
        return z3.And(R < size(b), nth(b, R, lambda x: x == t[P]))

    def unboxed(l):
        # what was packed a moment ago
        u = z3.simplify(l)
        try:
            w = u.arg(0).arg(0).arg(0)
            if w.decl().eq(PACK(S_).decl()) and w.arg(0).decl().eq(DUMP(V.none).decl()):
                return z3.simplify(V.l(w.arg(0).arg(0)))
        except z3.Z3Exception:
            pass
        return u

    S_ = z3.StringVal("")

    def placed(bs, cur, n):
        """the record at P, of the first n, is in its batch, or in the open one"""
        m = size(bs)
        yield "the batches are full", SIZE * m + size(cur) == n
        yield "a record is in the batch of its position", z3.Implies(Q < m, nth(bs, Q, holds))
        yield "or in the open one", z3.Implies(z3.And(Q == m, R < size(cur)), nth(cur, R, lambda x: x == t[P]))

    def tpl(vm, view):
        lists = [l for n, l, k, p in view.locs(("state", "list"))]
        for a in lists:
            for b in lists:
                if a is b or view.M[(id(a[0]), a[1])][1][1] is not BYTES or view.M[(id(b[0]), b[1])][1][1] is not VAL:
                    continue
                bs = lambda a=a: vm.seq_term(view.get(a), BYTES)
                cur = lambda b=b: vm.seq_term(view.get(b), VAL)
                yield "the open batch is not full", lambda g, cur=cur: z3.Length(cur()) < SIZE
                for k in range(3):
                    yield f"where records are {k}", lambda g, bs=bs, cur=cur, k=k: list(placed(bs(), cur(), z3.Length(g.p)))[k][1]

    vm.loop_templates, vm.only_templates = [tpl], True
    o = PyObj(fn(vm, COMPRESSED), {})
    vm.call(vm.getattr(o, "__init__"), [seqv(t)], {})
    bs = vm.seq_term(vm.getattr(o, "batches"), BYTES)
    vm.assume(z3.And(0 <= P, P < z3.Length(t)))
    vm.prove("there is a batch for a position", Q < size(bs))
    vm.assume(Q < size(bs))
    vm.prove("a record is in the batch of its position, at its place there", nth(bs, Q, holds))


@spec(COMPRESSED + ".__iter__")
def compressed_iterate(vm):
    codecs(vm)
    t = records(vm)
    o, _ = compressed_state(vm, t, None)
    for attempt in ("first", "second"):
        r = vm.call(vm.getattr(o, "__iter__"), [], {})
        vm.prove(f"iterates over the records, in order ({attempt} time)", items_of(vm, r) == t)
    vm.prove("its length is the number of records", vm.num(vm.call(vm.getattr(o, "__len__"), [], {}), INT) == z3.Length(t))


@spec(COMPRESSED + "._inner_reader")
def compressed_fetch(vm):
    codecs(vm)
    t = records(vm)
    o, bs = compressed_state(vm, t, None)
    ps = [position(vm, n) for n in "ij"]
    i, j = (p[0] for p in ps)
    vm.assume(z3.And(i < j, j < z3.Length(t)))
    for p, q, r in ps:
        b = inside(bs[q])
        vm.assume(z3.And(q < z3.Length(bs), r < z3.Length(b), b[r] == t[p], V.is_list(LOAD(UNPACK(bs[q])))))
    r = vm.call(vm.getattr(o, "_inner_reader"), [Sym(INT, i), Sym(INT, j)], {})
    vm.prove("fetching two ascending positions gives the records there", items_of(vm, r) == z3.Concat(z3.Unit(t[i]), z3.Unit(t[j])))


@spec(MEMORY + ".__init__")
def memory(vm):
    t = records(vm)
    o = PyObj(fn(vm, MEMORY), {})
    vm.call(vm.getattr(o, "__init__"), [seqv(t)], {})
    for attempt in ("first", "second"):
        r = vm.call(vm.getattr(o, "__iter__"), [], {})
        vm.prove(f"iterates over the records, in order ({attempt} time)", items_of(vm, r) == t)
    vm.prove("its length is the number of records", vm.num(vm.call(vm.getattr(o, "__len__"), [], {}), INT) == z3.Length(t))


@spec(MEMORY + "._inner_reader")
def memory_fetch(vm):
    t = records(vm)
    o = PyObj(fn(vm, MEMORY), {"data": seqv(t), "length": Sym(INT, z3.Length(t)), "iterator": None})
    i, j = sint(vm, "i", 0), sint(vm, "j", 0)
    vm.assume(z3.And(i.t < j.t, j.t < z3.Length(t)))
    r = vm.call(vm.getattr(o, "_inner_reader"), [i, j], {})
    vm.prove("fetching two ascending positions gives the records there", items_of(vm, r) == z3.Concat(z3.Unit(t[i.t]), z3.Unit(t[j.t])))


# ------------------------------------------------------------------ on disk
def line(x):
    return z3.Concat(DUMP(x), z3.StringVal("\n"))


def lines(vm, t):
    """the lines of the file that holds the records"""
    return mapped(vm, t, lambda x: z3.Unit(line(x)))


def files(vm):
    """a file system of one temporary file"""
    vm.models["tempfile.NamedTemporaryFile"] = lambda vm, a, k: PyObj(External("tempfile"), {"name": "the-temporary-file"})
    vm.models["atexit.register"] = lambda vm, a, k: None
    F = PyObj(External("file"), {"data": b""})

    def open_(vm, a, k):
        if a[0] != "the-temporary-file":
            raise Unsupported("another file")
        mode = k.get("mode", a[1] if len(a) > 1 else "r")
        if mode == "wb":
            vm.setattr(F, "data", b"")
        elif mode != "rb":
            raise Unsupported("file mode")
        return F

    vm.models["builtins.open"] = open_
    vm.models["method:file.write"] = lambda vm, s, a, k: vm.setattr(s, "data", Sym(BYTES, concat(z3.StringVal(""), vm.term(s.state["data"], BYTES), vm.term(bytes_of(vm, a[0]), BYTES))))
    vm.models["method:file.flush"] = lambda vm, s, a, k: None
    vm.models["method:file.fileno"] = lambda vm, s, a, k: 3
    vm.models["method:file.__enter__"] = lambda vm, s, a, k: s
    vm.models["method:file.__exit__"] = lambda vm, s, a, k: None
    return F


@spec(DISK + ".__init__")
def disk_init(vm):
    codecs(vm)
    vm.models["builtins.bytearray"] = BASE["builtins.bytearray"]
    vm.models["hasattr:mini"] = lambda vm, o: False
    t = records(vm)
    F = files(vm)
    vm.setvar(vm.module_frame(DISK.rsplit(".", 1)[0]), "BUFFER_SIZE", sint(vm, "buffer_size", 0))

    def tpl(vm, view):
        byt = [l for n, l, k, p in view.locs(("sym", "bytearray"), BYTES)]
        data = lambda l: vm.term(bytes_of(vm, view.get(l)), BYTES)
        ints = [l for n, l, k, p in view.locs("sym", INT)]
        for a in byt:
            for b in byt:
                if a is not b:
                    yield "file and buffer hold the lines of what was read", lambda g, a=a, b=b: concat(z3.StringVal(""), data(a), data(b)) == mapped(vm, g.p, line)
        for i in ints:
            yield "length is one less than what was read", lambda g, i=i: vm.term(view.get(i), INT) == g.i - 1

    vm.loop_templates = [tpl]
    o = PyObj(fn(vm, DISK), {})
    vm.call(vm.getattr(o, "__init__"), [seqv(t)], {})
    vm.prove("the file holds a line for each record, in order", vm.term(F.state["data"], BYTES) == mapped(vm, t, line))
    vm.prove("the length is the number of records", vm.num(vm.getattr(o, "length"), INT) == z3.Length(t))


def disk_object(vm, t):
    return PyObj(fn(vm, DISK), {"inner_reader": None, "length": Sym(INT, z3.Length(t)), "file": "the-temporary-file", "iterator": None})


@spec(DISK + "._read_file")
def disk_read_file(vm):
    t = records(vm)
    files(vm)
    ls = lines(vm, t)
    vm.assumptions.add("mmap.readline of a file written line by line gives those lines in turn, then nothing")

    def mmap_(vm, a, k):
        vm.prove("no empty file is mapped", z3.Length(t) > 0)
        return PyObj(External("mapped"), {"pos": Sym(INT, z3.IntVal(0))})

    vm.models["mmap.mmap"] = mmap_
    vm.models["method:mapped.__enter__"] = lambda vm, s, a, k: s
    vm.models["method:mapped.__exit__"] = lambda vm, s, a, k: None

    def readline(vm, s, a, k):
        pos = vm.term(s.state["pos"], INT)
        vm.setattr(s, "pos", Sym(INT, pos + 1))
        return Sym(BYTES, z3.If(pos < z3.Length(ls), ls[pos], z3.StringVal("")))

    vm.models["method:mapped.readline"] = readline

    def tpl(vm, view):
        ints = [l for n, l, k, p in view.locs("sym", INT)]
        byt = [l for n, l, k, p in view.locs("sym", BYTES)]
        outs = [l for n, l, k, p in view.locs(("list", "state"), BYTES)]
        for i in ints:
            for b in byt:
                for o in outs:
                    at = lambda i=i: vm.term(view.get(i), INT) - 1
                    yield "the position is in the file", lambda g, at=at: z3.And(at() >= 0, at() <= z3.Length(ls))
                    yield "the line is the one at the position", lambda g, at=at, b=b: vm.term(view.get(b), BYTES) == z3.If(at() < z3.Length(ls), ls[at()], z3.StringVal(""))
                    yield "the lines before the position were given out", lambda g, at=at, o=o: vm.seq_term(view.get(o), BYTES) == z3.Extract(ls, 0, at())

    vm.loop_templates = [tpl]
    vm.every(ls, lambda l: z3.Length(l) > 0)
    if vm.branch(z3.Length(t) > 0):
        n = vm.fresh("any_line", z3.IntSort())
        vm.assume(z3.ForAll([n], z3.Implies(z3.And(n >= 0, n < z3.Length(ls)), z3.Length(ls[n]) > 0)))
    r = vm.call(vm.getattr(disk_object(vm, t), "_read_file"), [], {})
    vm.prove("every line of the file, in order", items_of(vm, r, BYTES) == ls)


def file_lines(vm, t):
    vm.contracts[DISK + "._read_file"] = lambda vm, c, a, k: PyIter(("seq", BYTES, lines(vm, t)))
    vm.assumptions.add("a JSON text followed by a newline reads as the JSON text's value")
    x = z3.Const("fl_x", S)

    def loads(vm, a, k):
        return Sym(VAL, LOAD(vm.term(a[0], BYTES)))

    vm.models["orjson.loads"] = loads
    vm.every(t, lambda x: LOAD(line(x)) == x)


@spec(DISK + ".__iter__")
def disk_iterate(vm):
    t = records(vm)
    file_lines(vm, t)
    o = disk_object(vm, t)
    for attempt in ("first", "second"):
        r = vm.call(vm.getattr(o, "__iter__"), [], {})
        vm.prove(f"iterates over the records, in order ({attempt} time)", items_of(vm, r) == t)
    vm.prove("its length is the number of records", vm.num(vm.call(vm.getattr(o, "__len__"), [], {}), INT) == z3.Length(t))
