"""C12: stored records read back unchanged from every format and compression."""
from pyvc.spec import *

SPECS, spec = registry()
DE = "mabel.data.readers.internals.decompressors."
PR = "mabel.data.readers.internals.parallel_reader."
PA = "mabel.data.readers.internals.parsers."
PARSE = ufun("parsed", S, V)
DECODED = ufun("decoded_by", V, V, SV)
PARSED = ufun("parsed_by", V, V, V)
KNOWN = ufun("is_a_known_extension", S, z3.BoolSort())
NL = z3.StringVal("\n")


def blob_of_lines(vm):
    """a blob of any number of lines, the last of them with or without its end; what reading, splitting and iterating it give"""
    lines = vm.fresh("lines", SSEQ)
    ended = vm.choose("the last line has an end")
    content = vm.fresh("content", S)
    vm.every(lines, lambda x: z3.And(z3.Not(z3.Contains(x, NL)), z3.Length(x) > 0, PARSE(z3.Concat(x, NL)) == PARSE(x)))
    vm.assumptions.add("a blob of lines is its lines joined by newlines, perhaps with one more; split gives the lines (and an empty one after a last newline), "
                       "splitlines the lines, and iterating the open file the lines with their newlines; a line of JSON has no newline in it and parses the same with one after it")
    if not ended:
        vm.assume(z3.Length(lines) > 0)
    empty_line = z3.Unit(z3.StringVal(""))
    if ended and vm.branch(z3.Length(lines) == 0):
        split = empty_line
    else:
        split = z3.Concat(lines, empty_line) if ended else lines
    if ended:
        iterated = mapped(vm, lines, lambda x: z3.Unit(z3.Concat(x, NL)))
    else:
        n = z3.Length(lines) - 1
        init, last = vm.fresh("init", SSEQ), vm.fresh("last", S)
        vm.assume(lines == z3.Concat(init, z3.Unit(last)))
        iterated = z3.Concat(mapped(vm, init, lambda x: z3.Unit(z3.Concat(x, NL))), z3.Unit(last))
        split = lines = z3.Concat(init, z3.Unit(last))
        vm.every(init, lambda x: z3.And(z3.Not(z3.Contains(x, NL)), z3.Length(x) > 0, PARSE(z3.Concat(x, NL)) == PARSE(x)))
        vm.assume(z3.Length(last) > 0)

    def is_content(s):
        if not (isinstance(s, Sym) and s.t.eq(content)):
            raise Unsupported("something other than the blob is split")

    def splits(vm, s, a, k):
        is_content(s)
        if len(a) != 1 or a[0] not in (b"\n", "\n"):
            raise Unsupported("the blob is split by something else")
        return PyList(("seq", BYTES, split))

    def splitlines(vm, s, a, k):
        is_content(s)
        if a or k:
            raise Unsupported("splitlines with options")
        return PyList(("seq", BYTES, lines))

    vm.models["bytes.split"] = splits
    vm.models["bytes.splitlines"] = splitlines
    vm.models["method:stream.read"] = lambda vm, s, a, k: Sym(BYTES, content)
    vm.models["method:stream.__enter__"] = lambda vm, s, a, k: s
    vm.models["method:stream.__exit__"] = lambda vm, s, a, k: None
    vm.models["method:stream.readlines"] = lambda vm, s, a, k: PyList(("seq", BYTES, iterated))
    vm.models["iter:stream"] = lambda vm, s: ("seq", BYTES, iterated)
    return lines, PyObj(External("stream"), {"raw": False})


def opened(vm, names, stream, raw):
    def open_(vm, a, k):
        vm.prove("the blob is what is opened", a[0] is raw)
        return stream

    for n in names:
        vm.models[n] = open_


def same_lines(vm, result, lines):
    """as parsed, they are the lines, in order"""
    got = items_of(vm, result, BYTES)
    p = lambda t: mapped(vm, t, lambda x: z3.Unit(PARSE(x)))
    vm.prove("each line of the blob is given once, in order", p(got) == p(lines))


@spec(DE + "zstd")
def zstd(vm):
    lines, stream = blob_of_lines(vm)
    raw = PyObj(External("blob"), {})
    opened(vm, ["zstandard.open"], stream, raw)
    same_lines(vm, vm.call(fn(vm, DE + "zstd"), [raw], {}), lines)


@spec(DE + "lzma")
def lzma(vm):
    lines, stream = blob_of_lines(vm)
    raw = PyObj(External("blob"), {})
    opened(vm, ["lzma.open"], stream, raw)
    same_lines(vm, vm.call(fn(vm, DE + "lzma"), [raw], {}), lines)


@spec(DE + "lines")
def lines_(vm):
    lines, stream = blob_of_lines(vm)
    same_lines(vm, vm.call(fn(vm, DE + "lines"), [stream], {}), lines)


@spec(DE + "csv")
def csv(vm):
    """the records of a csv blob are those of csv.DictReader of its text, its newlines left as they are"""
    raw = vm.fresh("raw", S)
    ROWS, TXT = ufun("csv_rows", S, SV), ufun("utf8_decode", S, S)
    vm.assumptions.add("csv.DictReader gives the records of a text whose newlines are not translated (newline is empty or \\n); anything else may change newlines within values")
    vm.models["method:stream.read"] = lambda vm, s, a, k: Sym(BYTES, raw)

    def text(vm, a, k):
        nl = k.get("newline", a[1] if len(a) > 1 else "\n")
        return PyObj(External("text"), {"text": a[0], "kept": nl in ("", "\n")})

    def rows(vm, a, k):
        if len(a) != 1 or k:
            raise Unsupported("a csv reader with options")
        if not isinstance(a[0], PyObj) or getattr(a[0].cls, "q", "") != "text":
            raise Unsupported("a csv reader of something else")
        vm.prove("newlines within values are kept", a[0].state["kept"])
        return PyList(("seq", VAL, ROWS(vm.term(a[0].state["text"], STR))))

    vm.models["io.StringIO"] = text
    vm.models["csv.DictReader"] = rows
    r = vm.call(fn(vm, DE + "csv"), [PyObj(External("stream"), {})], {})
    vm.prove("each record is given once, in order", items_of(vm, r, VAL) == ROWS(TXT(raw)))


@spec(DE + "parquet")
def parquet(vm):
    rows = vm.fresh("rows", SV)
    raw = PyObj(External("stream"), {})
    vm.assumptions.add("pyarrow.parquet.read_table(...).to_pylist() gives the records of a parquet blob")

    def table(vm, a, k):
        vm.prove("all of the blob is read", a[0] is raw and len(a) == 1 and not k)
        return PyObj(External("table"), {})

    vm.models["pyarrow.parquet.read_table"] = table
    vm.models["method:table.to_pylist"] = lambda vm, s, a, k: PyList(("seq", VAL, rows))
    r = vm.call(fn(vm, DE + "parquet"), [raw], {})
    vm.prove("each record is given once, in order", items_of(vm, r, VAL) == rows)


def any_table(vm):
    """an arbitrary table of extensions: what each decompressor and parser gives is a function of its argument"""
    PRM = PR[:-1]
    vm.tree(PRM)
    fails = []

    def entry(vm, s, a):
        x = vm.term(a, STR) if not isinstance(a, str) else z3.StringVal(a)
        e = V.str(x)

        def decode(vm, data):
            if fails and vm.choose("the blob cannot be decoded"):
                raise PyExc(ValueError, ("not readable",))
            return seqv(DECODED(e, data.state["of"] if isinstance(data, PyObj) else vm.to_V(data)))

        return (py(decode), py(lambda vm, line: Sym(VAL, PARSED(e, vm.to_V(line)))), "DATA")

    vm.models["contains:extensions"] = lambda vm, s, a: KNOWN(vm.term(a, STR))
    vm.models["getitem:extensions"] = entry

    def get(vm, s, a, k):
        if vm.branch(KNOWN(vm.term(a[0], STR))):
            return entry(vm, s, a[0])
        return a[1] if len(a) > 1 else None

    vm.models["method:extensions.get"] = get
    vm.module_get(PRM, "KNOWN_EXTENSIONS")
    vm.setvar(vm.module_frame(PRM), "KNOWN_EXTENSIONS", PyObj(External("extensions"), {}))
    return fails


EXT = ufun("extension", S, S)
DATA_OF = ufun("data_of", S, V)


@spec(DE + "unzip", budget=150)
def unzip(vm):
    """the records of an archive are those of each of its readable files, in order"""
    any_table(vm)
    names = vm.fresh("names", SSEQ)
    raw = PyObj(External("blob"), {})
    archive = PyObj(External("archive"), {})

    def opened(vm, a, k):
        vm.prove("the blob is what is opened", a[0] is raw)
        return archive

    vm.models["zipfile.ZipFile"] = opened
    vm.models["method:archive.__enter__"] = lambda vm, s, a, k: s
    vm.models["method:archive.__exit__"] = lambda vm, s, a, k: None
    vm.models["method:archive.namelist"] = lambda vm, s, a, k: seqv(names, STR)
    vm.models["zipfile.ZipFile.namelist"] = lambda vm, a, k: seqv(names, STR)
    vm.models["method:archive.read"] = lambda vm, s, a, k: Sym(VAL, DATA_OF(vm.term(a[0], STR)))
    vm.models["io.BytesIO"] = lambda vm, a, k: PyObj(External("data"), {"of": vm.to_V(a[0])})
    LAST = ufun("after_the_last_dot", S, S)

    def split(vm, s, a, k):
        if a[0] != ".":
            raise Unsupported("a name is split by something else")
        return PyObj(External("pieces"), {"of": vm.term(s, STR)})

    def piece(vm, s, i):
        if i != -1:
            raise Unsupported("another piece of a name")
        return Sym(STR, LAST(s.state["of"]))

    vm.models["str.split"] = vm.models["str.rsplit"] = split
    vm.models["getitem:pieces"] = piece
    r = vm.call(fn(vm, DE + "unzip"), [raw], {})
    ext = lambda n: z3.Concat(z3.StringVal("."), LAST(n))
    one = lambda n: mapped(vm, DECODED(V.str(ext(n)), DATA_OF(n)), lambda x: z3.Unit(PARSED(V.str(ext(n)), x)))
    want = mapped(vm, names, lambda n: z3.If(KNOWN(ext(n)), one(n), empty(SV)))
    vm.prove("the records of each readable file are given once, in order", items_of(vm, r, VAL) == want)


@spec(PR + "ParallelReader.__call__", budget=150)
def read(vm):
    """what a blob gives is what its decoder gives, parsed, selected from and filtered, in order; one that cannot be decoded gives no error"""
    fails = any_table(vm)
    SEL, KEEP = ufun("selected", V, V), ufun("kept", V, z3.BoolSort())
    name = sstr(vm, "blob")
    ext = EXT(name.t)
    vm.contracts["mabel.utils.paths.get_parts"] = lambda vm, c, a, k: (sstr(vm, "bucket"), sstr(vm, "path"), sstr(vm, "stem"), Sym(STR, EXT(vm.term(a[0], STR))))
    broken = vm.choose("the blob may not be readable")
    asked = []

    def read_blob(vm, s, a, k):
        asked.append(vm.term(a[0], STR))
        if broken and vm.choose("it is not there"):
            raise PyExc(OSError, ("missing",))
        return Sym(VAL, DATA_OF(vm.term(a[0], STR)))

    if broken:
        fails.append(1)
    vm.models["method:storage.read_blob"] = read_blob
    storage = PyObj(External("storage"), {})
    chosen = vm.choose("a format is given")
    kw = {"columns": py(lambda vm, x: Sym(VAL, SEL(vm.to_V(x)))), "filters": py(lambda vm, x: Sym(BOOL, KEEP(vm.to_V(x))))}
    if vm.choose("no selection"):
        kw["columns"] = vm.module_get(PR[:-1], "pass_thru")
        sel = lambda x: x
    else:
        sel = SEL
    if vm.choose("no filter"):
        del kw["filters"]
        keep = lambda x: z3.BoolVal(True)
    else:
        keep = KEEP
    if chosen:
        form = "jsonl" if vm.choose("no dot") else ".jsonl"
        kw["override_format"] = form
        ext = z3.StringVal(".jsonl")
    pr = vm.call(fn(vm, PR + "ParallelReader"), [storage], kw)
    kind, r = outcome(vm, py(lambda vm: seqv(items_of(vm, vm.call(pr, [name, PyList(("items", ()))], {}), VAL))))
    vm.prove("a blob that cannot be read is no reason to stop", kind == "ok")
    if kind != "ok":
        return
    got = items_of(vm, r, VAL)
    parsed = mapped(vm, DECODED(V.str(ext), DATA_OF(name.t)), lambda x: z3.Unit(sel(PARSED(V.str(ext), x))))
    want = filt(vm, parsed, keep)
    if broken:
        vm.prove("nothing other than its records is given", z3.Or(got == want, z3.Length(got) == 0))
    else:
        vm.prove("each record is selected from and kept when it passes the filter, in order", got == z3.If(KNOWN(ext), want, empty(SV)))
    for a in asked:
        vm.prove("the blob is what is read", a == name.t)


@spec(PR + "KNOWN_EXTENSIONS", name="formats")
def formats(vm):
    """each supported extension has its decoder"""
    table = vm.module_get(PR[:-1], "KNOWN_EXTENSIONS")
    vm.models["orjson.loads"] = lambda vm, a, k: Sym(VAL, PARSE(vm.term(a[0], BYTES)))
    for e, how, parse in ((".jsonl", "lines", True), (".zstd", "zstd", True), (".lzma", "lzma", True), (".parquet", "parquet", False), (".csv", "csv", False), (".zip", "unzip", False)):
        d, p = (vm.getitem(vm.getitem(table, e), i) for i in (0, 1))
        called = []
        vm.contracts[DE + how] = lambda vm, c, a, k: called.append(a[0]) or PyList(("items", ()))
        stream = PyObj(External("stream"), {})
        vm.call(d, [stream], {})
        vm.prove(f"{e} blobs are decoded by {how}", called == [stream])
        x = vm.fresh("line", S) if parse else vm.fresh("row", V)
        got = vm.to_V(vm.call(p, [Sym(BYTES if parse else VAL, x)], {}))
        vm.prove(f"{e} records are parsed" if parse else f"{e} records are given as they are", got == (PARSE(x) if parse else x))
        t = vm.getitem(vm.getitem(table, e), 2)
        vm.prove(f"{e} blobs are data", t is vm.getattr(fn(vm, PR + "EXTENSION_TYPE"), "DATA"))
