"""C07: writers and readers derive the same location from the same dataset and date."""
from pyvc.spec import *

SPECS, spec = registry()
PT = "mabel.utils.paths."
WR = "mabel.data.writers.writer.Writer"
BW = "mabel.data.writers.batch_writer.BatchWriter"
IW = "mabel.data.writers.internals.base_inner_writer.BaseInnerWriter"
RD = "mabel.data.readers.internals.base_inner_reader.BaseInnerReader"
BLOB = "mabel.data.writers.internals.blob_writer.BlobWriter"
PARTS = ("year", "month", "day", "hour", "minute", "second")
LOCATION = ufun("location", STR.sort, STR.sort)
JOINED = ufun("joined", SS := z3.SeqSort(STR.sort), STR.sort)


def templates(vm):
    """a path with placeholders: what was replaced so far, by what (numbers have no braces, so the order does not matter)"""
    vm.assumptions.add("str.replace replaces every occurrence of a placeholder; the decimal text of a number holds no brace, so replacing one placeholder makes no other")

    def replace(vm, s, a, k):
        if not isinstance(a[0], str) or not (a[0].startswith("{") and a[0].endswith("}")) or set("{}") & set(a[0][1:-1]) or not a[0][1:-1]:
            raise Unsupported("something other than a placeholder is replaced")
        done = s.state["done"]
        if a[0] in [d[0] for d in done]:
            return s
        return PyObj(External("template"), {**s.state, "done": done + ((a[0], a[1]),)})

    vm.models["method:template.replace"] = replace
    vm.models["str:template"] = lambda vm, s: s
    vm.models["truth:template"] = lambda vm, s: True


def a_date(vm, q="date"):
    d = {p: sint(vm, p, 0) for p in PARTS}
    vm.models[f"method:{q}.timetuple"] = lambda vm, s, a, k: tuple(s.state[p] for p in PARTS) + (1, 2, 3)
    vm.models[f"truth:{q}"] = lambda vm, s: True
    return PyObj(External(q), d)


@spec(PT + "date_format")
def date_format(vm):
    templates(vm)
    date, now = a_date(vm), a_date(vm, "moment")
    vm.models["datetime.datetime.utcnow"] = vm.models["datetime.datetime.now"] = lambda vm, a, k: now
    vm.models["datetime.datetime"] = lambda vm, a, k: PyObj(External("date"), dict(zip(PARTS, a)))
    given = vm.choose("a date is given")
    t = PyObj(External("template"), {"done": ()})
    kind, r = outcome(vm, fn(vm, PT + "date_format"), t, date if given else None)
    vm.prove("a path is made", kind == "ok")
    if kind != "ok":
        return
    done = dict(r.state["done"])
    d = (date if given else now).state
    two = lambda x: z3.If(z3.And(x >= 0, x < 10), z3.Concat(z3.StringVal("0"), z3.IntToStr(x)), z3.IntToStr(x))
    want = {"{yyyy}": z3.IntToStr(d["year"].t), "{mm}": two(d["month"].t), "{dd}": two(d["day"].t), "{HH}": two(d["hour"].t), "{MM}": two(d["minute"].t), "{SS}": two(d["second"].t)}
    vm.prove("the placeholders of dates are replaced, and nothing else", set(done) == set(want))
    for k, w in want.items():
        if k in done:
            vm.prove(f"{k} is replaced by that part of the date", vm.term(done[k], STR) == w)


@spec(PT + "build_path")
def build_path(vm):
    templates(vm)
    t = PyObj(External("template"), {"done": ()})
    folder = vm.choose("a folder")
    vm.models["getitem:template"] = lambda vm, s, i: "/" if folder else "x"
    parts = (sstr(vm, "bucket"), sstr(vm, "path"), sstr(vm, "stem"), sstr(vm, "extension"))
    vm.contracts[PT + "get_parts"] = lambda vm, c, a, k: parts
    date, asked = PyObj(External("date"), {}), []

    def fmt(vm, c, a, k):
        asked.append((a[0], a[1]))
        return PyObj(External("template"), {"done": (("date", ""),)})

    vm.contracts[PT + "date_format"] = fmt
    vm.contracts["mabel.utils.entropy.random_string"] = lambda vm, c, a, k: sstr(vm, "random")
    kind, r = outcome(vm, fn(vm, PT + "build_path"), t, date)
    vm.prove("a path is made", kind == "ok")
    if kind != "ok":
        return
    vm.prove("the date is the one given", len(asked) == 1 and asked[0][1] is date)
    if folder:
        vm.prove("a folder is formatted as it is", asked[0][0] is t)
    else:
        got = vm.term(asked[0][0], STR)
        vm.prove("the folder of a blob is formatted", got == z3.If(parts[1].t != z3.StringVal("/"), z3.Concat(parts[0].t, z3.StringVal("/"), parts[1].t), parts[1].t))
    vm.prove("nothing but a stem is replaced in what was formatted", all(d[0] in ("date", "{stem}") for d in r.state["done"]))


@spec(PT + "get_parts")
def get_parts(vm):
    """a path of any number of components is split into its first, those between, and the stem and suffix of the last"""
    parts = vm.fresh("components", SS)
    n = z3.Length(parts)
    vm.assume(n >= 1)
    vm.every(parts, lambda p: z3.Length(p) > 0)
    stem, suffix, path = sstr(vm, "stem"), sstr(vm, "suffix"), sstr(vm, "path")
    vm.assume(z3.And(z3.Length(path.t) > 0, parts[n - 1] == z3.Concat(stem.t, suffix.t)))
    vm.assume(z3.Implies(z3.Length(suffix.t) == 0, parts[n - 1] == stem.t))
    vm.assumptions.add("PurePosixPath: parts are the components, name == stem + suffix; the path of no text is '.'; p / q joins them with a slash")
    EMPTY = z3.StringVal(".")

    def pure(vm, a, k):
        if isinstance(a[0], Sym) and a[0].t.eq(path.t):
            return PyObj(External("whole"), {"parts": PyList(("seq", STR, parts)), "suffix": suffix, "stem": stem})
        t = vm.term(a[0], STR)
        return PyObj(External("between"), {"text": z3.If(z3.Length(t) == 0, EMPTY, t)})

    vm.models["pathlib.PurePosixPath"] = pure
    vm.models["str:between"] = lambda vm, s: Sym(STR, s.state["text"])
    div = lambda vm, a, b: PyObj(External("between"), {"text": z3.If(a.state["text"] == EMPTY, vm.term(b, STR), z3.Concat(a.state["text"], z3.StringVal("/"), vm.term(b, STR)))})
    vm.models["op:between.Div"] = div

    def join(vm, s, a, k):
        t = JOINED(vm.seq_term(vm.iter_state(a[0]), STR))
        # components without text there are none
        vm.assume((z3.Length(t) == 0) == (z3.Length(vm.seq_term(vm.iter_state(a[0]), STR)) == 0))
        vm.assume(t != EMPTY)
        return Sym(STR, t)

    vm.models["str.join"] = join
    kind, r = outcome(vm, fn(vm, PT + "get_parts"), path)
    vm.prove("a path is split", kind == "ok")
    if kind != "ok":
        return
    bucket, folder, s, e = r
    t = lambda v: vm.term(v, STR)
    vm.prove("the bucket is the first component", t(bucket) == parts[0])
    if not vm.branch(n > 1):
        vm.prove("a path of one component has no blob", s is None and e is None)
        return
    mid = z3.Extract(parts, 1, n - 2)
    between = z3.If(n == 2, EMPTY, JOINED(mid))
    slash = z3.StringVal("/")
    if vm.branch(z3.Length(suffix.t) == 0):
        vm.prove("a path without an extension is a folder", s is None and e is None)
        vm.prove("the folder has the components after the first", t(folder) == z3.Concat(z3.If(n == 2, stem.t, z3.Concat(between, slash, stem.t)), slash))
    else:
        vm.prove("the folder has the components between the first and the last", t(folder) == z3.Concat(between, slash))
        vm.prove("stem and extension make the last component", z3.Concat(t(s), t(e)) == parts[n - 1])


SLASH = z3.StringVal("/")


def folder_of(dataset, partitions, n):
    """the specification: the folder of a dataset is its name and its partition pattern"""
    return z3.If(n > 0, z3.Concat(dataset, SLASH, JOINED(partitions), SLASH), z3.Concat(dataset, SLASH))


def a_dataset(vm):
    """a dataset name and a pattern of partitions (none, or any number of them)"""
    ds = sstr(vm, "dataset")
    vm.assume(z3.And(z3.Length(ds.t) > 0, z3.Not(z3.SuffixOf(SLASH, ds.t)), z3.Not(z3.Contains(ds.t, z3.StringVal("{date")))))
    ps = vm.fresh("partitions", SS)
    vm.models["str.join"] = lambda vm, s, a, k: (vm.prove("partitions are joined by slashes", vm.term(s, STR) == SLASH), Sym(STR, JOINED(vm.seq_term(vm.iter_state(a[0]), STR))))[1]
    given = vm.choose("partitions")
    if given:
        vm.assume(z3.Length(ps) > 0)
    return ds, (PyList(("seq", STR, ps)) if given else None), (folder_of(ds.t, ps, z3.IntVal(1 if given else 0)))


def writer_models(vm):
    asked, made = [], []

    def build(vm, c, a, k):
        path, date = (a + [k.get("date")])[:2] if a else (k["path"], k["date"])
        asked.append((vm.term(path, STR), date))
        return Sym(STR, LOCATION(vm.term(path, STR)))

    def blob_writer(vm, c, a, k):
        made.append(k)
        return PyObj(External("blob_writer"), {})

    vm.contracts[PT + "build_path"] = build
    vm.contracts[BLOB] = blob_writer
    vm.contracts["mabel.data.validator.schema_loader"] = lambda vm, c, a, k: a[0]
    vm.models["orjson.dumps"] = lambda vm, a, k: b""
    vm.models["str.upper"] = lambda vm, s, a, k: s
    return asked, made


@spec(WR + ".__init__")
def writer(vm):
    asked, made = writer_models(vm)
    ds, ps, folder = a_dataset(vm)
    date = PyObj(External("date"), {})
    vm.contracts[WR + "._get_writer_date"] = lambda vm, c, a, k: (vm.prove("the date is the one given", a[1] is date), date)[1]
    kind, w = outcome(vm, fn(vm, WR), schema=PyObj(External("schema"), {}), date=date, partitions=ps, dataset=ds, format="jsonl")
    vm.prove("a writer is made", kind == "ok")
    if kind != "ok":
        return
    vm.prove("one folder is made, of the writer's date", len(asked) == 1 and asked[0][1] is date)
    vm.prove("of the dataset and its partitions", asked[0][0] == folder)
    vm.prove("blobs are written to that folder", len(made) == 1 and z3.simplify(vm.term(made[0]["dataset"], STR) == LOCATION(folder)))


@spec(BW + ".__init__")
def batch_writer(vm):
    asked, made = writer_models(vm)
    ds, ps, folder = a_dataset(vm)
    date = PyObj(External("date"), {})
    stamp = sstr(vm, "as_at")
    vm.contracts[WR + "._get_writer_date"] = lambda vm, c, a, k: (vm.prove("the date is the one given", a[1] is date), date)[1]
    vm.models["datetime.datetime.utcnow"] = lambda vm, a, k: PyObj(External("moment"), {})
    vm.models["method:moment.strftime"] = lambda vm, s, a, k: (vm.prove("a frame is named by its time", a[0] == "as_at_%Y%m%d-%H%M%S"), stamp)[1]
    vm.contracts[WR + ".__init__"] = lambda vm, c, a, k: vm.setattr(a[0], "schema", False)
    kind, w = outcome(vm, fn(vm, BW), schema=PyObj(External("schema"), {}), date=date, partitions=ps, dataset=ds, format="jsonl")
    vm.prove("a writer is made", kind == "ok")
    if kind != "ok":
        return
    vm.prove("one folder is made, of the writer's date", len(asked) == 1 and asked[0][1] is date)
    vm.prove("of the dataset, its partitions and the frame", asked[0][0] == z3.Concat(folder, stamp.t))
    vm.prove("blobs are written to that folder", len(made) == 1 and z3.simplify(vm.term(made[0]["dataset"], STR) == LOCATION(z3.Concat(folder, stamp.t))))


@spec(RD + ".__init__, get_list_of_blobs")
def reader(vm):
    asked, made = writer_models(vm)
    ds, ps, folder = a_dataset(vm)
    hour, looked = PyObj(External("date"), {}), []
    vm.models["truth:date"] = lambda vm, o: True
    vm.models["order:date"] = lambda vm, f, a, b: False
    vm.models["eq:date"] = lambda vm, a, b: a is b
    vm.models["datetime.datetime.utcnow"] = lambda vm, a, k: PyObj(External("moment"), {})
    vm.models["method:moment.replace"] = lambda vm, s, a, k: s
    vm.contracts["mabel.utils.dates.parse_iso"] = lambda vm, c, a, k: a[0]
    vm.contracts["mabel.utils.dates.date_range"] = lambda vm, c, a, k: PyList(("items", (hour,)))
    vm.models["pathlib.Path"] = lambda vm, a, k: PyObj(External("Path"), {"of": a[0]})
    vm.models["eq:Path"] = lambda vm, a, b: vm.eq_term(a.state["of"], b.state["of"])

    def blobs(vm, c, a, k):
        looked.append(k["path"] if "path" in k else a[1])
        return PyList(("items", ()))

    vm.contracts[RD + ".get_blobs_at_path"] = blobs
    slash = vm.choose("the name ends with a slash")
    name = Sym(STR, z3.Concat(ds.t, SLASH)) if slash else ds
    kind, r = outcome(vm, fn(vm, RD), dataset=name, partitions=ps, start_date=hour, end_date=hour)
    vm.prove("a reader is made", kind == "ok")
    if kind != "ok":
        return
    kind, b = outcome(vm, vm.getattr(r, "get_list_of_blobs"))
    vm.prove("it lists its blobs", kind == "ok")
    vm.prove("one folder is looked in, of the hour asked for", len(looked) == 1 and len(asked) == 1 and asked[0][1] is hour)
    vm.prove("that of the dataset and its partitions", asked[0][0] == folder)
    at = looked[0].state["of"] if isinstance(looked[0], PyObj) else looked[0]
    vm.prove("the writer's folder is the one looked in", vm.term(at, STR) == LOCATION(folder))


@spec(IW + ".__init__, _build_path")
def inner_writer(vm):
    """a blob's name is its folder, a name of its own and the extension"""
    templates(vm)
    ds = sstr(vm, "dataset")
    vm.assume(z3.Length(ds.t) > 0)
    bucket, path = sstr(vm, "bucket"), sstr(vm, "path")
    seen = []

    def parts(vm, c, a, k):
        seen.append(vm.term(a[0], STR))
        return bucket, path, "{stem}", ".jsonl"

    vm.contracts[PT + "get_parts"] = parts
    fmt = ["jsonl", "parquet", "zstd", "text"][pick(vm, "format", 4)]
    ext = {"jsonl": ".jsonl", "parquet": ".jsonl.parquet", "zstd": ".jsonl.zstd", "text": ".txt"}[fmt]
    kind, w = outcome(vm, fn(vm, IW), dataset=ds, format=fmt)
    vm.prove("an inner writer is made", kind == "ok")
    if kind != "ok":
        return
    vm.prove("the dataset is a folder", seen[0] == z3.Concat(ds.t, z3.StringVal("/{stem}.jsonl")))
    b = z3.If(bucket.t == SLASH, z3.StringVal(""), bucket.t)
    p = z3.If(path.t == z3.StringVal("./"), z3.StringVal(""), path.t)
    vm.prove("a blob is named by its folder, its stem and its extension", vm.term(w.state["filename"], STR) == z3.Concat(b, SLASH, p, z3.StringVal("{stem}" + ext)))
    vm.prove("and in its bucket by the same", vm.term(w.state["filename_without_bucket"], STR) == z3.Concat(p, z3.StringVal("{stem}" + ext)))
