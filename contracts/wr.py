"""Shared by the writer contracts."""
from pyvc.spec import *

BLOB = "mabel.data.writers.internals.blob_writer.BlobWriter"
MINI = ufun("mini", V, S)
FLAT = ufun("flatten", V, V)


def inner(vm, g):
    """an inner writer: commit stores the bytes, or raises and stores nothing"""

    def commit(vm, s, a, k):
        data = k.get("byte_data", a[0] if a else None)
        name = k.get("override_blob_name", a[1] if len(a) > 1 else None)
        if vm.choose("the store refuses"):
            raise any_exception("refused")
        vm.append(g, (data, name))
        return sstr(vm, "blob_name")

    vm.models["method:inner.commit"] = commit
    # a file in a folder (C07's contract of the inner writer's constructor)
    f, sl = sstr(vm, "filename"), z3.StringVal("/")
    d, e = ufun("before_last", S, S, S)(f.t, sl), ufun("after_last", S, S, S)(f.t, sl)
    vm.assume(z3.And(f.t == z3.Concat(d, sl, e), z3.Not(z3.Contains(e, sl)), d != z3.StringVal(""), z3.Not(z3.SuffixOf(sl, d)), z3.Not(z3.Contains(f.t, z3.StringVal("//"))), DIRNAME(f.t) == d))
    return PyObj(External("inner"), {"filename": f})


def ghost():
    return PyList(("items", ()))


def blob_writer(vm, fmt, g):
    """a blob writer in any state that its representation invariant allows"""
    b = PyObj(fn(vm, BLOB))
    n = sint(vm, "records_in_buffer", 0)
    st = {"format": fmt, "maximum_blob_size": sint(vm, "maximum_blob_size", 0), "inner_writer": inner(vm, g), "records_in_buffer": n,
          "manifest": PyDict(())}
    if fmt == "parquet":
        rows = vm.fresh("rows", SV)
        st["wal"] = PyObj(External("orso.DataFrame"), {"rows": seqv(rows)})
        st["schema"] = PyObj(External("schema"), {}) if vm.choose("schema") else False
        vm.assume(z3.Length(rows) == n.t)
    else:
        buf = vm.fresh("buffer", S)
        st["buffer"] = PyObj(External("bytearray"), {"data": Sym(BYTES, buf)})
        st["schema"] = PyObj(External("schema"), {}) if vm.choose("schema") else False
        st["byte_count"] = sint(vm, "byte_count")
        vm.assume((n.t == 0) == (z3.Length(buf) == 0))
    b.state = st
    vm.contracts[BLOB + "._normalize_arrow_schema"] = lambda vm, c, a, k: a[1]
    vm.models["attrof.mini"] = lambda vm, o: Sym(BYTES, MINI(o.t))
    vm.contracts["mabel.data.internals.records.flatten"] = lambda vm, c, a, k: Sym(VAL, FLAT(vm.to_V(a[0])))
    return b


def pending(vm, b):
    """the records not stored yet, as one sequence"""
    if b.state["format"] == "parquet":
        return df_rows(vm, b.state["wal"])
    return vm.term(bytes_of(vm, b.state["buffer"]), BYTES)


def held(vm, fmt, data):
    """what a blob holds"""
    if fmt == "parquet":
        t = z3.simplify(vm.term(data, BYTES))
        if z3.is_app(t) and t.decl().name() == "parquet":
            return t.arg(0)
        return ufun("parquet_rows", S, SV)(t)
    t = vm.term(bytes_of(vm, data), BYTES)
    if fmt == "zstd":
        t = z3.simplify(t)
        return t.arg(0) if z3.is_app(t) and t.decl().name() == "zstd" else ufun("unzstd", S, S)(t)
    return t


def stored(vm, fmt, g):
    return [held(vm, fmt, x[0]) for x in g.state[1]]


def line(vm, fmt, r):
    """the specification of how a record is laid out (r: boxed value)"""
    nl = z3.StringVal("\n")
    t = vm.to_V(r)
    utf = ufun("utf8", S, S)
    orj = lambda x: ORJ(x, z3.Select(vm.DICT, x), z3.Select(vm.HAS, x))
    ok = lambda x: ORJ_OK(x, z3.Select(vm.DICT, x), z3.Select(vm.HAS, x))
    if fmt == "text":
        return z3.Concat(z3.If(V.is_bytes(t), V.y(t), utf(z3.If(V.is_str(t), V.s(t), vm.term(vm.str_(r), STR)))), nl)
    if fmt == "flat":
        return z3.Concat(orj(FLAT(t)), nl)
    mini = z3.And(V.is_obj(t), ufun("hasattr_mini", V, z3.BoolSort())(t))
    return z3.Concat(z3.If(mini, MINI(t), z3.If(ok(t), orj(t), utf(JDUMPS(t, z3.Select(vm.DICT, t), z3.Select(vm.HAS, t))))), nl)
