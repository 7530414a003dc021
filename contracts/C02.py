"""C02: every accepted record is stored once and in order.

The abstract state of a blob writer is the concatenation of what the stored blobs hold and
of what is pending; appending adds the record's layout at its end, committing changes
nothing of it, and a refusal by the store changes nothing of it either.
"""
from contracts.wr import *

SPECS, spec = registry()


def total(vm, b, fmt, g):
    return concat(*stored(vm, fmt, g), pending(vm, b), )


def eqs(a, b):
    return a == b


def check_append(vm, fmt):
    g = ghost()
    b = blob_writer(vm, fmt, g)
    r = sval(vm, "record")
    if fmt != "text":
        vm.assume(z3.And(V.is_obj(r.t), ISDICT(r.t)))
    before, size = pending(vm, b), b.state["maximum_blob_size"].t
    ln = z3.Unit(r.t) if fmt == "parquet" else line(vm, fmt, r)
    kind, v = outcome(vm, vm.getattr(b, "arrow_append" if fmt == "parquet" else "text_append"), r)
    after = total(vm, b, fmt, g)
    if kind == "ok":
        vm.prove("an accepted record is added once, at the end", after == z3.Concat(before, ln))
    else:
        vm.prove("a refusal loses and repeats nothing", z3.Or(after == before, after == z3.Concat(before, ln)))
    n = vm.num(b.state["records_in_buffer"], INT)
    p = pending(vm, b)
    vm.prove("the count is 0 exactly when nothing is pending", z3.And(n >= 0, (n == 0) == (z3.Length(p) == 0)))
    for h in stored(vm, fmt, g):
        vm.prove("no empty blob is stored", z3.Length(h) > 0)
        vm.prove("a blob closed by an append exceeds the limit", (NBYTES(h) if fmt == "parquet" else z3.Length(h)) > size)


def check_commit(vm, fmt):
    g = ghost()
    b = blob_writer(vm, fmt, g)
    before = pending(vm, b)
    n0 = b.state["records_in_buffer"].t
    kind, v = outcome(vm, vm.getattr(b, "commit"))
    after, p = total(vm, b, fmt, g), pending(vm, b)
    n = vm.num(b.state["records_in_buffer"], INT)
    vm.prove("committing loses and repeats nothing", after == before)
    vm.prove("the count is 0 exactly when nothing is pending", z3.And(n >= 0, (n == 0) == (z3.Length(p) == 0)))
    if kind == "ok":
        vm.prove("nothing is pending after a commit that returns", z3.And(z3.Length(p) == 0, n == 0))
    else:
        vm.prove("what was refused stays pending", z3.And(p == before, n == n0))
    for h in stored(vm, fmt, g):
        vm.prove("no empty blob is stored", z3.Length(h) > 0)
    vm.prove("at most one blob is stored, under a new name", len(g.state[1]) <= 1 and all(x[1] is None for x in g.state[1]))


for _f in ("jsonl", "zstd", "parquet", "text", "flat"):
    spec(BLOB + ".append", name="append_" + _f)(lambda vm, f=_f: check_append(vm, f))
    spec(BLOB + ".commit", name="commit_" + _f)(lambda vm, f=_f: check_commit(vm, f))


@spec(BLOB + ".open_buffer")
def open_buffer(vm):
    fmt = "parquet" if vm.choose("parquet") else "jsonl"
    b = blob_writer(vm, fmt, ghost())
    vm.call(vm.getattr(b, "open_buffer"), [], {})
    vm.prove("an opened buffer is empty", z3.Length(pending(vm, b)) == 0)
    vm.prove("and counts no record", vm.num(b.state["records_in_buffer"], INT) == 0)
