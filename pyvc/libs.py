"""Models of the libraries the code calls (trusted)."""
import z3

from .models import *
from .models import B, S, model, ufun, st_
from .terms import *
from .vm import *
from .interp import Interp, conc

DIRNAME, BASENAME = ufun("os_dirname", S, S), ufun("os_basename", S, S)


@model("os.path.dirname")
def _dirname(vm, a, k):
    t = st_(vm, a[0])
    d = DIRNAME(t)
    sl = z3.StringVal("/")
    vm.assume(z3.Or(z3.Not(z3.SuffixOf(sl, d)), d == sl))
    # up to the last separator, unless that is one of several or the first character
    b, e = ufun("before_last", S, S, S)(t, sl), ufun("after_last", S, S, S)(t, sl)
    vm.assume(z3.Implies(z3.Contains(t, sl), z3.And(t == z3.Concat(b, sl, e), z3.Not(z3.Contains(e, sl)))))
    vm.assume(z3.Implies(z3.And(z3.Contains(t, sl), b != z3.StringVal(""), z3.Not(z3.SuffixOf(sl, b))), d == b))
    vm.assume(z3.Implies(z3.Not(z3.Contains(t, sl)), d == z3.StringVal("")))
    return Sym(STR, d)


@model("os.path.basename")
def _basename(vm, a, k):
    return Sym(STR, BASENAME(st_(vm, a[0])))


B["os.path.split"] = lambda vm, a, k: (_dirname(vm, a, k), _basename(vm, a, k))


@model("os.path.join")
def _pjoin(vm, a, k):
    r = st_(vm, a[0])
    sl = z3.StringVal("/")
    for x in a[1:]:
        b = st_(vm, x)
        r = z3.If(z3.PrefixOf(sl, b), b, z3.If(z3.Or(r == z3.StringVal(""), z3.SuffixOf(sl, r)), z3.Concat(r, b), z3.Concat(r, sl, b)))
    return Sym(STR, z3.simplify(r))


# ---------------------------------------------------------------- locks
def _lock(vm, a, k):
    return PyObj(External("threading.Lock"), {"held": False})


B["threading.Lock"] = B["threading.RLock"] = _lock


def _acquire(vm, s, a, k):
    vm.setattr(s, "held", True)
    return True


def _release(vm, s, a, k):
    if s.state["held"] is False:
        raise PyExc(RuntimeError, ("release unlocked lock",))
    vm.setattr(s, "held", False)


B["method:threading.Lock.acquire"] = B["method:threading.Lock.__enter__"] = _acquire
B["method:threading.Lock.release"] = B["method:threading.Lock.__exit__"] = _release
B["method:threading.Lock.locked"] = lambda vm, s, a, k: s.state["held"]

# ---------------------------------------------------------------- encoders
DV, HV = z3.ArraySort(V, V), z3.ArraySort(V, z3.BoolSort())
ORJ_OK = ufun("orjson_ok", V, DV, HV, z3.BoolSort())
ORJ = ufun("orjson_dumps", V, DV, HV, S)
JDUMPS = ufun("json_dumps", V, DV, HV, S)
ZSTD = ufun("zstd", S, S)


def content(vm, v):
    t = vm.to_V(v)
    return t, z3.Select(vm.DICT, t), z3.Select(vm.HAS, t)


@model("orjson.dumps")
def _orjson(vm, a, k):
    if k or len(a) > 1:
        raise Unsupported("orjson options")
    c = content(vm, a[0])
    if not vm.branch(ORJ_OK(*c)):
        raise PyExc(TypeError, ("orjson",))
    return Sym(BYTES, ORJ(*c))


@model("json.dumps")
def _json(vm, a, k):
    if k:
        raise Unsupported("json options")
    return Sym(STR, JDUMPS(*content(vm, a[0])))


@model("zstandard.compress")
def _zstd(vm, a, k):
    return Sym(BYTES, ZSTD(vm.term(bytes_of(vm, a[0]), BYTES)))


@model("io.BytesIO")
def _bytesio(vm, a, k):
    return PyObj(External("io.BytesIO"), {"data": bytes_of(vm, a[0]) if a else b"", "pos": 0})


def _bio_read(vm, s, a, k):
    if a or s.state["pos"] != 0:
        raise Unsupported("BytesIO.read away from the start")
    vm.setattr(s, "pos", None)
    return s.state["data"]


def _bio_write(vm, s, a, k):
    vm.setattr(s, "data", Sym(BYTES, concat(z3.StringVal(""), vm.term(s.state["data"], BYTES), vm.term(bytes_of(vm, a[0]), BYTES))))
    vm.setattr(s, "pos", None)


B["method:io.BytesIO.read"] = _bio_read
B["method:io.BytesIO.write"] = _bio_write
B["method:io.BytesIO.seek"] = lambda vm, s, a, k: vm.setattr(s, "pos", a[0])
B["method:io.BytesIO.getvalue"] = lambda vm, s, a, k: s.state["data"]
B["method:io.BytesIO.getbuffer"] = lambda vm, s, a, k: s.state["data"]
B["method:io.BytesIO.__enter__"] = lambda vm, s, a, k: s
B["method:io.BytesIO.__exit__"] = lambda vm, s, a, k: None

# ---------------------------------------------------------------- data frames
NBYTES = ufun("df_nbytes", SV, z3.IntSort())
PARQUET = ufun("parquet", SV, S)


@model("orso.DataFrame")
def _df(vm, a, k):
    rows = k.get("rows", a[0] if a else None)
    return PyObj(External("orso.DataFrame"), {"rows": PyList(vm.iter_state(rows) if rows is not None else ("items", ()))})


B["orso.dataframe.DataFrame"] = _df


def _df_append(vm, s, a, k):
    if vm.choose("row does not fit the frame"):
        raise PyExc(ValueError, ("row",))
    vm.append(s.state["rows"], a[0])


def df_rows(vm, s):
    return vm.seq_term(s.state["rows"], VAL)


B["method:orso.DataFrame.append"] = _df_append
B["method:orso.DataFrame.nbytes"] = lambda vm, s, a, k: Sym(INT, NBYTES(df_rows(vm, s)))
B["method:orso.DataFrame.arrow"] = lambda vm, s, a, k: PyObj(External("pyarrow.Table"), {"rows": df_rows(vm, s)})
B["len:orso.DataFrame"] = lambda vm, s: Sym(INT, z3.simplify(z3.Length(df_rows(vm, s))))
B["truth:orso.DataFrame"] = lambda vm, s: z3.simplify(z3.Length(df_rows(vm, s)) > 0)
B["attr:orso.DataFrame.rowcount"] = lambda vm, s: Sym(INT, z3.simplify(z3.Length(df_rows(vm, s))))


def _df_profile(vm, s):
    if vm.choose("no profile"):
        raise PyExc(AttributeError, ("profile",))
    return PyObj(External("profile"), {})


B["attr:orso.DataFrame.profile"] = _df_profile
B["method:profile.to_dicts"] = lambda vm, s, a, k: PyList(("items", ()))


def _write_table(vm, a, k):
    where = k.get("where", a[1] if len(a) > 1 else None)
    _bio_write(vm, where, [Sym(BYTES, PARQUET(a[0].state["rows"]))], {})


B["pyarrow.parquet.write_table"] = _write_table


def decoded(t):
    """what a stored text or zstd blob holds"""
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().name() == "zstd":
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), decoded(t.arg(1)), decoded(t.arg(2)))
    return t
