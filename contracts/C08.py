"""C08: a reader takes exactly the newest complete, not-ignored frame of each partition."""
from pyvc.spec import *

SPECS, spec = registry()
RD = "mabel.data.readers.internals.base_inner_reader.BaseInnerReader"
s_ = z3.StringVal


def extract(method, prefix, missing):
    def f(vm):
        """the first folder of the path that begins so"""
        parts = vm.fresh("parts", SSEQ)
        path = sstr(vm, "path")

        def split(vm, s, a, k):
            if not (s.t.eq(path.t) and a[0] == "/" and len(a) == 1):
                raise Unsupported("something else is split")
            return seqv(parts, STR)

        vm.models["str.split"] = split
        r = vm.call(vm.getattr(PyObj(fn(vm, RD), {}), method), [path], {})
        those = filt(vm, parts, lambda p: z3.PrefixOf(s_(prefix), p))
        if vm.branch(z3.Length(those) > 0):
            first = those[0]
            vm.prove("it is the first folder that begins so", z3.BoolVal(False) if not isinstance(r, (Sym, str)) else vm.term(r, STR) == first)
        else:
            vm.prove("there is none when no folder does", r == missing if not isinstance(r, Sym) else z3.BoolVal(False))

    spec(f"{RD}.{method}", name=method.strip("_"))(f)


extract("_extract_as_at", "as_at_", "")
extract("_extract_by", "by_", None)
