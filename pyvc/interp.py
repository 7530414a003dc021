"""Expression and statement semantics, loops and comprehensions."""
import ast
import builtins
import operator

import z3

from .terms import *
from . import terms as T
from .vm import *
from .vm import VM, Frame, _has_yield

NXT = "ok"
CONC = (type(None), bool, int, float, str, bytes)


def conc(v):
    return isinstance(v, CONC) or (isinstance(v, tuple) and all(conc(e) for e in v))


def uniq_fn(sort):
    n = "UNIQ_" + str(sort).replace("Seq(", "").replace(")", "")
    T.UNIQS.add(n)
    return z3.Function(n, sort, sort)


class Interp(VM):
    # ================================================================ modules
    def module_frame(self, module):
        fr = self.globals.get(module)
        if fr is None:
            fr = Frame(module)
            self.globals[module] = fr
        return fr

    def module_get(self, module, name):
        fr = self.module_frame(module)
        if name in fr.state:
            return fr.state[name]
        key = f"{module}.{name}"
        if key in self.models:
            return Builtin(key, self.models[key])
        t = self.tree(module)
        if t is None:
            raise Unsupported(f"no source for {module}")
        v = self._module_define(t[0].body, module, name, fr)
        if v is not None:
            fr.state[name] = v[0]
            return v[0]
        sub = module + "." + name
        if self.tree(sub) is not None:
            return ModuleRef(sub)
        return None

    def _module_define(self, body, module, name, fr):
        found = None
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and st.name == name:
                found = (self.make_function(st, fr, module),)
            elif isinstance(st, ast.ClassDef) and st.name == name:
                found = (ClassInfo(self, st, module, fr),)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        found = (self._global_value(st.value, fr),)
                    elif isinstance(t, ast.Tuple) and any(
                        isinstance(e, ast.Name) and e.id == name for e in t.elts
                    ):
                        raise Unsupported("tuple assignment at module level")
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.target.id == name and st.value is not None:
                    found = (self._global_value(st.value, fr),)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if (a.asname or a.name) == name:
                        found = (self.import_from(st, a.name, module),)
                    elif a.name == "*":
                        m = self.resolve_module(st, module)
                        if self.is_repo(m):
                            v = self.module_get(m, name)
                            if v is not None:
                                found = (v,)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        found = (self.import_module(a.name if a.asname else a.name.split(".")[0]),)
            elif isinstance(st, (ast.Try, ast.If)):
                bodies = [st.body] + ([st.orelse] if isinstance(st, ast.If) else [])
                for b in bodies:
                    v = self._module_define(b, module, name, fr)
                    if v is not None:
                        found = v
                        break
        return found

    def _global_value(self, node, fr):
        """initialisation of a module: outside every path, so never undone"""
        j = len(self.journal)
        v = self.eval(node, fr)
        del self.journal[j:]
        return v

    def resolve_module(self, st, module):
        if not st.level:
            return st.module
        t = self.tree(module)
        parts = module.split(".")
        if not t[1].endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def import_from(self, st, name, module):
        m = self.resolve_module(st, module)
        key = f"{m}.{name}"
        if key in self.models:
            return Builtin(key, self.models[key])
        if self.is_repo(m):
            v = self.module_get(m, name)
            if v is None and self.tree(key) is not None:
                return ModuleRef(key)
            if v is None:
                raise Unsupported(f"cannot import {key}")
            return v
        return self.external(key)

    def import_module(self, name):
        if self.is_repo(name):
            return ModuleRef(name)
        return self.external(name)

    def external(self, q):
        if q.split(".")[-1] in ("get_logger", "logger", "logging") or q in ("traceback", "warnings"):
            return NULL
        if q.startswith("string."):
            import string

            return getattr(string, q.split(".")[1])
        if q in self.models:
            m = self.models[q]
            return m if not callable(m) or isinstance(m, (type, Builtin)) else Builtin(q, m)
        return External(q)

    # ================================================================ functions
    def make_function(self, node, frame, module, cls=None):
        c = Closure(node, frame, module, cls)
        if frame is not None and frame.parent is not None and cls is None:
            c.qual = f"{frame.qual if hasattr(frame, 'qual') else module}.<locals>.{c.name}"
        v = c
        for d in getattr(node, "decorator_list", []):
            src = ast.unparse(d)
            if src == "property":
                v = PropertyFn(c)
            elif src in ("staticmethod",):
                v = StaticFn(c)
        return v

    def defaults(self, c):
        if c.defaults is None:
            a = c.node.args
            j = len(self.journal)
            c.defaults = (
                [self.eval(d, c.frame) for d in a.defaults],
                [None if d is None else (self.eval(d, c.frame),) for d in a.kw_defaults],
            )
            del self.journal[j:]
        return c.defaults

    def bind(self, c, args, kwargs, frame):
        a = c.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        dfl, kwd = self.defaults(c)
        st = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                st[pos[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            raise PyExc(TypeError, (f"{c.name}() takes {len(pos)} positional arguments",))
        if a.vararg:
            st[a.vararg.arg] = tuple(extra)
        kw = dict(kwargs)
        for i, n in enumerate(pos):
            if n in st:
                if n in kw:
                    raise PyExc(TypeError, ("multiple values",))
                continue
            if n in kw:
                st[n] = kw.pop(n)
            else:
                j = i - (len(pos) - len(dfl))
                if j < 0:
                    raise PyExc(TypeError, (f"missing argument {n}",))
                st[n] = dfl[j]
        for p, d in zip(a.kwonlyargs, kwd):
            if p.arg in kw:
                st[p.arg] = kw.pop(p.arg)
            elif d is not None:
                st[p.arg] = d[0]
            else:
                raise PyExc(TypeError, (f"missing keyword argument {p.arg}",))
        if "**" in kw:
            if not a.kwarg or len(kw) > 1 or a.kwonlyargs or len(a.args) > len(args):
                raise Unsupported("keywords of a symbolic mapping")
            st[a.kwarg.arg] = kw["**"]
        elif a.kwarg:
            st[a.kwarg.arg] = PyDict(tuple(kw.items()))
        elif kw:
            raise PyExc(TypeError, (f"unexpected keyword arguments {list(kw)}",))
        frame.state = st

    def run_closure(self, c, args, kwargs):
        self.functions[c.qual] = self.functions.get(c.qual, 0) + 1
        fr = Frame(c.module, c.frame if c.frame is not None else None)
        fr.qual = c.qual
        fr.fn = c
        self.bind(c, args, kwargs, fr)
        if isinstance(c.node, ast.Lambda):
            return self.eval(c.node.body, fr)
        if c.is_gen:
            def run():
                out = PyList(("items", ()))
                fr.out = out
                try:
                    self.exec_block(c.node.body, fr)
                except ReturnE:
                    pass
                return out
            return PyGen(run)
        if self.recursion is not None and any(n is c.node for n in self.running):
            # the induction hypothesis, where a contract gives one
            r = self.recursion(self, c, args, kwargs)
            if r is not NotImplemented:
                return r
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth (recursion without a contract)")
        self.running.append(c.node)
        try:
            self.exec_block(c.node.body, fr)
        except ReturnE as e:
            return e.v
        finally:
            self.running.pop()
            self.depth -= 1
        return None

    def force(self, g):
        if g.state[0] == "lazy":
            run = g.state[1]
            self.mut(g, ("running",))
            self.mut(g, run().state)
        if g.state[0] == "running":
            raise Unsupported("generator consumed by itself")
        return g

    def call(self, f, args, kwargs):
        if isinstance(f, NullSink):
            return NULL
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kwargs)
        if isinstance(f, StaticFn):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, Closure):
            h = self.contracts.get(f.qual)
            if h is not None:
                return h(self, f, list(args), dict(kwargs))
            return self.run_closure(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, External):
            h = self.models.get(f.q)
            if h is None:
                raise Unsupported(f"no model of {f.q}")
            return h(self, list(args), dict(kwargs))
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyObj(f, {"args": tuple(args)})
        if isinstance(f, PyObj):
            if isinstance(f.cls, ClassInfo):
                r = f.cls.lookup(self, "__call__")
                if r:
                    return self.call(Bound(f, r[0]), args, kwargs)
            h = self.models.get(f"call:{getattr(f.cls, 'q', '')}")
            if h:
                return h(self, f, args, kwargs)
        if isinstance(f, type):
            b = self.builtin(f.__name__)
            if b is not None:
                return self.call(b, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, cls, args, kwargs):
        h = self.contracts.get(cls.qual)
        if h is not None:
            return h(self, cls, list(args), dict(kwargs))
        names = cls.mro_names(self)
        if "BaseException" in names or "Exception" in names or any(
            isinstance(getattr(builtins, n, None), type) and issubclass(getattr(builtins, n), BaseException)
            for n in names
        ):
            o = PyObj(cls, {"args": tuple(args)})
            o.complete = True
            return o
        o = PyObj(cls)
        o.complete = True
        if "list" in names:
            o.state = {}
        r = cls.lookup(self, "__init__")
        if r is not None:
            self.call(Bound(o, r[0]), args, kwargs)
        return o

    # ================================================================ names
    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if f.parent is None and f is self.globals.get(f.module):
                break
            if name in f.state:
                v = f.state[name]
                if isinstance(v, Undef):
                    raise Unsupported(f"`{name}` is not tracked through the loop")
                return v
            f = f.parent
        v = self.module_get(frame.module, name)
        if v is not None:
            return v
        fr = self.globals.get(frame.module)
        if fr is not None and name in fr.state:
            return fr.state[name]
        b = self.builtin(name)
        if b is not None:
            return b
        if hasattr(builtins, name):
            return External("builtins." + name)
        raise PyExc(NameError, (name,))

    def builtin(self, name):
        h = self.models.get("builtins." + name)
        if h is not None:
            return Builtin(name, h)
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return b
        return None

    def setvar(self, frame, name, v):
        if name in frame.globals_:
            frame = self.module_frame(frame.module)
        elif name in frame.nonlocals:
            f = frame.parent
            while f is not None and name not in f.state:
                f = f.parent
            frame = f or frame
        st = dict(frame.state)
        st[name] = v
        self.mut(frame, st)

    def assign(self, target, v, frame):
        if isinstance(target, ast.Name):
            self.setvar(frame, target.id, v)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.eval(target.value, frame), target.attr, v)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.eval(target.value, frame), self.eval_index(target.slice, frame), v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            stars = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            if stars:
                vs = self.unpack_star(v, stars[0], len(target.elts) - stars[0] - 1)
            else:
                vs = self.unpack(v, len(target.elts))
            for t, e in zip(target.elts, vs):
                self.assign(t.value if isinstance(t, ast.Starred) else t, e, frame)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, Sym) and v.k is VAL:
            v = self.narrow(v)
        if isinstance(v, tuple):
            items = v
        else:
            st = self.iter_state(v)
            if st[0] == "items":
                items = st[1]
            elif st[0] == "seq":
                if not self.branch(z3.Length(st[2]) == n):
                    raise PyExc(ValueError, ("unpack",))
                return [self.nth(st, i) for i in range(n)]
            else:
                raise Unsupported("unpacking")
        if len(items) != n:
            raise PyExc(ValueError, ("unpack",))
        return list(items)

    def unpack_star(self, v, before, after):
        """a, *b, c = v"""
        if isinstance(v, Sym) and v.k is VAL:
            v = self.narrow(v)
        st = ("items", v) if isinstance(v, tuple) else self.iter_state(v)
        if st[0] == "items":
            items, n = list(st[1]), len(st[1])
            if n < before + after:
                raise PyExc(ValueError, ("unpack",))
            return items[:before] + [PyList(("items", tuple(items[before : n - after])))] + items[n - after :]
        if st[0] != "seq":
            raise Unsupported("unpacking")
        t, ln = st[2], z3.Length(st[2])
        if not self.branch(ln >= before + after):
            raise PyExc(ValueError, ("unpack",))
        ends = [st[1].wrap(t[ln - i]) for i in range(after, 0, -1)]
        mid = z3.Extract(t, before, ln - before - after)
        self.inherit(t, mid)
        return [self.nth(st, i) for i in range(before)] + [PyList(("seq", st[1], mid))] + ends

    def setattr(self, o, name, v):
        if isinstance(o, PyObj):
            st = dict(o.state)
            st[name] = v
            self.mut(o, st)
            return
        if isinstance(o, Frame):
            return self.setvar(o, name, v)
        if isinstance(o, (Bound, Closure, NullSink)):
            return
        raise Unsupported(f"set attribute of {o!r}")

    def getattr(self, o, name):
        if isinstance(o, NullSink):
            return NULL
        if isinstance(o, ModuleRef):
            v = self.module_get(o.name, name)
            if v is None:
                raise PyExc(AttributeError, (name,))
            return v
        if isinstance(o, Builtin) and f"{o.name}.{name}" in self.models:
            o = External(o.name)
        if isinstance(o, External):
            q = f"{o.q}.{name}"
            m = self.models.get(q)
            if m is not None and not callable(m):
                return m
            return self.external(q)
        if isinstance(o, PyObj):
            if name in o.state:
                v = o.state[name]
                if isinstance(v, Undef):
                    raise Unsupported(f"field {name} is not tracked through the loop")
                return v
            if name == "__class__":
                return o.cls
            if isinstance(o.cls, ClassInfo):
                r = o.cls.lookup(self, name)
                if r is not None:
                    f, owner = r
                    if isinstance(f, PropertyFn):
                        return self.call(Bound(o, f.fn), [], {})
                    if isinstance(f, StaticFn):
                        return f.fn
                    if isinstance(f, Closure):
                        return Bound(o, f)
                    return f
                if "list" in o.cls.mro_names(self):
                    pass
            q = getattr(o.cls, "q", None)
            if q:
                h = self.models.get(f"attr:{q}.{name}")
                if h is not None:
                    return h(self, o)
                h = self.models.get(f"method:{q}.{name}")
                if h is not None:
                    return Bound(o, Builtin(f"{q}.{name}", lambda vm, a, k: h(vm, a[0], a[1:], k)))
                if name not in getattr(o, "absent", ()):
                    raise Unsupported(f"no model of {q}.{name}")
            elif isinstance(o.cls, ClassInfo) and not getattr(o, "complete", False):
                raise Unsupported(f"the contract's pre-state has no field {name}")
            raise PyExc(AttributeError, (name,))
        if isinstance(o, ClassInfo):
            if name == "__name__":
                return o.name
            r = o.lookup(self, name)
            if r is None:
                raise PyExc(AttributeError, (name,))
            return r[0].fn if isinstance(r[0], StaticFn) else r[0]
        if isinstance(o, SuperRef):
            for b in o.cls.get_bases(self):
                if isinstance(b, ClassInfo):
                    r = b.lookup(self, name)
                    if r is not None:
                        return Bound(o.obj, r[0])
            return Builtin("super." + name, lambda vm, a, k: None)
        if isinstance(o, TypeOf) and name == "__name__":
            return Sym(STR, z3.Function("typename", V, z3.StringSort())(self.to_V(o.v)))
        if isinstance(o, type) and name == "__name__":
            return o.__name__
        m = self.method(o, name)
        if m is not None:
            return m
        if isinstance(o, (PyList, tuple, PyTupSeq, PySet, PyDict, Sym, PyIter, PyGen)) and (self.has_attr(o, name) is True or name in self.models.get("unmodelled", ())):
            raise Unsupported(f"no model of {self.type_name(o)}.{name}")
        if isinstance(o, Builtin) and o.name == "dict" and name == "fromkeys":
            return Builtin("dict.fromkeys", lambda vm, a, k: vm.dict_fromkeys(*a))
        if isinstance(o, (Builtin, Closure, Bound)) or isinstance(o, type):
            raise Unsupported(f"no model of {o!r}.{name}")
        raise PyExc(AttributeError, (name,))

    def dict_fromkeys(self, keys, value=None):
        st = self.iter_state(keys)
        if st[0] != "items":
            raise Unsupported("dict.fromkeys of an unknown number of keys")
        st = self.uniq_state(("items", tuple(st[1])))
        return PyDict(tuple((e, value) for e in st[1]))

    def has_attr(self, o, name):
        """hasattr as Python bool or z3 Bool"""
        if isinstance(o, Sym) and o.k is VAL:
            h = self.models.get(f"hasattr:{name}")
            if h is not None:
                return h(self, o)
            if name in ("items", "keys", "values"):
                return z3.And(V.is_obj(o.t), ISDICT(o.t))
            return z3.And(
                V.is_obj(o.t), z3.Function("hasattr_" + name, V, z3.BoolSort())(o.t)
            )
        try:
            j = len(self.journal)
            if isinstance(o, PyObj) and isinstance(o.cls, ClassInfo):
                return name in o.state or o.cls.lookup(self, name) is not None or (
                    "list" in o.cls.mro_names(self) and hasattr(list, name)
                )
            if isinstance(o, PyObj) and isinstance(o.cls, External):
                return name in o.state or f"method:{o.cls.q}.{name}" in self.models or f"attr:{o.cls.q}.{name}" in self.models
            if isinstance(o, (PyIter, PyGen)):
                return name in ("__iter__", "__next__")
            if isinstance(o, (PyList, tuple, PyTupSeq, PySet, PyDict)):
                py = {"list": list, "tuple": tuple, "set": set, "dict": dict, "map": dict}[getattr(o, "kind", "tuple")]
                return hasattr(py, name)
            if isinstance(o, Sym):
                py = {"int": int, "bool": bool, "real": float, "str": str, "bytes": bytes}[o.k.name]
                return hasattr(py, name)
            if conc(o):
                return hasattr(o, name)
            if isinstance(o, (Closure, Bound, Builtin)):
                return name in ("__call__", "__name__")
            if isinstance(o, External):
                h = self.models.get(f"hasattr:{o.q}.{name}")
                return bool(h)
            self.getattr(o, name)
            return True
        except PyExc:
            return False

    def method(self, o, name):
        t = self.type_name(o)
        if isinstance(o, Sym) and o.k is VAL:
            h = self.models.get(f"attrof.{name}")
            if h is not None:
                return h(self, o)
        h = self.models.get(f"{t}.{name}")
        if h is not None:
            return Bound(o, Builtin(f"{t}.{name}", lambda vm, a, k: h(vm, a[0], a[1:], k)))
        if isinstance(o, Sym) and o.k is VAL:
            n = self.narrow(o)
            if not (isinstance(n, Sym) and n.k is VAL):
                return self.getattr(n, name)
            h = self.models.get(f"record.{name}")
            if h is not None:
                return Bound(o, Builtin(f"record.{name}", lambda vm, a, k: h(vm, a[0], a[1:], k)))
            h = self.models.get(f"obj.{name}")
            if h is not None:
                return Bound(o, Builtin(f"obj.{name}", lambda vm, a, k: h(vm, a[0], a[1:], k)))
            raise Unsupported(f"method {name} of an unknown value")
        if conc(o) and hasattr(o, name):
            def fn(vm, a, k, name=name):
                if all(conc(x) for x in a[1:]):
                    try:
                        r = getattr(a[0], name)(*a[1:], **k)
                    except Exception as e:
                        raise PyExc(type(e), e.args)
                    return vm.lift(r)
                h = vm.models.get(f"{type(a[0]).__name__}!{name}")
                if h is None:
                    raise Unsupported(f"{type(a[0]).__name__}.{name} with symbolic arguments")
                return h(vm, a[0], a[1:], k)
            return Bound(o, Builtin(name, fn))
        return None

    def lift(self, r):
        if isinstance(r, list):
            return PyList(("items", tuple(self.lift(e) for e in r)))
        if isinstance(r, tuple):
            return tuple(self.lift(e) for e in r)
        if isinstance(r, (set, frozenset)):
            return PySet(("items", tuple(sorted((self.lift(e) for e in r), key=repr))))
        if isinstance(r, dict):
            return PyDict(tuple((self.lift(k), self.lift(v)) for k, v in r.items()))
        return r

    def type_name(self, o):
        if isinstance(o, Sym):
            return {"val": "record"}.get(o.k.name, o.k.name) if o.k is not VAL else "VAL"
        if isinstance(o, Heap):
            return getattr(o, "kind", type(o).__name__)
        if isinstance(o, PyGen):
            return "gen"
        return type(o).__name__

    # ================================================================ iteration
    def uniq_state(self, st):
        """the members of a set, each once: some order fixed by the sequence they came from"""
        if st[0] == "items":
            if len(st[1]) <= 1 or all(conc(e) for e in st[1]):
                out = []
                for e in st[1]:
                    if not any(type(e) is type(o) and e == o for o in out):
                        out.append(e)
                return ("items", tuple(out))
            out = []
            for e in st[1]:
                if not self.branch(self._or([self.eq_term(e, o) for o in out])):
                    out.append(e)
            return ("items", tuple(out))
        if st[0] != "seq" or is_z3str(st[2].sort()):
            return st
        t = st[2]
        if z3.is_app(t) and (t.decl().name() in T.UNIQS or t.decl().eq(KEYS)):
            return st
        return ("seq", st[1], uniq_fn(t.sort())(t))

    def iter_state(self, v):
        if isinstance(v, PyGen):
            return self.force(v).state
        if isinstance(v, PySet):
            return self.uniq_state(v.state)
        if isinstance(v, (PyList, PyTupSeq, PyIter)):
            return v.state
        if isinstance(v, tuple):
            return ("items", v)
        if isinstance(v, str):
            return ("items", tuple(v))
        if isinstance(v, Sym):
            if v.k is STR:
                return ("seq", CHAR, v.t)
            if v.k is VAL:
                n = self.narrow(v)
                if isinstance(n, Sym) and n.k is VAL:
                    if self.branch(ISDICT(v.t)):
                        return ("seq", VAL, self.models["record.fields"](self, v.t, KEYS))
                    raise PyExc(TypeError, ("not iterable",))
                return self.iter_state(n)
            raise PyExc(TypeError, ("not iterable",))
        if v is None or isinstance(v, (int, float)):
            raise PyExc(TypeError, ("not iterable",))
        if isinstance(v, PyDict):
            return ("items", tuple(k for k, _ in v.state))
        if isinstance(v, PyObj):
            h = self.models.get(f"iter:{getattr(v.cls, 'q', '')}")
            if h is not None:
                return h(self, v)
            if isinstance(v.cls, ClassInfo):
                r = v.cls.lookup(self, "__iter__")
                if r is not None:
                    it = self.call(Bound(v, r[0]), [], {})
                    if it is v:
                        raise Unsupported("iteration by __next__")
                    return self.iter_state(it)
        raise Unsupported(f"iteration over {v!r}")

    def nth(self, st, i):
        if st[0] == "items":
            return st[1][i]
        codec, t = st[1], st[2]
        i = z3.IntVal(i) if isinstance(i, int) else i
        el = t[i] if not is_z3str(t.sort()) else None
        if el is None:
            return Sym(STR, z3.SubString(t, i, 1))
        return codec.wrap(z3.simplify(el))

    def to_list(self, v):
        st = self.iter_state(v)
        if st[0] in ("enum", "range", "zip"):
            st = self.comp_state(st, lambda x: x)
        if isinstance(v, PyIter):
            self.mut(v, ("items", ()))
        return PyList(st)

    # -------------------------------------------------- generic element bodies
    def element_paths(self, codec, body, whole=None):
        """Run body on a generic element; returns x and the outcomes"""
        n0 = self.fresh_n
        x = self.fresh("x", codec.sort)
        base = self.fresh_n

        def run():
            if whole is not None:
                self.elem_assume(whole, x)
            return body(codec.wrap(x))

        outs = self.sub_explore(run)
        return x, base, outs

    # -------------------------------------------------- facts about every element
    def every(self, t, pred):
        """assume pred of every element of the sequence t"""
        x = z3.Const("evx", t.sort().basis() if not is_z3str(t.sort()) else CHAR_SORT)
        bad = cmap(x, z3.If(pred(x), empty(t.sort()), z3.Unit(x)))
        self.assume(z3.Length(apply_cmap(bad, t)) == 0)
        self.elem_facts.append((t, pred))
        ia = as_cmap(t)
        if ia is not None and z3.is_app_of(ia[0].body, z3.Z3_OP_SEQ_UNIT):
            m = ia[0]
            self.elem_facts.append((ia[1], lambda y: pred(m.at(y).arg(0))))

    def every_goal(self, t, pred):
        """the claim that pred holds of every element of t"""
        x = z3.Const("evx", t.sort().basis() if not is_z3str(t.sort()) else CHAR_SORT)
        bad = cmap(x, z3.If(pred(x), empty(t.sort()), z3.Unit(x)))
        return z3.Length(apply_cmap(bad, t)) == 0

    def inherit(self, t, part):
        """what holds of every element of t holds of every element of a part of it"""
        for r, pred in list(self.elem_facts):
            if r.eq(t):
                self.elem_facts.append((part, pred))

    def elem_assume(self, t, x, depth=0):
        for r, pred in self.elem_facts:
            if r.eq(t):
                self.assume(pred(x))
        if not z3.is_app(t) or depth > 6:
            return
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(r.eq(t) for r, _ in self.elem_facts):
            for c in reversed(self.pc):
                if z3.is_eq(c) and c.arg(0).eq(t) and c.arg(1).num_args():
                    return self.elem_assume(c.arg(1), x, depth + 1)
        if as_cmap(t) is not None:
            m = as_cmap(t)[0]
            g = guard_form(m.body, m.x)
            if g is not None:
                self.assume(z3.substitute(g, (m.x, x)))
                self.elem_assume(t.arg(0), x, depth + 1)
            elif z3.is_app_of(m.body, z3.Z3_OP_SEQ_UNIT):
                y = self.fresh("pre", m.x.sort())
                self.assume(x == m.at(y).arg(0) if z3.is_app_of(m.at(y), z3.Z3_OP_SEQ_UNIT) else z3.Unit(x) == m.at(y))
                self.elem_assume(t.arg(0), y, depth + 1)
            else:
                # x is an element of what one element of the mapped sequence gave
                y = self.fresh("pre", m.x.sort())
                body = m.at(y)
                while z3.is_app_of(body, z3.Z3_OP_ITE) and (T.is_empty_term(body.arg(1)) or T.is_empty_term(body.arg(2))):
                    body = body.arg(2 if T.is_empty_term(body.arg(1)) else 1)
                if z3.is_app(body) and body.decl().name() in self.elem_rules:
                    return self.elem_assume(body, x, depth + 1)
                self.assume(z3.Contains(body, z3.Unit(x)))
                self.elem_assume(t.arg(0), y, depth + 1)
                self.elem_assume(body, x, depth + 1)
        elif z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            # x is an element of one of the parts
            claims = []
            for part in t.children():
                own = []
                if z3.is_app_of(part, z3.Z3_OP_SEQ_UNIT):
                    own.append(x == part.arg(0))
                outer = self.__dict__.get("assume")
                self.assume = own.append
                try:
                    self.elem_assume(part, x, depth + 1)
                finally:
                    if outer is None:
                        del self.assume
                    else:
                        self.assume = outer
                claims.append(z3.And(*own) if own else None)
            if all(c is not None for c in claims):
                self.assume(z3.Or(*claims))
        elif t.decl().name() in self.elem_rules:
            self.assume(self.elem_rules[t.decl().name()](x))
        elif z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT) or (t.num_args() == 1 and (t.decl().name() in T.PERMS or t.decl().name().startswith("UNIQ"))):
            self.elem_assume(t.arg(0), x, depth + 1)
        elif t.decl().name() == "keys":
            self.assume(z3.Select(z3.Select(self.HAS, t.arg(0)), x))

    def closed(self, t, base, allowed=()):
        for n in consts_of(t):
            if "!" in n:
                try:
                    i = int(n.rsplit("!", 1)[1])
                except ValueError:
                    continue
                if i > base and n not in allowed:
                    return False
        return True

    def comp_state(self, st, body):
        """state of [*body(x) for x in st]; body returns a value, or SKIP, or Flat(state)"""
        if st[0] == "items":
            out = []
            for e in st[1]:
                r = body(e)
                if r is SKIP:
                    continue
                if isinstance(r, Flat):
                    if r.state[0] != "items":
                        return self._flat_mixed(out, r, st, body, e)
                    out.extend(r.state[1])
                else:
                    out.append(r)
            return ("items", tuple(out))
        if st[0] in ("range", "enum"):
            return self._comp_indexed(st, body)
        if st[0] != "seq":
            raise Unsupported("comprehension over " + st[0])
        codec, t = st[1], st[2]
        x, base, outs = self.element_paths(codec, body, t)
        return self._comp_merge(x, base, outs, t, codec)

    def _flat_mixed(self, out, r, st, body, e):
        raise Unsupported("mixed flattening")

    def _comp_merge(self, x, base, outs, t, codec, subst=None):
        vals = []
        for conds, o, facts, ch in outs:
            if ch:
                raise Unsupported("comprehension with side effects")
            g = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            if subst:
                g = subst(g)
            if not self.closed(g, base):
                raise Unsupported("comprehension condition depends on unknown values")
            if o[0] == "exc":
                e = cmap(x, z3.If(g, z3.Unit(x), empty(z3.SeqSort(x.sort()))))
                if self.branch(z3.Length(apply_cmap(e, t)) > 0):
                    raise o[1]
                continue
            if o[0] != "ok":
                raise Unsupported("control flow in comprehension")
            vals.append((g, o[1]))
        ecs = []
        for g, v in vals:
            if v is SKIP:
                continue
            if isinstance(v, Flat):
                if v.state[0] == "items" and not v.state[1]:
                    continue
                ecs.append(self.elem_codec(v.state))
            else:
                ecs.append(self.codec_of(v))
        if not ecs:
            ec = codec
        else:
            ec = ecs[0] if all(e is ecs[0] for e in ecs) else VAL
        if ec is STR and codec is CHAR and all(
            v is SKIP or (isinstance(v, Sym) and z3.is_app_of(v.t, z3.Z3_OP_SEQ_UNIT)) for _, v in vals
        ):
            ec = CHAR
        osort = z3.SeqSort(ec.sort)
        body = empty(osort)
        for g, v in vals:
            if v is SKIP:
                tm = empty(osort)
            elif isinstance(v, Flat):
                tm = self.seq_term(v.state, ec)
            else:
                tm = z3.Unit(self.term(v, ec))
            if subst:
                tm = subst(tm)
            if not self.closed(tm, base):
                raise Unsupported("comprehension value depends on unknown values")
            body = z3.If(g, tm, body)
        m = cmap(x, body)
        return ("seq", ec, apply_cmap(m, t))

    def _comp_indexed(self, st, body):
        """[.. for i in range(len(s))] / enumerate(s), where i is used only to index s"""
        if st[0] == "enum":
            inner, start = st[1], st[2]
            if inner[0] != "seq":
                raise Unsupported("enumerate")
            codec, t = inner[1], inner[2]
            i = self.fresh("i", z3.IntSort())
            x = self.fresh("x", codec.sort)
            base = self.fresh_n

            def run():
                self.assume(z3.And(i >= 0, i < z3.Length(t), t[i] == x))
                self.elem_assume(t, x)
                return body((Sym(INT, i + self.num(start, INT)), codec.wrap(x)))
        else:
            lo, hi = st[1], st[2]
            h = hi.t if isinstance(hi, Sym) else None
            if h is None or not z3.is_app_of(h, z3.Z3_OP_SEQ_LENGTH) or lo != 0:
                raise Unsupported("comprehension over a range")
            t = h.arg(0)
            codec = self.codec_for_sort(t.sort())
            i = self.fresh("i", z3.IntSort())
            x = self.fresh("x", codec.sort)
            base = self.fresh_n

            def run():
                self.assume(z3.And(i >= 0, i < z3.Length(t)))
                return body(Sym(INT, i))

        outs = self.sub_explore(run)

        def subst(tm):
            tm = z3.simplify(tm)
            for _ in range(3):
                subs = []
                for m, a in find_apps([tm]):
                    if always_unit(m.body) and a.eq(t):
                        b = m.at(x)
                        fx = m.fn(t)
                        subs.append((z3.simplify(fx[i]), z3.simplify(b[0])))
                        subs.append((fx[i], z3.simplify(b[0])))
                subs.append((t[i], x))
                subs.append((z3.simplify(t[i]), x))
                tm = z3.simplify(z3.substitute(tm, *subs))
                tm = z3.simplify(z3.substitute(tm, (i < z3.Length(t), z3.BoolVal(True)), (i >= 0, z3.BoolVal(True)), (z3.simplify(i < z3.Length(t)), z3.BoolVal(True)), (z3.simplify(i >= 0), z3.BoolVal(True)),
                                                (z3.simplify(z3.Length(t) <= i), z3.BoolVal(False))))
            if str(i) in consts_of(tm):
                subs, stack = [], [tm]
                while stack:
                    u = stack.pop()
                    if z3.is_app(u) and u.num_args() == 2 and u.decl().name() in ("seq.nth", "seq.nth_i") and u.arg(0).eq(t) and u.arg(1).eq(i):
                        subs.append((u, x))
                    stack.extend(u.children())
                tm = z3.simplify(z3.substitute(tm, *subs))
                # what the range of the index decides
                inside = z3.Solver()
                inside.add(i >= 0, i < z3.Length(t))
                for _ in range(3):
                    subs, stack = [], [tm]
                    while stack:
                        u = stack.pop()
                        if not z3.is_app(u):
                            continue
                        if z3.is_bool(u) and u.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and str(i) in consts_of(u):
                            if inside.check(z3.Not(u)) == z3.unsat:
                                subs.append((u, z3.BoolVal(True)))
                            elif inside.check(u) == z3.unsat:
                                subs.append((u, z3.BoolVal(False)))
                        stack.extend(u.children())
                    if not subs:
                        break
                    tm = z3.simplify(z3.substitute(tm, *subs))
                    subs = [(t[i], x), (z3.simplify(t[i]), x)]
                    stack = [tm]
                    while stack:
                        u = stack.pop()
                        if z3.is_app(u) and u.num_args() == 2 and u.decl().name() in ("seq.nth", "seq.nth_i") and u.arg(0).eq(t) and u.arg(1).eq(i):
                            subs.append((u, x))
                        stack.extend(u.children())
                    tm = z3.simplify(z3.substitute(tm, *subs))
            if str(i) in consts_of(tm):
                raise Unsupported("index used other than to index: " + str(tm)[:300])
            return tm

        return self._comp_merge(x, base, outs, t, codec, subst)

    def codec_for_sort(self, sort):
        e = sort.basis() if not is_z3str(sort) else CHAR_SORT
        for k in (INT, BOOL, REAL, STR, VAL, CHAR):
            if k.sort == e:
                return k
        for k in list(T._tups.values()) + list(T._lists.values()):
            if k.sort == e:
                return k
        raise Unsupported(f"sequence of {e}")

    def comprehension(self, node, frame, elt):
        """state of a list/set/generator comprehension; elt(frame) evaluates the element"""

        def level(gens, fr):
            g = gens[0]
            it = self.eval(g.iter, fr)
            st = self.iter_state(it)
            if isinstance(it, PyIter):
                self.mut(it, ("items", ()))
            last = len(gens) == 1

            def body(x):
                f2 = Frame(fr.module, fr)
                self.assign(g.target, x, f2)
                for c in g.ifs:
                    if not self.truth(self.eval(c, f2)):
                        return SKIP
                if last:
                    return elt(f2)
                return Flat(level(gens[1:], f2))

            return self.comp_state(st, body)

        return level(node.generators, frame)

    def filter_state(self, st, pred, keep=True):
        """elements of st for which pred(x) (a Python bool or z3 Bool) is `keep`"""

        def body(x):
            c = pred(x)
            return x if self.branch(c) == keep else SKIP

        return self.comp_state(st, body)

    def exists(self, st, pred):
        """some element satisfies pred: Python bool or z3 Bool"""
        s = self.filter_state(st, pred)
        if s[0] == "items":
            return len(s[1]) > 0
        return z3.Length(s[2]) > 0

    # ================================================================ loops
    def s_For(self, node, frame):
        it = self.eval(node.iter, frame)
        st = self.iter_state(it)
        if st[0] == "seq" and T.is_empty_term(st[2]):
            st = ("items", ())
        if st[0] == "range" and conc(st[1]) and conc(st[2]):
            st = ("items", tuple(range(st[1], st[2])))
        if st[0] == "enum" and st[1][0] == "items":
            st = ("items", tuple((self.binop(ast.Add(), st[2], i), e) for i, e in enumerate(st[1][1])))
        if st[0] == "items":
            if len(st[1]) > 400:
                raise Unsupported("long concrete loop")
            rest = st[1]
            for i, x in enumerate(st[1]):
                if isinstance(it, PyIter):
                    self.mut(it, ("items", tuple(st[1][i + 1 :])))
                self.assign(node.target, x, frame)
                try:
                    self.exec_block(node.body, frame)
                except BreakE:
                    return
                except ContinueE:
                    continue
            self.exec_block(node.orelse, frame)
            return
        self.cut_loop(node, frame, it, st)

    def cut_loop(self, node, frame, it, st):
        start = None
        if st[0] == "enum":
            start = self.num(st[2], INT)
            st = st[1]
        rng = None
        if st[0] == "range":
            lo, hi = self.num(st[1], INT), self.num(st[2], INT)
            rng = (lo, hi)
            if z3.is_app_of(hi, z3.Z3_OP_SEQ_LENGTH) and z3.is_int_value(lo) and lo.as_long() == 0:
                whole = hi.arg(0)
                codec = self.codec_for_sort(whole.sort())
            else:
                whole, codec = None, None
        else:
            codec, whole = st[1], st[2]

        def element(p, x, i):
            if rng is not None:
                return Sym(INT, i)
            v = codec.wrap(x)
            if start is not None:
                v = (Sym(INT, z3.simplify(start + z3.Length(p))), v)
            return v

        sort = z3.SeqSort(codec.sort) if codec is not None else None
        is_iter = isinstance(it, PyIter)
        if self.unroll is not None:
            return self.unrolled(node, frame, it if is_iter else None, whole, codec, rng, element)

        def mk(tag):
            """ghosts of the iteration about to run: prefix, element, rest"""
            if whole is None:
                i = self.fresh("i", z3.IntSort())
                self.assume(z3.And(i >= rng[0], i < rng[1]))
                return Ghost(None, None, None, i, rng, None)
            p = self.fresh("pre", sort)
            x = self.fresh("x", codec.sort)
            r = self.fresh("rest", sort)
            self.assume(whole == concat(empty(sort), p, z3.Unit(x), r))
            self.inherit(whole, p)
            self.elem_assume(whole, x)
            i = z3.Length(p)
            return Ghost(p, x, r, i, rng, whole)

        def at_start():
            if whole is None:
                return Ghost(None, None, None, rng[0], rng, None)
            return Ghost(empty(sort), None, whole, z3.IntVal(0), rng, whole)

        def at_next(g):
            if whole is None:
                return Ghost(None, None, None, g.i + 1, rng, None)
            return Ghost(concat(empty(sort), g.p, z3.Unit(g.x)), None, g.rest, g.i + 1, rng, whole)

        def at_end():
            if whole is None:
                return Ghost(None, None, None, z3.If(rng[1] > rng[0], rng[1], rng[0]), rng, None)
            return Ghost(whole, None, empty(sort), z3.Length(whole), rng, whole)

        def bind(g):
            if is_iter:
                self.mut(it, ("seq", codec, g.rest))
            self.assign(node.target, element(g.p, g.x, g.i), frame)

        self._cut(node, frame, mk, at_start, at_next, at_end, bind,
                  lambda: self.exec_block(node.body, frame), node.orelse, it if is_iter else None, None,
                  codec)

    unroll = None  # the most iterations of a loop, in a run that looks for counterexamples only

    def split_elements(self, whole, codec=None):
        """the elements of a sequence of at most `unroll`, longer ones left out of the run"""
        ia = as_cmap(whole)
        if ia is not None and not is_z3str(ia[1].sort()):
            # those a map makes of the elements of another sequence
            m, base = ia
            out = []
            for y in self.split_elements(base):
                out += self.parts(z3.simplify(m.at(y)))
            return out
        if is_z3str(whole.sort()):
            raise Unsupported("a run over the characters of a text")
        n = next((k for k in range(self.unroll + 1) if self.branch(z3.Length(whole) == k)), None)
        if n is None:
            raise PathEnd()
        sort = whole.sort()
        xs = [self.fresh("el", sort.basis()) for _ in range(n)]
        self.assume(whole == concat(empty(sort), *[z3.Unit(x) for x in xs]))
        for x in xs:
            self.elem_assume(whole, x)
        return xs

    def parts(self, e):
        """the elements of what a map makes of one element"""
        if T.is_empty_term(e):
            return []
        k = e.decl().kind()
        if k == z3.Z3_OP_SEQ_UNIT:
            return [e.arg(0)]
        if k == z3.Z3_OP_SEQ_CONCAT:
            return [p for c in e.children() for p in self.parts(c)]
        if k == z3.Z3_OP_ITE:
            return self.parts(e.arg(1) if self.branch(e.arg(0)) else e.arg(2))
        return self.split_elements(e)

    def unrolled(self, node, frame, it, whole, codec, rng, element):
        """a loop over at most `unroll` elements, run as it stands"""
        if whole is None:
            n = next((k for k in range(self.unroll + 1) if self.branch(rng[1] - rng[0] <= k)), None)
            if n is None:
                raise PathEnd()
            xs = [None] * n
        else:
            xs = self.split_elements(whole, codec)
        units = [z3.Unit(x) for x in xs] if whole is not None else []
        for k, x in enumerate(xs):
            if it is not None:
                self.mut(it, ("seq", codec, concat(empty(whole.sort()), *units[k + 1 :])))
            i = z3.IntVal(k) if rng is None else z3.simplify(rng[0] + k)
            p = concat(empty(whole.sort()), *units[:k]) if whole is not None else None
            self.assign(node.target, element(p, x, i), frame)
            try:
                self.exec_block(node.body, frame)
            except BreakE:
                return
            except ContinueE:
                continue
        if it is not None:
            self.mut(it, ("items", ()))
        self.exec_block(node.orelse, frame)

    def s_While(self, node, frame):
        # concrete conditions are unrolled, until the body has taken decisions of its own twice
        n = forks = 0
        while True:
            j = len(self.journal)
            c = self.truth_term(self.eval(node.test, frame))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                c = True if z3.is_true(c) else False if z3.is_false(c) else c
            if not isinstance(c, bool):
                if self.unroll is None:
                    break
                if n > self.unroll + 1:
                    raise PathEnd()
                c = self.branch(c)
            if not c:
                self.exec_block(node.orelse, frame)
                return
            n += 1
            if n > UNROLL * 4 or (forks >= 2 and self.unroll is None):
                break
            p0 = self.pos
            try:
                self.exec_block(node.body, frame)
            except BreakE:
                return
            except ContinueE:
                pass
            forks += self.pos > p0
        if len(self.journal) != j:
            raise Unsupported("loop condition with side effects")

        def mk(tag):
            return Ghost(None, None, None, self.fresh("iter", z3.IntSort()), None, None)

        def z():
            return Ghost(None, None, None, z3.IntVal(0), None, None)

        def cond():
            return self.truth(self.eval(node.test, frame))

        self._cut(node, frame, mk, z, lambda g: Ghost(None, None, None, g.i + 1, None, None), lambda: None,
                  lambda g: None, lambda: self.exec_block(node.body, frame), node.orelse, None, cond, None)

    def _locs(self, changed):
        """locations changed, from _post data"""
        locs = {}
        for obj, old, new in changed.values():
            if isinstance(obj, (Frame, PyObj)):
                for k in set(old) | set(new):
                    if old.get(k, MISSING) is not new.get(k, MISSING):
                        locs[(id(obj), k)] = (obj, k)
            else:
                locs[(id(obj), None)] = (obj, None)
        return locs

    def _get(self, loc):
        obj, k = loc
        return obj.state.get(k, MISSING) if k is not None else obj.state

    def _set(self, loc, v):
        obj, k = loc
        if k is None:
            self.mut(obj, v)
        else:
            st = dict(obj.state)
            if v is MISSING:
                st.pop(k, None)
            else:
                st[k] = v
            self.mut(obj, st)

    def _join_kind(self, a, b):
        """abstract type that covers values a and b, or None"""
        if a is MISSING or isinstance(a, Undef) or isinstance(b, Undef) or b is MISSING:
            return None
        if isinstance(a, tuple) and a and a[0] in ("items", "seq") and isinstance(b, tuple) and b and b[0] in ("items", "seq"):
            if a == ("items", ()):
                return ("state", self.elem_codec(b)) if b != a else ("state", VAL)
            if b == ("items", ()):
                return ("state", self.elem_codec(a))
            ea, eb = self.elem_codec(a), self.elem_codec(b)
            return ("state", join_codec(ea, eb))
        if isinstance(a, PyList) and isinstance(b, PyList):
            k = self._join_kind(a.state, b.state)
            return ("list", k[1]) if k else None
        if isinstance(a, PySet) and isinstance(b, PySet):
            k = self._join_kind(a.state, b.state)
            return ("set", k[1]) if k else None
        if isinstance(a, (Sym,) + CONC) and isinstance(b, (Sym,) + CONC):
            ka, kb = self.codec_of(a), self.codec_of(b)
            return ("sym", ka if ka is kb else VAL)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            ks = [self._join_kind(x, y) for x, y in zip(a, b)]
            if all(ks):
                return ("tup", ks)
        if a is b:
            return ("same", a)
        if isinstance(a, PyObj) and isinstance(b, PyObj) and "abstract" in self.models:
            # an object that stands for a value: what it means is all that is kept of it
            known = self.abstract_sorts
            ta, tb = (known[id(o)][1] if id(o) in known else getattr(self.models["abstract"][0](o), "sort", lambda: None)() for o in (a, b))
            if ta is not None and ta == tb:
                return ("obj", ta)
        if _is_ba(a) and _is_ba(b):
            return ("bytearray", BYTES)
        return None

    def _join_map(self, a, b):
        """an abstract dictionary that covers two dictionary states"""
        ks, vs = [], []
        for st in (a, b):
            if is_mapst(st):
                ks.append(st[1])
                vs.append(st[2])
            else:
                ks += [self.codec_of(k) for k, _ in st]
                for _, v in st:
                    if isinstance(v, (PyList, PyDict, PySet, PyObj)):
                        return None
                    vs.append(self.codec_of(v))
        if not ks:
            return None
        kc = ks[0] if all(k is ks[0] for k in ks) else VAL
        vc = vs[0] if all(v is vs[0] for v in vs) else VAL
        return ("dict", kc, vc)

    def map_terms(self, st, kc, vc):
        """(has, val) arrays of a dictionary state"""
        if is_mapst(st):
            return st[3], st[4]
        has = z3.K(kc.sort, z3.BoolVal(False))
        val = z3.Const(f"noval_{kc}_{vc}", z3.ArraySort(kc.sort, vc.sort))
        for k, v in st:
            kt = self.term(k, kc)
            has, val = z3.Store(has, kt, True), z3.Store(val, kt, self.term(v, vc))
        return has, val

    def _havoc_value(self, kind, name):
        if kind is None:
            return UNDEF
        if kind[0] == "sym":
            return Sym(kind[1], self.fresh(f"h_{name}", kind[1].sort))
        if kind[0] in ("state", "list", "set"):
            st = ("seq", kind[1], self.fresh(f"h_{name}", z3.SeqSort(kind[1].sort)))
            return st if kind[0] == "state" else PyList(st) if kind[0] == "list" else PySet(st)
        if kind[0] == "tup":
            return tuple(self._havoc_value(k, name) for k in kind[1])
        if kind[0] == "same":
            return kind[1]
        if kind[0] == "obj":
            return self.models["abstract"][1](self.fresh(f"h_{name}", kind[1]))
        if kind[0] == "bytearray":
            o = PyObj(External("bytearray"))
            o.state = {"data": Sym(BYTES, self.fresh(f"h_{name}", z3.StringSort()))}
            return o
        if kind[0] == "dict":
            return ("map", kind[1], kind[2], self.fresh(f"h_{name}_has", z3.ArraySort(kind[1].sort, z3.BoolSort())),
                    self.fresh(f"h_{name}_val", z3.ArraySort(kind[1].sort, kind[2].sort)))
        if kind[0] == "map":
            return kind[1](name)

    abstract_sorts = {}

    def _cut(self, node, frame, mk, at_start, at_next, at_end, bind, body, orelse, it, cond, codec):
        M = {}  # lockey -> (loc, kind)
        quiet0 = self.quiet
        heapmod = [False]

        def join(loc, a, b):
            if isinstance(loc[0], PyDict) and loc[1] is None:
                return self._join_map(a, b)
            return self._join_kind(a, b)

        def havoc():
            for key, (loc, kind) in M.items():
                v = self._havoc_value(kind, str(loc[1] or type(loc[0]).__name__))
                self._set(loc, v)
            if heapmod[0]:
                self.DICT = self.fresh("DICT", self.DICT.sort())
                self.HAS = self.fresh("HAS", self.HAS.sort())

        def step():
            havoc()
            if cond is not None:
                if not cond():
                    raise PathEnd()
            g = mk("step")
            step.g = g
            step.pre = {k: self._get(loc) for k, (loc, kind) in M.items()}
            bind(g)
            try:
                body()
            except ContinueE:
                pass
            if "abstract" in self.models:
                # what the objects mean is asked before their states are undone
                for o in frame.state.values():
                    if isinstance(o, PyObj):
                        t = self.models["abstract"][0](o)
                        if t is not None:
                            self.abstract_sorts[id(o)] = (o, t.sort())
            d = self.DICT
            if not (d.eq(step_heap[0])) and not heapmod[0]:
                heapmod[0] = True
                step.grew = True
            return g, dict(step.pre), {k: self._get(loc) for k, (loc, kind) in M.items()}

        self.quiet += 1
        self.proved_in_quiet = False
        pre_state = {}
        outs = None
        try:
            for rnd in range(6):
                step_heap = [self.DICT]
                step.grew = False
                base = self.fresh_n
                outs = self.sub_explore(step)
                grew = step.grew
                for conds, o, facts, ch in outs:
                    for key, loc in self._locs(ch).items():
                        if it is not None and loc[0] is it:
                            continue
                        newv = (ch[id(loc[0])][2].get(loc[1], MISSING) if loc[1] is not None else ch[id(loc[0])][2])
                        old = self._get(loc)
                        if key not in M:
                            kind = join(loc, old, newv)
                            h = self.hint_kind(node, frame, loc, old, newv)
                            M[key] = (loc, h or kind)
                            grew = True
                        else:
                            k0 = M[key][1]
                            if o[0] in ("ok", "continue") and k0 is not None and k0[0] != "map":
                                nk = join(loc, old, newv)
                                if nk != k0 and not self._kind_eq(nk, k0):
                                    k2 = nk if nk is None else self._widen(k0, nk)
                                    if k2 != k0 and not self._kind_eq(k2, k0):
                                        M[key] = (loc, k2)
                                        grew = True
                if not grew:
                    break
            else:
                raise Unsupported("loop state did not stabilise")
        finally:
            self.quiet = quiet0

        cands = self._candidates(node, frame, M, outs, base, codec, cond)
        exit_outs = [o for o in outs if o[1][0] not in ("ok", "continue")]

        # a pure search loop: no state changes besides temporaries
        temps_only = all(kind is None for loc, kind in M.values()) and not heapmod[0]
        if temps_only and cond is None and codec is not None and exit_outs and it is None:
            e = self._exit_filter(outs, base)
            if e is not None:
                whole = at_end().p
                hit = apply_cmap(e, whole)
                if not self.branch(z3.Length(hit) > 0):
                    havoc()
                    self.exec_block(orelse, frame)
                    return
                g = at_end()
                x = hit[0] if not is_z3str(hit.sort()) else None
                if x is not None:
                    x = z3.simplify(x)
                    self.assume(z3.Contains(whole, z3.Unit(x)))
                    self.assume(z3.substitute(guard_form(e.body, e.x), (e.x, x)))
                    pfx = self.fresh("pre", whole.sort())
                    g2 = Ghost(pfx, x, None, z3.Length(pfx), g.rng, whole)
                    bind(g2)
                    try:
                        body()
                    except ContinueE:
                        raise PathEnd()
                    except BreakE:
                        return
                    raise PathEnd()

        # Houdini
        g0 = at_start()
        live = []
        for name, f in cands:
            try:
                ok = self.entails(f(g0))[0] == z3.unsat
            except Unsupported:
                ok = False
            if ok:
                live.append((name, f))
        while live:
            bad = set()

            def run():
                havoc()
                g = None
                pg = mk("inv")
                for name, f in live:
                    self.assume(f(pg))
                if cond is not None and not cond():
                    raise PathEnd()
                bind(pg)
                try:
                    body()
                except ContinueE:
                    pass
                ng = at_next(pg)
                for name, f in live:
                    if name in bad:
                        continue
                    try:
                        if self.entails(f(ng), timeout=4000)[0] != z3.unsat:
                            bad.add(name)
                    except Unsupported:
                        bad.add(name)

            self.quiet += 1
            try:
                self.sub_explore(run)
            finally:
                self.quiet = quiet0
            if not bad:
                break
            live = [(n, f) for n, f in live if n not in bad]
        self.loop_report = getattr(self, "loop_report", {})
        self.loop_report[(frame.module, node.lineno)] = [n for n, _ in live]

        # obligations inside the body
        if not quiet0:
            def run2():
                havoc()
                pg = mk("body")
                for name, f in live:
                    self.assume(f(pg))
                if cond is not None and not cond():
                    raise PathEnd()
                bind(pg)
                try:
                    body()
                except ContinueE:
                    pass
            if self.body_has_obligations(node):
                self.sub_explore(run2)

        if exit_outs and not self.choose("loop_exhausted"):
            havoc()
            pg = mk("exit")
            for name, f in live:
                self.assume(f(pg))
            if cond is not None and not cond():
                raise PathEnd()
            bind(pg)
            try:
                q = self.quiet
                self.quiet = q + 1 if self.body_has_obligations(node) else q
                try:
                    body()
                finally:
                    self.quiet = q
            except ContinueE:
                raise PathEnd()
            except BreakE:
                return
            raise PathEnd()
        havoc()
        if cond is not None:
            pg = mk("end")
            for name, f in live:
                self.assume(f(pg))
            if cond():
                raise PathEnd()
        else:
            pg = at_end()
            for name, f in live:
                self.assume(f(pg))
            if it is not None:
                self.mut(it, ("items", ()))
        self.exec_block(orelse, frame)

    def body_has_obligations(self, node):
        return bool(self.models.get("loop_obligations"))

    def _kind_eq(self, a, b):
        if a is None or b is None:
            return a is b
        if a[0] != b[0]:
            return False
        if a[0] == "tup":
            return len(a[1]) == len(b[1]) and all(self._kind_eq(x, y) for x, y in zip(a[1], b[1]))
        return all(x is y for x, y in zip(a[1:], b[1:])) if a[0] != "obj" else a[1] == b[1]

    def _widen(self, a, b):
        if a is None or b is None or a[0] != b[0]:
            return None
        if a[0] in ("sym", "list", "set", "state"):
            return (a[0], join_codec(a[1], b[1]))
        if a[0] in ("bytearray", "obj"):
            return a if a[0] == "bytearray" or a[1] == b[1] else None
        if a[0] == "tup" and len(a[1]) == len(b[1]):
            ks = [self._widen(x, y) for x, y in zip(a[1], b[1])]
            return ("tup", ks) if all(ks) else None
        if a[0] == "dict":
            return ("dict", a[1] if a[1] is b[1] else VAL, a[2] if a[2] is b[2] else VAL)
        return None

    def hint_kind(self, node, frame, loc, old, new):
        h = self.models.get("loop_kind")
        return h(self, node, frame, loc, old, new) if h else None

    def _exit_filter(self, outs, base):
        es = []
        x = None
        for conds, o, facts, ch in outs:
            if o[0] in ("ok", "continue"):
                continue
            es.append(z3.And(*conds) if conds else z3.BoolVal(True))
        gx = self._last_x(outs)
        if gx is None:
            return None
        e = z3.simplify(z3.Or(*[self._unify_x(c, gx) for c in es]))
        if not self.closed(e, base, allowed=(str(gx),)):
            return None
        return cmap(gx, z3.If(e, z3.Unit(gx), empty(z3.SeqSort(gx.sort()))))

    def _last_x(self, outs):
        """the generic element of the last exploration, unified over its paths"""
        return getattr(self, "_unified_x", None)

    def _unify_x(self, c, gx):
        subs = [
            (z3.Const(n, gx.sort()), gx)
            for n in consts_of(c)
            if n.startswith("x!") and n != str(gx)
        ]
        subs = []
        for n in consts_of(c):
            if n.startswith("x!") and n != str(gx):
                subs.append((z3.Const(n, gx.sort()), gx))
        return z3.substitute(c, *subs) if subs else c

    def _candidates(self, node, frame, M, outs, base, codec, cond):
        cands = []
        self._unified_x = None
        if codec is not None:
            # paths each made their own ghosts; rename the elements to one
            self._unified_x = z3.Const(f"gx_{codec.sort}", codec.sort)
        nxt = [o for o in outs if o[1][0] == "ok"]
        pre = {k: self._get(loc) for k, (loc, kind) in M.items()}

        for key, (loc, kind) in M.items():
            if kind is None:
                continue
            nm = f"{loc[1] or type(loc[0]).__name__}"
            if kind[0] in ("state", "list"):
                self._cand_list(cands, nm, key, loc, kind, nxt, pre, base, codec)
            elif kind[0] == "sym" and kind[1] is BOOL and codec is not None:
                self._cand_eqold(cands, nm, loc, kind, pre[key])
                self._cand_flag(cands, nm, key, loc, nxt, pre, base)
            elif kind[0] == "sym" and kind[1] is INT:
                self._cand_int(cands, nm, key, loc, kind, nxt, pre, base, codec)
            elif kind[0] == "sym":
                self._cand_eqold(cands, nm, loc, kind, pre[key])
        if codec is not None:
            e = self._exit_filter(outs, base)
            if e is not None and any(o[1][0] not in ("ok", "continue") for o in outs):
                cands.append((f"no earlier element leaves the loop", lambda g, e=e: z3.Length(apply_cmap(e, g.p)) == 0))
        self._cand_index_exits(cands, outs)
        if self.only_templates:
            cands = []
        view = LoopView(self, node, frame, M, pre, codec)
        for tpl in self.loop_templates:
            for name, f in tpl(self, view):
                cands.append((name, f))
        names = {}
        for i, (name, f) in enumerate(cands):
            names[name] = names.get(name, 0) + 1
            if names[name] > 1:
                cands[i] = (f"{name} #{names[name]}", f)
        return cands

    def _cand_index_exits(self, cands, outs):
        """leaving when the index meets a bound: the bound is not among the earlier indices"""
        seen = set()
        for conds, o, facts, ch in outs:
            if o[0] in ("ok", "continue"):
                continue
            for c in conds:
                for n in consts_of(c):
                    if n.startswith("pre!"):
                        srt = [u for u in self._subterms(c) if z3.is_const(u) and str(u) == n]
                        idx = z3.Length(srt[0])
                    elif n.startswith("i!"):
                        idx = z3.Const(n, z3.IntSort())
                    else:
                        continue
                    for a in self._subterms(c):
                        if not z3.is_eq(a) or a.arg(0).sort() != z3.IntSort():
                            continue
                        d = a.arg(0) - a.arg(1)
                        d0 = z3.simplify(z3.substitute(z3.simplify(d), (idx, z3.IntVal(0))))
                        d1 = z3.simplify(z3.substitute(z3.simplify(d), (idx, z3.IntVal(1))))
                        k = z3.simplify(d1 - d0)
                        if not z3.is_int_value(k) or abs(k.as_long()) != 1:
                            continue
                        e = z3.simplify(-d0 if k.as_long() == 1 else d0)
                        if any(m.startswith(("pre!", "x!", "h_")) for m in consts_of(e)):
                            continue
                        if e.sexpr() in seen:
                            continue
                        seen.add(e.sexpr())
                        cands.append((f"index has not met {e}", lambda g, e=e: z3.Or(e < 0, e >= g.i)))

    def _subterms(self, t):
        out, seen, stack = [], set(), [t]
        while stack:
            u = stack.pop()
            if u.get_id() in seen or z3.is_quantifier(u):
                continue
            seen.add(u.get_id())
            out.append(u)
            stack.extend(u.children())
        return out

    def _elem_x(self, g):
        return g.x

    def _resolve(self, t, facts):
        """a constant made by an inner loop, by the equation the loop's invariant gives for it"""
        for _ in range(4):
            head = t.arg(0) if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) else t
            if not (z3.is_const(head) and head.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(head).startswith("h_")):
                return t
            for f in facts:
                for e in (f.children() if z3.is_and(f) else [f]):
                    if z3.is_eq(e) and any(e.arg(i).eq(head) for i in (0, 1)):
                        o = e.arg(1) if e.arg(0).eq(head) else e.arg(0)
                        if str(head) not in consts_of(o):
                            n = o if head is t else concat(empty(t.sort()), o, *t.children()[1:])
                            n = z3.simplify(n)
                            break
                else:
                    continue
                break
            else:
                return t
            t = n
        return t

    def _cand_list(self, cands, nm, key, loc, kind, nxt, pre, base, codec):
        ec = kind[1]
        old0 = pre[key]
        if isinstance(old0, PyList):
            old0 = old0.state
        try:
            t0 = self.seq_term(old0, ec)
        except Unsupported:
            return

        def cur():
            v = self._get(loc)
            if isinstance(v, PyList):
                v = v.state
            return self.seq_term(v, ec)

        cands.append((f"{nm} unchanged", lambda g: cur() == t0))
        if codec is None:
            return
        deltas = []
        gx = self._unified_x
        for conds, o, facts, ch in nxt:
            g, before, after = o[1]
            b, a = before.get(key), after.get(key)
            if isinstance(b, PyList):
                b = b.state
            if isinstance(a, PyList):
                a = a.state
            try:
                bt, at = self.seq_term(b, ec), self.seq_term(a, ec)
            except (Unsupported, TypeError):
                return
            at = self._resolve(z3.simplify(at), list(facts) + list(conds))
            if at.eq(bt):
                d = empty(bt.sort())
            elif z3.is_app_of(at, z3.Z3_OP_SEQ_CONCAT) and at.arg(0).eq(bt):
                ch2 = at.children()[1:]
                d = concat(empty(bt.sort()), *ch2)
            else:
                return
            sub = [(g.x, gx)] if g.x is not None else []
            cs = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            deltas.append((z3.substitute(cs, *sub), z3.substitute(d, *sub), g))
        if not deltas:
            return
        ok = (str(gx),)
        if all(self.closed(d, base, ok) for c, d, g in deltas):
            if all(self.closed(c, base, ok) for c, d, g in deltas):
                body = deltas[-1][1]
                for c, d, g in deltas[:-1]:
                    body = z3.If(c, d, body)
                m = cmap(gx, body)
                cands.append((f"{nm} == old ++ map(done)", lambda g, m=m: cur() == concat(t0, apply_cmap(m, g.p))))
            if all(d.eq(deltas[0][1]) for c, d, g in deltas):
                m = cmap(gx, deltas[0][1])
                cands.append((f"{nm} == old ++ mapall(done)", lambda g, m=m: cur() == concat(t0, apply_cmap(m, g.p))))

    def _cand_flag(self, cands, nm, key, loc, nxt, pre, base):
        """a flag that some elements set"""
        gx = self._unified_x
        sets = []
        for conds, o, facts, ch in nxt:
            g, before, after = o[1]
            b, a = before.get(key), after.get(key)
            if isinstance(a, bool):
                v = a
            elif isinstance(a, Sym) and isinstance(b, Sym) and a.t.eq(b.t):
                continue
            else:
                return
            if not v:
                return
            c = z3.And(*conds) if conds else z3.BoolVal(True)
            sets.append(z3.simplify(z3.substitute(c, (g.x, gx))))
        if sets and len(sets) == len(nxt):
            sets = [z3.BoolVal(True)]  # every element does
        # what was branched on the flag itself is not a matter of the element
        if not sets or not all(self.closed(c, base, (str(gx),)) for c in sets):
            return
        m = cmap(gx, z3.If(z3.Or(*sets), z3.Unit(gx), empty(z3.SeqSort(gx.sort()))))
        t0 = self.term(pre[key], BOOL)
        cands.append((f"{nm} iff it was or some element set it",
                      lambda g: self.term(self._get(loc), BOOL) == z3.Or(t0, z3.Length(apply_cmap(m, g.p)) > 0)))

    def _cand_int(self, cands, nm, key, loc, kind, nxt, pre, base, codec):
        try:
            t0 = self.term(pre[key], INT)
        except Unsupported:
            return

        def cur():
            return self.term(self._get(loc), INT)

        cands.append((f"{nm} unchanged", lambda g: cur() == t0))
        gx = self._unified_x
        deltas = []
        for conds, o, facts, ch in nxt:
            g, before, after = o[1]
            try:
                d = z3.simplify(self.term(after[key], INT) - self.term(before[key], INT))
                d2 = z3.simplify(self.term(after[key], INT) - g.i)
            except (Unsupported, KeyError):
                return
            sub = [(g.x, gx)] if g.x is not None and gx is not None else []
            cs = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            deltas.append((z3.substitute(cs, *sub), z3.substitute(d, *sub), d2))
        if not deltas:
            return
        if all(z3.is_int_value(d) for c, d, _ in deltas):
            if all(d.eq(deltas[0][1]) for c, d, _ in deltas):
                c = deltas[0][1]
                cands.append((f"{nm} == old + {c}*done", lambda g, c=c: cur() == t0 + c * (g.i if g.rng is None else g.i - g.rng[0])))
            elif gx is not None and all(d.as_long() in (0, 1) for c, d, _ in deltas) and all(
                self.closed(c, base, (str(gx),)) for c, d, _ in deltas
            ):
                e = z3.Or(*[c for c, d, _ in deltas if d.as_long() == 1])
                m = cmap(gx, z3.If(e, z3.Unit(gx), empty(z3.SeqSort(gx.sort()))))
                cands.append((f"{nm} == old + count(done)", lambda g, m=m: cur() == t0 + z3.Length(apply_cmap(m, g.p))))
        if all(z3.is_int_value(d2) for c, d, d2 in deltas) and all(d2.eq(deltas[0][2]) for c, d, d2 in deltas):
            # an index variable set from the position
            c = deltas[0][2]
            cands.append((f"{nm} == position", lambda g, c=c: z3.Implies(g.i > 0, cur() == g.i - 1 + c)))

    def _cand_eqold(self, cands, nm, loc, kind, old):
        try:
            t0 = self.term(old, kind[1])
        except Unsupported:
            return
        cands.append((f"{nm} unchanged", lambda g: self.term(self._get(loc), kind[1]) == t0))

    # ================================================================ statements
    def exec_block(self, body, frame):
        for st in body:
            m = getattr(self, "s_" + type(st).__name__, None)
            if m is None:
                raise Unsupported(f"statement {type(st).__name__} (line {st.lineno})")
            m(st, frame)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.assign(t, self.augop(st.op, cur, self.eval(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, t.attr, self.augop(st.op, self.getattr(o, t.attr), self.eval(st.value, fr)))
        else:
            o, i = self.eval(t.value, fr), self.eval_index(t.slice, fr)
            self.setitem(o, i, self.augop(st.op, self.getitem(o, i), self.eval(st.value, fr)))

    def augop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, PyList):
            self.method(a, "extend").fn.fn(self, [a, b], {})
            return a
        return self.binop(op, a, b)

    def s_Return(self, st, fr):
        raise ReturnE(self.eval(st.value, fr) if st.value is not None else None)

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def s_Break(self, st, fr):
        raise BreakE()

    def s_Continue(self, st, fr):
        raise ContinueE()

    def s_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_FunctionDef(self, st, fr):
        self.setvar(fr, st.name, self.make_function(st, fr, fr.module))

    def s_ClassDef(self, st, fr):
        self.setvar(fr, st.name, ClassInfo(self, st, fr.module, fr))

    def s_Import(self, st, fr):
        for a in st.names:
            self.setvar(fr, a.asname or a.name.split(".")[0], self.import_module(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            self.setvar(fr, a.asname or a.name, self.import_from(st, a.name, fr.module))

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyExc(AssertionError, ())

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                s = dict(fr.state)
                s.pop(t.id, None)
                self.mut(fr, s)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval_index(t.slice, fr))
            else:
                raise Unsupported("del")

    def s_Raise(self, st, fr):
        if st.exc is None:
            e = getattr(self, "handling", None)
            if e:
                raise e[-1]
            raise Unsupported("bare raise")
        v = self.eval(st.exc, fr)
        raise self.as_exc(v)

    def as_exc(self, v):
        if isinstance(v, PyObj):
            e = PyExc(v.cls, v.state.get("args", ()))
            e.obj = v
            return e
        return PyExc(v, ())

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        c = e.cls
        tn = t.__name__ if isinstance(t, type) else getattr(t, "name", None) or getattr(t, "q", "?").split(".")[-1]
        if isinstance(c, type):
            if isinstance(t, type):
                return issubclass(c, t)
            return c.__name__ == tn
        if isinstance(c, ClassInfo):
            names = c.mro_names(self)
            if isinstance(t, type):
                for n in names:
                    b = getattr(builtins, n, None)
                    if isinstance(b, type) and issubclass(b, t):
                        return True
                return False
            return tn in names
        # opaque exception: any kind, but the same one each time
        if getattr(e, "obj", None) is None:
            e.obj = PyObj(c, {"args": tuple(e.eargs)})
        return self.exc_kind(e.obj, t, tn)

    def exc_kind(self, obj, t, tn=None):
        """is an exception of which nothing is known of this class"""
        if isinstance(t, type) and t in (Exception, BaseException, object):
            return True
        if isinstance(t, type) and not issubclass(t, Exception):
            return False
        tn = tn or (t.__name__ if isinstance(t, type) else getattr(t, "name", None) or getattr(t, "q", "?").split(".")[-1])
        kinds = obj.state.setdefault("__kinds__", {})
        for other, is_one in kinds.values():
            if isinstance(t, type) and isinstance(other, type):
                if is_one and issubclass(other, t):
                    return True
                if not is_one and issubclass(t, other):
                    return False
        if tn not in kinds:
            kinds[tn] = (t, self.choose("exc_is_" + tn))
        return kinds[tn][1]

    def s_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type, fr)):
                        if h.name:
                            o = getattr(e, "obj", None) or PyObj(e.cls, {"args": tuple(e.eargs)})
                            self.setvar(fr, h.name, o)
                        hs = getattr(self, "handling", [])
                        self.handling = hs + [e]
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.handling = hs
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        except (PyExc, ReturnE, BreakE, ContinueE):
            self.exec_block(st.finalbody, fr)
            raise
        else:
            self.exec_block(st.finalbody, fr)

    def s_With(self, st, fr):
        cms = []
        for item in st.items:
            cm = self.eval(item.context_expr, fr)
            v = self.enter(cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            cms.append(cm)
        try:
            self.exec_block(st.body, fr)
        except (PyExc, ReturnE, BreakE, ContinueE):
            for cm in reversed(cms):
                self.leave(cm)
            raise
        for cm in reversed(cms):
            self.leave(cm)

    def enter(self, cm):
        if isinstance(cm, NullSink):
            return NULL
        return self.call(self.getattr(cm, "__enter__"), [], {})

    def leave(self, cm):
        if isinstance(cm, NullSink):
            return
        self.call(self.getattr(cm, "__exit__"), [None, None, None], {})

    # ================================================================ expressions
    def eval(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} (line {getattr(n, 'lineno', '?')})")
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Tuple(self, n, fr):
        return tuple(self.star_items(n.elts, fr))

    def star_items(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                st = self.iter_state(self.eval(e.value, fr))
                if st[0] != "items":
                    raise Unsupported("star of a symbolic sequence")
                out.extend(st[1])
            else:
                out.append(self.eval(e, fr))
        return out

    def e_List(self, n, fr):
        return PyList(("items", tuple(self.star_items(n.elts, fr))))

    def e_Set(self, n, fr):
        return PySet(("items", tuple(self.star_items(n.elts, fr))))

    def e_Dict(self, n, fr):
        d = PyDict(())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, fr)
                if not isinstance(o, PyDict):
                    raise Unsupported("** of symbolic dict")
                for kk, vv in o.state:
                    self.setitem(d, kk, vv)
            else:
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d

    def e_Lambda(self, n, fr):
        return self.make_function(n, fr, fr.module)

    def e_IfExp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_BoolOp(self, n, fr):
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v
            if isinstance(n.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else self.wrapb(z3.Not(t))
        if conc(v) and not isinstance(v, str):
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.inv}[type(n.op)](v)
        if isinstance(v, Sym) and isinstance(n.op, ast.USub):
            return Sym(v.k, -v.t)
        raise Unsupported("unary operator")

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(n.op, a, b)

    OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
           ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.BitXor: operator.xor,
           ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.Pow: operator.pow,
           ast.LShift: operator.lshift, ast.RShift: operator.rshift}

    def binop(self, op, a, b):
        a, b = self.narrow(a), self.narrow(b)
        if conc(a) and conc(b):
            try:
                return self.lift(self.OPS[type(op)](a, b))
            except Exception as e:
                raise PyExc(type(e), e.args)
        h = self.models.get(f"op:{type(op).__name__}")
        if h is not None:
            r = h(self, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, PyObj) or isinstance(b, PyObj):
            for o, nm in ((a, ""), (b, "r")):
                q = getattr(getattr(o, "cls", None), "q", None)
                if q:
                    h = self.models.get(f"{nm}op:{q}.{type(op).__name__}")
                    if h:
                        return h(self, a, b)
            raise Unsupported(f"operator {type(op).__name__} on objects")
        num = (INT, BOOL, REAL)
        if isinstance(a, (Sym,) + CONC) and isinstance(b, (Sym,) + CONC):
            ka, kb = self.codec_of(a), self.codec_of(b)
            if ka in num and kb in num:
                k = REAL if REAL in (ka, kb) else INT
                x, y = self.num(a, k), self.num(b, k)
                if isinstance(op, ast.Add):
                    return Sym(k, z3.simplify(x + y))
                if isinstance(op, ast.Sub):
                    return Sym(k, z3.simplify(x - y))
                if isinstance(op, ast.Mult):
                    return Sym(k, x * y)
                if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Div)):
                    if self.branch(y == 0):
                        raise PyExc(ZeroDivisionError, ())
                    if isinstance(op, ast.Div):
                        return Sym(REAL, self.num(a, REAL) / self.num(b, REAL))
                    if k is INT and not self.branch(y > 0):
                        raise Unsupported("division by a negative number")
                    if k is INT:
                        return Sym(INT, x / y if isinstance(op, ast.FloorDiv) else x % y)
                    if isinstance(op, ast.FloorDiv):
                        return Sym(REAL, z3.ToReal(z3.ToInt(x / y)))
                if isinstance(op, ast.BitXor) and k is INT:
                    return Sym(INT, z3.Function("xor", z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y))
            if isinstance(op, ast.Add) and ka is kb and ka in (STR, BYTES):
                return Sym(ka, concat(self.term(a, ka), self.term(b, ka)))
            if isinstance(op, (ast.Add, ast.Sub)) and (ka in (STR, BYTES) or kb in (STR, BYTES) or a is None or b is None):
                raise PyExc(TypeError, ("operand types",))
        if isinstance(op, ast.Mult):
            if isinstance(b, (str, Sym)) and self.codec_of(b) is STR:
                a, b = b, a
            if isinstance(a, (str, Sym)) and self.codec_of(a) is STR and isinstance(b, (int, Sym)) and self.codec_of(b) in (INT, BOOL):
                return Sym(STR, z3.Function("repeated", z3.StringSort(), z3.IntSort(), z3.StringSort())(self.term(a, STR), self.num(b, INT)))
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PyList) and isinstance(b, PyList):
                return PyList(self.cat_states(a.state, b.state))
        if isinstance(a, PySet) and isinstance(b, PySet):
            if isinstance(op, ast.BitOr):
                return PySet(self.cat_states(a.state, b.state))
            if isinstance(op, (ast.Sub, ast.BitAnd)):
                want = isinstance(op, ast.BitAnd)
                return PySet(self.filter_state(a.state, lambda x: self.contains(b, x), want))
        raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")

    def cat_states(self, a, b):
        if a[0] == "items" and b[0] == "items":
            return ("items", a[1] + b[1])
        if a[0] == "items" and not a[1]:
            return b
        if b[0] == "items" and not b[1]:
            return a
        ea, eb = self.elem_codec(a), self.elem_codec(b)
        e = join_codec(ea, eb)
        return ("seq", e, concat(self.seq_term(a, e), self.seq_term(b, e)))

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                if isinstance(res, bool):
                    res = c if res else False
                elif isinstance(c, bool):
                    res = res if c else False
                else:
                    res = z3.And(res, c)
            if len(n.ops) > 1 and res is False:
                return False
            left = right
        return self.wrapb(res)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq_term(a, b)
            if isinstance(op, ast.NotEq):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = self.eq_term(a, b)
            elif isinstance(a, bool) or isinstance(b, bool):
                r = self.eq_term(a, b)
                o = b if isinstance(a, bool) else a
                if not (isinstance(o, bool) or (isinstance(o, Sym) and o.k in (BOOL, VAL))):
                    r = False
            elif isinstance(a, Heap) and isinstance(b, Heap):
                r = a is b
            elif isinstance(a, (TypeOf, type, Builtin, ClassInfo)) or isinstance(b, (TypeOf, type, Builtin, ClassInfo)):
                r = self.eq_term(a, b)
            else:
                raise Unsupported("the identity of unknown values")
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        return self.order(op, a, b)

    def order(self, op, a, b):
        a, b = self.narrow(a), self.narrow(b)
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        if conc(a) and conc(b):
            try:
                return f(a, b)
            except TypeError as e:
                raise PyExc(TypeError, e.args)
        for o in (a, b):
            q = getattr(getattr(o, "cls", None), "q", None) if isinstance(o, PyObj) else None
            if q:
                h = self.models.get(f"order:{q}")
                if h:
                    return h(self, f, a, b)
        num = (INT, BOOL, REAL)
        if isinstance(a, (Sym,) + CONC) and isinstance(b, (Sym,) + CONC):
            ka, kb = self.codec_of(a), self.codec_of(b)
            if ka in num and kb in num:
                k = REAL if REAL in (ka, kb) else INT
                return f(self.num(a, k), self.num(b, k))
            if ka is kb and ka in (STR, BYTES):
                x, y = self.term(a, ka), self.term(b, ka)
                if f is operator.lt:
                    return x < y
                if f is operator.le:
                    return x <= y
                if f is operator.gt:
                    return y < x
                return y <= x
            if not (isinstance(a, Sym) and a.k is VAL) and not (isinstance(b, Sym) and b.k is VAL):
                raise PyExc(TypeError, ("not ordered",))
        raise Unsupported(f"ordering of {a!r} and {b!r}")

    def contains(self, c, x):
        """x in c: Python bool or z3 Bool"""
        if isinstance(c, Sym) and c.k is VAL:
            n = self.narrow(c)
            if isinstance(n, Sym) and n.k is VAL:
                if self.branch(ISDICT(c.t)):
                    return z3.Select(z3.Select(self.HAS, self.orig(c.t)), self.to_V(x))
                raise PyExc(TypeError, ("not a container",))
            c = n
        if c is None or isinstance(c, (int, float)):
            raise PyExc(TypeError, ("not a container",))
        if isinstance(c, (str, bytes)) or (isinstance(c, Sym) and c.k in (STR, BYTES)):
            x = self.narrow(x)
            k = self.codec_of(c)
            if self.codec_of(x) is not k:
                raise PyExc(TypeError, ("in <string> requires string",))
            if conc(c) and conc(x):
                return x in c
            if conc(c) and z3.is_app_of(x.t, z3.Z3_OP_SEQ_UNIT) and len(c) > 8:
                return self.char_in(x.t.arg(0), c)
            cs, xs = (chars_of(self.term(c, k)), chars_of(self.term(x, k))) if k is STR else (None, None)
            if cs is not None and xs is not None and len(xs) == 1:
                return self._or([z3.simplify(ch == xs[0]) for ch in cs])
            if "str.contains" in self.models:
                return self.models["str.contains"](self, self.term(c, k), self.term(x, k))
            return z3.Contains(self.term(c, k), self.term(x, k))
        if isinstance(c, PySet) and c.state[0] == "seq" and z3.is_app(c.state[2]) and c.state[2].decl().eq(KEYS):
            # a key of a record (as it was when its keys were taken)
            src = c.state[2].arg(0)
            b = self.births.get(src.decl().name(), (self.HAS_AT_START,)) if z3.is_app(src) else None
            if b:
                return z3.Select(z3.Select(b[0], src), self.to_V(x))
        if isinstance(c, PyDict) and is_mapst(c.state):
            return z3.Select(c.state[3], self.term(x, c.state[1]))
        if isinstance(c, PyDict):
            rs = [self.eq_term(k, x) for k, _ in c.state]
            return self._or(rs)
        if isinstance(c, PyObj):
            q = getattr(c.cls, "q", None)
            h = self.models.get(f"contains:{q}")
            if h:
                return h(self, c, x)
            if isinstance(c.cls, ClassInfo):
                r = c.cls.lookup(self, "__contains__")
                if r:
                    return self.truth_term(self.call(Bound(c, r[0]), [x], {}))
        st = self.iter_state(c)
        if st[0] == "items":
            return self._or([self.eq_term(e, x) for e in st[1]])
        if st[0] == "seq":
            e = st[1]
            try:
                return z3.Contains(st[2], z3.Unit(self.term(x, e)))
            except Unsupported:
                return z3.Contains(self.seq_term(st, VAL), z3.Unit(self.to_V(x)))
        raise Unsupported("membership")

    def char_in(self, ch, s):
        """character class membership as ranges"""
        code = z3.CharToInt(ch) if hasattr(z3, "CharToInt") else ch.to_int()
        cs = sorted({ord(c) for c in s})
        rs, i = [], 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            rs.append(z3.And(code >= cs[i], code <= cs[j]))
            i = j + 1
        return z3.Or(*rs)

    def _or(self, rs):
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if not isinstance(r, bool)]
        if not rs:
            return False
        return z3.Or(*rs) if len(rs) > 1 else rs[0]

    # ------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        f = self.eval_callee(n.func, fr)
        if isinstance(f, NullSink):
            return NULL
        if isinstance(f, Builtin) and f.name in LAZY:
            return LAZY[f.name](self, n, fr)
        if isinstance(f, Builtin) and f.name == "builtins.super" or isinstance(f, Builtin) and f.name == "super":
            fx = fr
            while fx is not None and not (hasattr(fx, "fn") and fx.fn.cls is not None):
                fx = fx.parent
            if fx is None:
                raise Unsupported("super() outside a method")
            return SuperRef(fx.state[fx.fn.node.args.args[0].arg], fx.fn.cls)
        args = self.star_items(n.args, fr)
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, PyDict):
                    for kk, vv in v.state:
                        kwargs[kk] = vv
                elif isinstance(v, Sym) and v.k is VAL and not kwargs:
                    kwargs["**"] = v  # a mapping of any size, passed on whole
                else:
                    raise Unsupported("** of a symbolic mapping")
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def eval_callee(self, n, fr):
        return self.eval(n, fr)

    def e_Starred(self, n, fr):
        raise Unsupported("starred")

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, fr)
                spec = ""
                if p.format_spec is not None:
                    s = self.eval(p.format_spec, fr)
                    if not isinstance(s, str):
                        raise Unsupported("format spec")
                    spec = s
                parts.append(self.format(v, spec, p.conversion))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Sym(STR, concat(z3.StringVal(""), *[self.term(p, STR) for p in parts]))

    def format(self, v, spec, conv):
        if conv == 114:
            return self.repr_(v)
        if spec == "":
            return self.str_(v)
        if conc(v):
            return format(v, spec)
        v = self.narrow(v)
        if isinstance(v, Sym) and v.k is INT and spec == "02d":
            # two digits at least
            return Sym(STR, z3.If(z3.And(v.t >= 0, v.t < 10), z3.Concat(z3.StringVal("0"), self.term(self.str_(v), STR)), self.term(self.str_(v), STR)))
        if isinstance(v, Sym):
            return Sym(STR, z3.Function(f"format_{spec}", v.k.sort, z3.StringSort())(v.t))
        raise Unsupported("format")

    def str_(self, v):
        v = v if not (isinstance(v, Sym) and v.k is VAL) else v
        if conc(v) and not isinstance(v, tuple):
            return str(v)
        if isinstance(v, Sym):
            if v.k is STR:
                return v
            if v.k is INT:
                return Sym(STR, z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.t))))
            if v.k is VAL:
                t = v.t
                return Sym(STR, z3.If(V.is_str(t), V.s(t), z3.If(V.is_none(t), z3.StringVal("None"), STROF(t))))
            if v.k is BOOL:
                return Sym(STR, z3.If(v.t, z3.StringVal("True"), z3.StringVal("False")))
            return Sym(STR, STROF(self.to_V(v)))
        if isinstance(v, PyObj):
            q = getattr(v.cls, "q", None)
            h = self.models.get(f"str:{q}")
            if h:
                return h(self, v)
            if isinstance(v.cls, ClassInfo):
                r = v.cls.lookup(self, "__str__")
                if r:
                    return self.call(Bound(v, r[0]), [], {})
        if isinstance(v, (type, ClassInfo, External)):
            return f"<class '{getattr(v, '__name__', getattr(v, 'name', getattr(v, 'q', '?')))}'>"
        if isinstance(v, TypeOf):
            return Sym(STR, z3.Function("typestr", V, z3.StringSort())(self.to_V(v.v)))
        try:
            return Sym(STR, STROF(self.to_V(v)))
        except Unsupported:
            return Sym(STR, self.fresh("str", z3.StringSort()))

    def repr_(self, v):
        if conc(v):
            return repr(v)
        return Sym(STR, REPROF(self.to_V(v)))

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, fr):
        return PyList(self.comprehension(n, fr, lambda f: self.eval(n.elt, f)))

    def e_SetComp(self, n, fr):
        return PySet(self.comprehension(n, fr, lambda f: self.eval(n.elt, f)))

    def e_GeneratorExp(self, n, fr):
        it = self.eval(n.generators[0].iter, fr)  # evaluated at once, as in Python
        n2 = n
        def run():
            return PyList(self.comprehension(n2, fr, lambda f: self.eval(n.elt, f)))
        return PyGen(run)

    def e_DictComp(self, n, fr):
        st = self.comprehension(n, fr, lambda f: (self.eval(n.key, f), self.eval(n.value, f)))
        return self.dict_from_pairs(st)

    def dict_from_pairs(self, st):
        if st[0] == "items":
            d = PyDict(())
            for p in st[1]:
                k, v = self.unpack(p, 2)
                self.setitem(d, k, v)
            return d
        pc = tup_codec([VAL, VAL])
        if st[1] is not pc:
            x = z3.Const("pairx", st[1].sort)
            w = st[1].wrap(x)
            if not isinstance(w, tuple):
                raise Unsupported("dict of a sequence")
            t = apply_cmap(cmap(x, z3.Unit(pc.dt.mk(self.to_V(w[0]), self.to_V(w[1])))), st[2])
        else:
            t = st[2]
        r = DICTOF(t)
        self.assume(z3.And(V.is_obj(r), ISDICT(r)))
        return Sym(VAL, r)

    # ------------------------------------------------------------ yield
    def gen_frame(self, fr):
        f = fr
        while f is not None and f.out is None:
            f = f.parent
        if f is None:
            raise Unsupported("yield outside a generator")
        return f

    def e_Yield(self, n, fr):
        v = self.eval(n.value, fr) if n.value is not None else None
        g = self.gen_frame(fr)
        h = self.models.get("on_yield")
        if h is not None:
            h(self, g, v)
        self.append(g.out, v)
        return None

    def e_YieldFrom(self, n, fr):
        v = self.eval(n.value, fr)
        g = self.gen_frame(fr)
        st = self.iter_state(v)
        if isinstance(v, PyIter):
            self.mut(v, ("items", ()))
        if st[0] in ("enum", "range"):
            st = self.comp_state(st, lambda x: x)
        self.mut(g.out, self.cat_states(g.out.state, st))
        return None

    def append(self, lst, v):
        st = lst.state
        if st[0] == "items":
            self.mut(lst, ("items", st[1] + (v,)))
            return
        e = st[1]
        try:
            t = self.term(v, e)
        except Unsupported:
            if e is VAL:
                raise
            e2 = self.codec_of(v)
            if z3.simplify(z3.Length(st[2])).eq(z3.IntVal(0)):
                self.mut(lst, ("items", (v,)))
                return
            raise
        self.mut(lst, ("seq", e, concat(st[2], z3.Unit(t))))

    # ------------------------------------------------------------ subscripts
    def eval_index(self, n, fr):
        if isinstance(n, ast.Slice):
            g = lambda e: self.eval(e, fr) if e is not None else None
            return slice(g(n.lower), g(n.upper), g(n.step))
        return self.eval(n, fr)

    def e_Subscript(self, n, fr):
        return self.getitem(self.eval(n.value, fr), self.eval_index(n.slice, fr))

    def getitem(self, o, i):
        if isinstance(o, NullSink):
            return NULL
        if isinstance(o, Sym) and o.k is VAL:
            nv = self.narrow(o)
            if isinstance(nv, Sym) and nv.k is VAL:
                k = self.to_V(i)
                if not self.branch(z3.Select(z3.Select(self.HAS, self.orig(o.t)), k)):
                    raise PyExc(KeyError, (i,))
                return self.dict_value(o, k)
            o = nv
        if isinstance(o, PyDict) and not is_mapst(o.state):
            for k, v in reversed(o.state):
                if self.branch(self.eq_term(k, i)):
                    return v
            raise PyExc(KeyError, (i,))
        if isinstance(o, PyDict):
            _, kc, vc, has, val = o.state
            k = self.term(i, kc)
            if not self.branch(z3.Select(has, k)):
                raise PyExc(KeyError, (i,))
            return vc.wrap(z3.Select(val, k))
        if isinstance(i, slice):
            return self.getslice(o, i)
        if isinstance(o, PyObj):
            q = getattr(o.cls, "q", None)
            h = self.models.get(f"getitem:{q}")
            if h:
                return h(self, o, i)
            if isinstance(o.cls, ClassInfo):
                r = o.cls.lookup(self, "__getitem__")
                if r:
                    return self.call(Bound(o, r[0]), [i], {})
        if isinstance(o, (External, type, Builtin, ClassInfo)):
            return o
        if o is None:
            raise PyExc(TypeError, ("None is not subscriptable",))
        if isinstance(o, (str, bytes)) and isinstance(i, int):
            try:
                return o[i]
            except IndexError as e:
                raise PyExc(IndexError, e.args)
        i = self.narrow(i)
        if isinstance(i, str) or (isinstance(i, Sym) and i.k is STR):
            raise PyExc(TypeError, ("indices must be integers",))
        if isinstance(o, (str, bytes)) or (isinstance(o, Sym) and o.k in (STR, BYTES)):
            k = self.codec_of(o)
            t = self.term(o, k)
            ix = self.num(i, INT)
            ln = z3.Length(t)
            if k is STR and isinstance(i, int) and i == -1 and z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
                last = chars_of(t.arg(t.num_args() - 1))
                if last:
                    r = text_from(last[-1:])
                    return r if isinstance(r, str) else Sym(STR, r)
            if not self.branch(z3.And(ix < ln, ix >= -ln)):
                raise PyExc(IndexError, ())
            ix = ix if (isinstance(i, int) and i >= 0) else z3.simplify(z3.If(ix < 0, ix + ln, ix))
            if k is BYTES:
                raise Unsupported("byte index")
            cs = chars_of(t)
            if cs is not None and isinstance(i, int):
                r = text_from([cs[i]])
                return r if isinstance(r, str) else Sym(STR, r)
            return Sym(STR, z3.SubString(t, ix, 1))
        st = self.iter_state(o)
        if st[0] == "items" and isinstance(i, int):
            try:
                return st[1][i]
            except IndexError:
                raise PyExc(IndexError, ("list index out of range",))
        if st[0] == "items":
            if isinstance(i, Sym) and i.k is INT:
                n = len(st[1])
                for j in range(-n, n):
                    if self.branch(i.t == j):
                        return st[1][j]
                raise PyExc(IndexError, ())
        if st[0] == "seq":
            ix = self.num(i, INT)
            ln = z3.Length(st[2])
            if not self.branch(z3.And(ix < ln, ix >= -ln)):
                raise PyExc(IndexError, ())
            ix = z3.simplify(z3.If(ix < 0, ix + ln, ix))
            return self.nth(st, ix)
        raise Unsupported("subscript")

    def dict_value(self, o, k):
        h = self.models.get("dict_value")
        if h is not None:
            r = h(self, o, k)
            if r is not None:
                return r
        return Sym(VAL, z3.simplify(z3.Select(z3.Select(self.DICT, self.orig(o.t)), k)))

    def settle(self, t):
        """t with the cases of its top-level conditionals that the path condition decides"""
        t = z3.simplify(t)
        while z3.is_app_of(t, z3.Z3_OP_ITE):
            if self.check([z3.Not(t.arg(0))]) == z3.unsat:
                t = t.arg(1)
            elif self.check([t.arg(0)]) == z3.unsat:
                t = t.arg(2)
            else:
                break
        return t

    def clamp_slice(self, s, ln):
        def bound(v, dflt):
            if v is None:
                return dflt
            v = self.settle(self.num(self.narrow(v), INT))
            return z3.simplify(
                self.settle(z3.If(v < 0, z3.If(v + ln < 0, 0, v + ln), z3.If(v > ln, ln, v)))
            )

        return bound(s.start, z3.IntVal(0)), bound(s.stop, ln)

    def getslice(self, o, s):
        if s.step is not None and s.step != 1:
            raise Unsupported("slice step")
        if conc(o) and all(conc(e) for e in (s.start, s.stop)):
            return o[s.start : s.stop]
        if isinstance(o, (str, bytes)) or (isinstance(o, Sym) and o.k in (STR, BYTES)):
            k = self.codec_of(o)
            t = self.term(o, k)
            cs = chars_of(t) if k is STR else None
            if cs is not None and all(e is None or isinstance(e, int) for e in (s.start, s.stop)):
                r = text_from(cs[s.start : s.stop]) if cs[s.start : s.stop] else ""
                return r if isinstance(r, str) else Sym(STR, r)
            if k is STR and s.start is None and isinstance(s.stop, int) and s.stop < 0 and z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
                last = chars_of(t.arg(t.num_args() - 1))
                if last is not None and len(last) >= -s.stop:
                    rest = [z3.Unit(c) for c in last[: s.stop]]
                    return Sym(STR, concat(z3.StringVal(""), *t.children()[:-1], *rest))
            ln = z3.Length(t)
            lo, hi = self.clamp_slice(s, ln)
            return Sym(k, z3.simplify(z3.SubString(t, lo, z3.If(hi > lo, hi - lo, 0))))
        st = self.iter_state(o)
        if st[0] == "items" and all(e is None or isinstance(e, int) for e in (s.start, s.stop)):
            r = st[1][s.start : s.stop]
            return tuple(r) if isinstance(o, tuple) else PyList(("items", r))
        if st[0] == "items":
            st = ("seq", self.elem_codec(st), self.seq_term(st, self.elem_codec(st)))
        t = st[2]
        ln = z3.Length(t)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT) and self.check([ln != t.arg(2)]) == z3.unsat:
            ln = t.arg(2)
        lo, hi = self.clamp_slice(s, ln)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT) and z3.is_int_value(lo) and lo.as_long() == 0 and self.check([hi > t.arg(2)]) == z3.unsat:
            # the beginning of a beginning
            t, lo, hi = t.arg(0), z3.simplify(t.arg(1)), z3.simplify(t.arg(1) + hi)
        r = z3.simplify(z3.Extract(t, lo, self.settle(z3.If(hi > lo, hi - lo, 0))))
        if isinstance(o, PyTupSeq):
            return PyTupSeq(r, st[1])
        return PyList(("seq", st[1], r))

    def setitem(self, o, i, v):
        if isinstance(o, PyDict) and is_mapst(o.state):
            _, kc, vc, has, val = o.state
            k = self.term(i, kc)
            self.mut(o, ("map", kc, vc, z3.Store(has, k, True), z3.Store(val, k, self.term(v, vc))))
            return
        if isinstance(o, PyDict):
            st = list(o.state)
            for j, (k, _) in enumerate(st):
                if self.branch(self.eq_term(k, i)):
                    st[j] = (k, v)
                    self.mut(o, tuple(st))
                    return
            self.mut(o, tuple(st) + ((i, v),))
            return
        if isinstance(o, Sym) and o.k is VAL:
            k = self.to_V(i)
            self.DICT = z3.Store(self.DICT, o.t, z3.Store(z3.Select(self.DICT, o.t), k, self.to_V(v)))
            self.HAS = z3.Store(self.HAS, o.t, z3.Store(z3.Select(self.HAS, o.t), k, z3.BoolVal(True)))
            return
        if isinstance(o, PyList):
            st = o.state
            if st[0] == "items" and isinstance(i, int):
                l = list(st[1])
                try:
                    l[i] = v
                except IndexError as e:
                    raise PyExc(IndexError, ())
                self.mut(o, ("items", tuple(l)))
                return
        if isinstance(o, PyObj):
            q = getattr(o.cls, "q", None)
            h = self.models.get(f"setitem:{q}")
            if h:
                return h(self, o, i, v)
        raise Unsupported(f"item assignment to {o!r}")

    def delitem(self, o, i):
        if isinstance(o, PyList) and isinstance(i, slice):
            st = o.state
            if st[0] == "items" and all(e is None or isinstance(e, int) for e in (i.start, i.stop)):
                l = list(st[1])
                del l[i.start : i.stop]
                self.mut(o, ("items", tuple(l)))
                return
            if st[0] == "items":
                st = ("seq", self.elem_codec(st), self.seq_term(st, self.elem_codec(st)))
            ln = z3.Length(st[2])
            lo, hi = self.clamp_slice(i, ln)
            a = z3.simplify(z3.Extract(st[2], 0, lo))
            b = z3.simplify(z3.Extract(st[2], z3.If(hi > lo, hi, lo), ln))
            self.mut(o, ("seq", st[1], concat(empty(st[2].sort()), a, b)))
            return
        if isinstance(o, PyDict) and is_mapst(o.state):
            _, kc, vc, has, val = o.state
            k = self.term(i, kc)
            if not self.branch(z3.Select(has, k)):
                raise PyExc(KeyError, (i,))
            self.mut(o, ("map", kc, vc, z3.Store(has, k, False), val))
            return
        if isinstance(o, PyDict):
            st = list(o.state)
            for j, (k, _) in enumerate(st):
                if self.branch(self.eq_term(k, i)):
                    del st[j]
                    self.mut(o, tuple(st))
                    return
            raise PyExc(KeyError, (i,))
        raise Unsupported("del item")


def _is_ba(v):
    return isinstance(v, PyObj) and getattr(v.cls, "q", "") == "bytearray"


def is_mapst(st):
    """the state of a dictionary of unknown size"""
    return isinstance(st, tuple) and len(st) == 5 and st[0] == "map"


class Flat:
    def __init__(self, state):
        self.state = state


class _Skip:
    pass


SKIP = _Skip()


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()


class Ghost:
    """loop ghosts: done prefix p, element x, rest, index i"""

    def __init__(self, p, x, rest, i, rng, whole):
        self.p, self.x, self.rest, self.i, self.rng, self.whole = p, x, rest, i, rng, whole


class LoopView:
    def __init__(self, vm, node, frame, M, pre, codec):
        self.vm, self.node, self.frame, self.M, self.pre, self.codec = vm, node, frame, M, pre, codec

    def locs(self, kind=None, codec=None):
        """(name, location, kind, value before the loop)"""
        for key, (loc, k) in self.M.items():
            if k is None:
                continue
            if kind and k[0] not in ((kind,) if isinstance(kind, str) else kind):
                continue
            if codec and k[1] is not codec:
                continue
            yield str(loc[1] or type(loc[0]).__name__), loc, k, self.pre[key]

    def get(self, loc):
        return self.vm._get(loc)


LAZY = {}
KEYS = z3.Function("keys", V, SV)
STROF = z3.Function("str_of", V, z3.StringSort())
REPROF = z3.Function("repr_of", V, z3.StringSort())
