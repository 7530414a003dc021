"""Symbolic interpreter and verification-condition generator for the Python subset.

Executes the real source (parsed from the repository on every run), forking on
branches; loops are cut by invariants that are checked inductively; every claim is
an obligation `path condition => goal` discharged by z3.
"""
import ast
import os
import time

import z3

from .terms import *
from . import terms as T

REPO = os.environ.get("PYVC_REPO", "/repo")
MAX_PATHS = 4000
UNROLL = 24


class PathEnd(Exception):
    pass


class BreakE(Exception):
    pass


class ContinueE(Exception):
    pass


class ReturnE(Exception):
    def __init__(self, v):
        self.v = v


class PyExc(Exception):
    """A Python exception raised by the program under verification"""

    def __init__(self, cls, args=()):
        self.cls, self.eargs = cls, args

    def __str__(self):
        return f"{getattr(self.cls, '__name__', None) or getattr(self.cls, 'name', self.cls)}{self.eargs}"


class Budget(Exception):
    pass


class External:
    """something outside the repository, known by its dotted name"""

    def __init__(self, q):
        self.q = q

    def __repr__(self):
        return f"<ext {self.q}>"

    def __eq__(self, o):
        return isinstance(o, External) and o.q == self.q

    def __hash__(self):
        return hash(self.q)


class NullSink:
    """loggers: calls are skipped together with their arguments"""

    def __repr__(self):
        return "<null>"


NULL = NullSink()


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class ModuleRef:
    def __init__(self, name):
        self.name = name


class ClassInfo:
    def __init__(self, vm, node, module, frame):
        self.node, self.module, self.name = node, module, node.name
        self.qual = module + "." + node.name
        self.frame = frame
        self.attrs = {}
        self.bases = None
        self._vm = vm

    def get_bases(self, vm):
        if self.bases is None:
            self.bases = []
            for b in self.node.bases:
                try:
                    self.bases.append(vm.eval(b, self.frame))
                except Unsupported:
                    self.bases.append(External("?"))
        return self.bases

    def lookup(self, vm, name):
        if name in self.attrs:
            return self.attrs[name], self
        for st in self.node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and st.name == name:
                c = vm.make_function(st, self.frame, self.module, cls=self)
                self.attrs[name] = c
                return c, self
            if isinstance(st, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name for t in st.targets
            ):
                self.attrs[name] = vm._global_value(st.value, self.frame)
                return self.attrs[name], self
            if (
                isinstance(st, ast.AnnAssign)
                and isinstance(st.target, ast.Name)
                and st.target.id == name
                and st.value is not None
            ):
                self.attrs[name] = vm._global_value(st.value, self.frame)
                return self.attrs[name], self
        for b in self.get_bases(vm):
            if isinstance(b, ClassInfo):
                r = b.lookup(vm, name)
                if r is not None:
                    return r
        return None

    def mro_names(self, vm):
        out = [self.name]
        for b in self.get_bases(vm):
            if isinstance(b, ClassInfo):
                out += b.mro_names(vm)
            elif isinstance(b, type):
                out += [c.__name__ for c in b.__mro__]
            elif isinstance(b, External):
                out.append(b.q.split(".")[-1])
        return out

    def __repr__(self):
        return f"<class {self.qual}>"


class Frame(Heap):
    def __init__(self, module, parent=None):
        super().__init__({})
        self.module, self.parent = module, parent
        self.nonlocals, self.globals_ = set(), set()
        self.out = None


class Closure:
    def __init__(self, node, frame, module, cls=None, qual=None):
        self.node, self.frame, self.module, self.cls = node, frame, module, cls
        self.defaults = None
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or (
            (cls.qual + "." if cls else module + ".") + self.name
        )
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)

    def __repr__(self):
        return f"<fn {self.qual}>"


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class PropertyFn:
    def __init__(self, fn):
        self.fn = fn


class StaticFn:
    def __init__(self, fn):
        self.fn = fn


class SuperRef:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Obligation:
    def __init__(self, name, status, secs, backend, model=None, detail=""):
        self.name, self.status, self.secs, self.backend = name, status, secs, backend
        self.model, self.detail = model, detail


def merge_apps(apps, more):
    return apps + [a for a in more if not any(a[0] is b[0] and a[1].eq(b[1]) for b in apps)]


class VM:
    def __init__(self, models, contracts=None, loop_templates=None):
        self.models = models  # dotted name -> callable(vm, args, kwargs)
        self.contracts = contracts or {}  # qual of repo function -> callable(vm, closure, args, kwargs)
        self.loop_templates = loop_templates or {}
        self.enum_pairs = False  # enumerate() gives a sequence of (position, element) pairs
        self.parsed = {}
        self.obligations = []
        self.queries = 0
        self.solver_s = 0.0
        self.functions = {}  # qual -> times executed (under verification)
        self.assumptions = set()
        self.quiet = 0
        self.deadline = None
        self.post_models = []
        self.touched_files = set()
        self.prove_timeout = 8000

    # ------------------------------------------------------------ source
    def tree(self, module):
        if module not in self.parsed:
            rel = module.replace(".", "/")
            for cand in (rel + ".py", rel + "/__init__.py"):
                p = os.path.join(REPO, cand)
                if os.path.exists(p):
                    with open(p, encoding="utf8") as f:
                        self.parsed[module] = (ast.parse(f.read()), p)
                    break
            else:
                self.parsed[module] = None
        return self.parsed[module]

    def is_repo(self, module):
        return module.split(".")[0] == "mabel" and self.tree(module) is not None

    # ------------------------------------------------------------ path state
    def start_path(self):
        self.pc = []
        self.conds = []
        self.fresh_n = 0
        self.journal = []
        self.globals = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", 2500)
        self.solver.set("random_seed", 7)
        self.DICT = z3.Const("DICT0", z3.ArraySort(V, z3.ArraySort(V, V)))
        self.HAS = z3.Const("HAS0", z3.ArraySort(V, z3.ArraySort(V, z3.BoolSort())))
        self.DICT_AT_START, self.HAS_AT_START = self.DICT, self.HAS
        self.births = {}  # copied record -> the heap its KEYS and ITEMS speak of
        self.heapobj = Heap((self.DICT, self.HAS))
        self.alloc = 0
        self.depth = 0
        self.recursion, self.running = None, []
        self.only_templates = False
        self.nth_facts = set()
        self.elem_facts = []
        self.elem_rules = {}  # function name -> what holds of every element of its result
        self.tags = []

    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const(f"{name}!{self.fresh_n}", sort)

    def mut(self, obj, newstate):
        self.journal.append((obj, obj.state))
        obj.state = newstate

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def check(self, extra, timeout=None):
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Budget("time budget used up")
        self.queries += 1
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            if timeout:
                self.solver.set("timeout", timeout)
            r = self.solver.check()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            if timeout:
                self.solver.set("timeout", 2500)
            self.solver.pop()
            self.solver_s += time.time() - t0
        return r

    def feasible(self, c):
        return self.check([c]) != z3.unsat

    def orig(self, t):
        """the record t was copied from, while neither was changed since"""
        if not self.births or not z3.is_const(t):
            return t
        b = self.births.get(t.decl().name())
        return b[2] if b and self.HAS.eq(b[0]) and self.DICT.eq(b[1]) else t

    def branch(self, cond, label=None):
        """Decide a condition: returns a Python bool, forking when both are possible"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
        else:
            can_t = self.feasible(cond)
            can_f = self.feasible(z3.Not(cond)) if can_t else True
            if can_t and can_f:
                self.alternatives.append(self.decisions + [False])
                d = True
            else:
                d = can_t
            self.decisions = self.decisions + [d]
            self.pos += 1
        c = cond if d else z3.Not(cond)
        self.conds.append(c)
        self.assume(c)
        return d

    def choose(self, label):
        """A nondeterministic choice"""
        return self.branch(self.fresh("choice_" + label, z3.BoolSort()))

    # ------------------------------------------------------------ exploration
    def explore(self, fn, on_path=None):
        """Top level: run fn on every path from a fresh state"""
        work = [[]]
        n = 0
        while work:
            d = work.pop()
            n += 1
            if n > MAX_PATHS:
                raise Unsupported("too many paths")
            self.decisions, self.pos, self.alternatives = d, 0, []
            self.start_path()
            try:
                fn()
            except PathEnd:
                pass
            work.extend(self.alternatives)
        return n

    def sub_explore(self, fn, limit=400):
        """Run fn on every path from the current state; undo its effects.

        Returns a list of (branch conditions, outcome, facts) where outcome is
        ("ok", value) | ("exc", PyExc) | ("return", v) | ("break",) | ("continue",)
        """
        saved = (self.decisions, self.pos, self.alternatives)
        base_pc, base_conds, base_j = len(self.pc), len(self.conds), len(self.journal)
        base_ef = len(self.elem_facts)
        heap0 = (self.DICT, self.HAS)
        fresh0, alloc0 = self.fresh_n, self.alloc
        maxfresh = fresh0
        oid0 = T._oid[0]
        out = []
        work = [[]]
        n = 0
        try:
            while work:
                d = work.pop()
                n += 1
                if n > limit:
                    raise Unsupported("too many paths in a loop body or comprehension")
                self.decisions, self.pos, self.alternatives = d, 0, []

                self.solver.push()
                try:
                    try:
                        o = ("ok", fn())
                    except PyExc as e:
                        o = ("exc", e)
                    except ReturnE as e:
                        o = ("return", e.v)
                    except BreakE:
                        o = ("break",)
                    except ContinueE:
                        o = ("continue",)
                    except PathEnd:
                        o = None
                    if o is not None:
                        out.append(
                            (
                                list(self.conds[base_conds:]),
                                o,
                                list(self.pc[base_pc:]),
                                self._post(base_j, oid0),
                            )
                        )
                finally:
                    work.extend(self.alternatives)
                    self.solver.pop()
                    while len(self.journal) > base_j:
                        obj, st = self.journal.pop()
                        obj.state = st
                    self.DICT, self.HAS = heap0
                    del self.pc[base_pc:]
                    del self.conds[base_conds:]
                    del self.elem_facts[base_ef:]
                    maxfresh = max(maxfresh, self.fresh_n)
                    self.alloc = alloc0
        finally:
            self.decisions, self.pos, self.alternatives = saved
            pass
        return out

    def _post(self, base_j, oid0):
        """final states of the pre-existing objects changed since base_j"""
        ch = {}
        for obj, old in self.journal[base_j:]:
            if obj.oid <= oid0 and id(obj) not in ch:
                ch[id(obj)] = (obj, old, None)
        return {k: (o, old, o.state) for k, (o, old, _) in ch.items()}

    # ------------------------------------------------------------ obligations
    def composed_facts(self, apps):
        """maps of a sequence that is known to be equal to a composed one"""
        facts = []
        for m, t in list(apps):
            if not (z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) or len(apps) > 80:
                continue
            for c in self.pc:
                if z3.is_eq(c) and c.arg(0).eq(t) and not z3.is_const(c.arg(1)):
                    more = apply_cmap(m, c.arg(1))
                    facts.append(m.fn(t) == more)
                    apps = merge_apps(apps, find_apps([more]))
                    break
        return facts, apps

    def closure_facts(self, goal_terms):
        """Facts about the sequence maps occurring in pc and goal"""
        facts = []
        apps = find_apps(list(self.pc) + goal_terms)
        for m, t in apps:
            a = m.fn(t)
            g = guard_form(m.body, m.x)
            if always_unit(m.body):
                facts.append(z3.Length(a) == z3.Length(t))
            elif g is not None:
                facts.append(z3.Length(a) <= z3.Length(t))
                w = a[0] if not is_z3str(a.sort()) else None
                if w is not None:
                    facts.append(
                        z3.Implies(
                            z3.Length(a) > 0,
                            z3.And(
                                z3.substitute(g, (m.x, w)), z3.Contains(t, z3.Unit(w))
                            ),
                        )
                    )
        # a map gives something of a set's members iff it gives something of what they came from
        for m, f in list(apps):
            if z3.is_app(f) and f.num_args() == 1 and (f.decl().name() in T.UNIQS or f.decl().name() in T.PERMS):
                more = apply_cmap(m, f.arg(0))
                facts.append((z3.Length(m.fn(f)) == 0) == (z3.Length(more) == 0))
                apps = merge_apps(apps, find_apps([more]))
        more, apps = self.composed_facts(apps)
        facts += more
        perms = self._perm_apps(list(self.pc) + goal_terms)
        mem0 = self._memberships(list(self.pc) + goal_terms)
        for f, t in self._uniq_apps(list(self.pc) + goal_terms):
            facts.append(z3.Length(f) <= z3.Length(t))
            facts.append((z3.Length(t) == 0) == (z3.Length(f) == 0))
            facts.append(z3.Implies(z3.Length(t) <= 1, f == t))
            for _, e in mem0:
                if e.sort() == t.sort().basis():
                    facts.append(z3.Contains(f, z3.Unit(e)) == z3.Contains(t, z3.Unit(e)))
        for f, t in perms:
            facts.append(z3.Length(f) == z3.Length(t))
            facts.append((z3.Length(t) <= 1) == z3.And(f == t, z3.Length(t) <= 1))
            for _, e in mem0:
                if not is_z3str(t.sort()) and e.sort() == t.sort().basis():
                    facts.append(z3.Contains(f, z3.Unit(e)) == z3.Contains(t, z3.Unit(e)))
        # members of sequences: a filter keeps those that satisfy it
        mem = self._memberships(list(self.pc) + goal_terms)
        for m, t in apps:
            g = guard_form(m.body, m.x)
            if g is None:
                continue
            a = m.fn(t)
            for s, e in mem:
                if e.sort() == m.x.sort():
                    facts.append(
                        z3.Contains(a, z3.Unit(e))
                        == z3.And(z3.Contains(t, z3.Unit(e)), z3.substitute(g, (m.x, e)))
                    )
                    facts.append(
                        z3.Implies(
                            z3.And(z3.Contains(t, z3.Unit(e)), z3.substitute(g, (m.x, e))),
                            z3.Length(a) > 0,
                        )
                    )
        facts += self.index_facts(list(self.pc) + goal_terms)
        return facts, apps

    def index_facts(self, ts):
        """indexing and slicing of a concatenation, part by part"""
        facts, seen, stack = [], set(), list(ts)
        while stack and len(facts) < 60:
            u = stack.pop()
            if u.get_id() in seen or z3.is_quantifier(u) or not z3.is_app(u):
                continue
            seen.add(u.get_id())
            stack.extend(u.children())
            if z3.is_app_of(u, z3.Z3_OP_SEQ_EXTRACT) and not is_z3str(u.sort()):
                # a slice is the slice one shorter and its last element
                q, a, n = u.children()
                facts.append(z3.Implies(z3.And(a >= 0, n >= 1, a + n <= z3.Length(q)),
                                        u == z3.Concat(z3.Extract(q, a, n - 1), z3.Unit(q[a + n - 1]))))
            if u.num_args() < 2 or not z3.is_app_of(u.arg(0), z3.Z3_OP_SEQ_CONCAT):
                continue
            parts = u.arg(0).children()
            if u.decl().name() in ("seq.nth", "seq.nth_i"):
                off, i = z3.IntVal(0), u.arg(1)
                for c in parts:
                    v = c.arg(0) if z3.is_app_of(c, z3.Z3_OP_SEQ_UNIT) else c[i - off]
                    end = z3.simplify(off + z3.Length(c))
                    facts.append(z3.Implies(z3.And(i >= off, i < end, i >= 0), u == v))
                    off = end
            elif z3.is_app_of(u, z3.Z3_OP_SEQ_EXTRACT):
                a, n, p = u.arg(1), u.arg(2), parts[0]
                rest = concat(empty(p.sort()), *parts[1:])
                facts.append(z3.Implies(z3.And(a >= 0, n >= 0, a + n <= z3.Length(p)), u == z3.Extract(p, a, n)))
                facts.append(z3.Implies(z3.And(a >= z3.Length(p), n >= 0), u == z3.Extract(rest, a - z3.Length(p), n)))
        return facts

    def _uniq_apps(self, ts):
        return self._apps_in(ts, T.UNIQS)

    def _perm_apps(self, ts):
        return self._apps_in(ts, T.PERMS)

    def _apps_in(self, ts, table):
        out, seen, stack = {}, set(), list(ts)
        while stack:
            u = stack.pop()
            if u.get_id() in seen or z3.is_quantifier(u) or not z3.is_app(u):
                continue
            seen.add(u.get_id())
            if u.num_args() == 1 and u.decl().name() in table:
                out[u.get_id()] = (u, u.arg(0))
            stack.extend(u.children())
        return list(out.values())

    def _memberships(self, ts):
        out, seen, stack = {}, set(), list(ts)
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_quantifier(u) or not z3.is_app(u):
                continue
            if z3.is_app_of(u, z3.Z3_OP_SEQ_CONTAINS):
                if z3.is_app_of(u.arg(1), z3.Z3_OP_SEQ_UNIT):
                    out[u.get_id()] = (u.arg(0), u.arg(1).arg(0))
            if z3.is_app_of(u, z3.Z3_OP_SEQ_UNIT) and not z3.is_var(u.arg(0)):
                out[u.get_id()] = (u, u.arg(0))
            stack.extend(u.children())
        # unique elements
        uniq = {}
        for s, e in out.values():
            uniq.setdefault(e.get_id(), (s, e))
        return list(uniq.values())[:40]

    def elem_terms(self, t, x):
        """what is known of an element x of t"""
        n, f0 = len(self.pc), self.fresh_n
        self.solver.push()
        try:
            self.elem_assume(t, x)
            return list(self.pc[n:])
        except PathEnd:
            return []
        finally:
            self.solver.pop()
            del self.pc[n:]

    def extensional(self, apps, goal=None, known0=(), depth=0, focus=None):
        """Equate maps of the same sequence that agree on every element"""
        facts = []
        seen = {}
        for m, t in apps:
            seen[m.fn(t).get_id()] = (m, t)
        items = list(seen.values())

        def agree(t, x, a, b, cond):
            """does every element of t satisfy not cond (a condition over a, b)"""
            known = list(known0) + [z3.Contains(t, z3.Unit(x))] + self.elem_terms(t, x)
            if self.check(known + [cond], self.models.get("agree_ms")) == z3.unsat:
                return True
            nested = find_apps([a, b])
            if depth < 2 and nested:
                comp, nested = self.composed_facts(nested)
                for m, u in nested:
                    if always_unit(m.body):
                        comp.append(z3.Length(m.fn(u)) == z3.Length(u))
                    elif guard_form(m.body, m.x) is not None:
                        comp.append(z3.Length(m.fn(u)) <= z3.Length(u))
                members = self._memberships([a, b])
                for f, u in self._uniq_apps([a, b]):
                    comp += [z3.Contains(f, z3.Unit(e)) == z3.Contains(u, z3.Unit(e)) for _, e in members if e.sort() == u.sort().basis()]
                more = comp + self.extensional(nested, None, known, depth + 1)
                if bool(more) and self.check(known + more + [cond], self.models.get("agree_ms")) == z3.unsat:
                    return True
                # given what the elements differ on: one of them is kept, or mapped to something
                sides = [z3.Length(u) > 0 if z3.is_seq(u) else None for u in (a, b)]
                if depth == 0 and not a.eq(b) and None not in sides:
                    def kept(u):
                        return z3.simplify(u.arg(0)) if z3.is_app_of(u, z3.Z3_OP_ITE) and is_empty_term(u.arg(2)) else (
                            z3.simplify(z3.Not(u.arg(0))) if z3.is_app_of(u, z3.Z3_OP_ITE) and is_empty_term(u.arg(1)) else None)
                    for u in (a, b):
                        g = kept(u)
                        if g is None:
                            return False
                        more = comp + self.extensional(nested, None, known + [g], depth + 1)
                        if self.check(known + [g] + more + [cond], self.models.get("agree_ms")) != z3.unsat:
                            return False
                    return True
            return False

        for i in range(len(items)):
            for j in range(i):
                (m1, t1), (m2, t2) = items[i], items[j]
                if m1.in_sort != m2.in_sort:
                    continue
                if not t1.eq(t2):
                    # inside a condition on an element: the same list, written differently
                    if depth == 0 or self.check(list(known0) + [t1 != t2]) != z3.unsat:
                        continue
                if focus is not None and m1.fn(t1).get_id() not in focus and m2.fn(t2).get_id() not in focus:
                    continue
                x = z3.Const(f"ext_x{depth}", m1.x.sort())
                a, b = m1.at(x), m2.at(x)
                if m1.out_sort != m2.out_sort:
                    # images of different sorts can still be of the same length
                    if not (always_unit(m1.body) or always_unit(m2.body)) and agree(t1, x, a, b, z3.Length(a) != z3.Length(b)):
                        facts.append(z3.Length(m1.fn(t1)) == z3.Length(m2.fn(t2)))
                    continue
                if agree(t1, x, a, b, a != b):
                    facts.append(m1.fn(t1) == m2.fn(t2))
                elif not (always_unit(m1.body) or always_unit(m2.body)) and agree(t1, x, a, b, z3.Length(a) != z3.Length(b)):
                    facts.append(z3.Length(m1.fn(t1)) == z3.Length(m2.fn(t2)))
            # maps that keep everything / nothing of this sequence
            m1, t1 = items[i]
            x = z3.Const(f"ext_x{depth}", m1.x.sort())
            a = m1.at(x)
            if m1.in_sort == m1.out_sort:
                if agree(t1, x, a, a, a != z3.Unit(x)):
                    facts.append(m1.fn(t1) == t1)
            elif not always_unit(m1.body) and agree(t1, x, a, a, z3.Length(a) != 1):
                facts.append(z3.Length(m1.fn(t1)) == z3.Length(t1))
            if not always_unit(m1.body) and agree(t1, x, a, a, z3.Length(a) > 0):
                facts.append(m1.fn(t1) == empty(m1.out_sort))
        return facts

    def entails(self, goal, timeout=None):
        """unsat/sat/unknown of pc and not goal, with map facts"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return z3.unsat, None
        if self.check([z3.Not(goal)]) == z3.unsat:
            return z3.unsat, None
        t0 = time.time()
        facts, apps = self.closure_facts([goal])
        if len(apps) > 12:
            # first only what compares with the maps the goal speaks of
            focus = {m.fn(t).get_id() for m, t in find_apps([goal])}
            more = self.extensional(apps, focus=focus)
            self.queries += 1
            if self.check(facts + more + [z3.Not(goal)]) == z3.unsat:
                self.solver_s += time.time() - t0
                return z3.unsat, None
            if self.quiet:
                self.solver_s += time.time() - t0
                return z3.unknown, None
        facts += self.extensional(apps)
        s = z3.Solver()
        s.set("timeout", timeout or self.prove_timeout)
        s.add(*self.pc)
        s.add(*facts)
        s.add(z3.Not(goal))
        self.queries += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        m = s.model() if r == z3.sat else None
        if r == z3.unknown:
            r2 = self._cvc5(s)
            if r2 == "unsat":
                r = z3.unsat
                self._last_backend = "cvc5"
        self.solver_s += time.time() - t0
        return r, m

    def _cvc5(self, s):
        return None

    def prove(self, name, goal, detail=""):
        if self.quiet:
            r, m = self.entails(goal)
            return r == z3.unsat
        t0 = time.time()
        self._last_backend = "z3"
        if self.check([]) == z3.unsat:
            self.obligations.append(Obligation(name, "discharged", 0.0, "vacuous"))
            return True
        if isinstance(goal, bool):
            if goal:
                self.obligations.append(Obligation(name, "discharged", 0.0, "evaluation"))
                return True
            goal = z3.BoolVal(False)
        r, m = self.entails(goal)
        st = {"unsat": "discharged", "sat": "refuted"}.get(str(r), "unknown")
        self.obligations.append(
            Obligation(name, st, time.time() - t0, self._last_backend, m, detail or str(goal)[:2000])
        )
        if st == "refuted":
            self.post_models.append((name, m, list(self.tags)))
        return st == "discharged"

    # ------------------------------------------------------------ conversions
    def codec_of(self, v):
        if isinstance(v, Sym):
            return v.k
        if v is None:
            return VAL
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, float):
            return REAL
        if isinstance(v, str):
            return STR
        if isinstance(v, bytes):
            return BYTES
        if isinstance(v, tuple):
            return tup_codec([self.codec_of(e) for e in v])
        if isinstance(v, (PyList,)):
            st = v.state
            if st[0] == "seq":
                return list_codec(st[1])
            cs = [self.codec_of(e) for e in st[1]]
            if cs and all(c is cs[0] for c in cs):
                return list_codec(cs[0])
            return list_codec(VAL)
        return VAL

    def term(self, v, k):
        """the z3 term of a value in a codec"""
        if isinstance(v, Undef):
            raise Unsupported("value lost in an abstracted loop")
        if k is CHAR:
            if isinstance(v, str) and len(v) == 1:
                return z3.CharVal(ord(v))
            if isinstance(v, Sym) and v.k is STR and z3.is_app_of(v.t, z3.Z3_OP_SEQ_UNIT):
                return v.t.arg(0)
            raise Unsupported("not a character")
        if k is VAL:
            return self.to_V(v)
        if isinstance(v, Sym):
            if v.k is k:
                return v.t
            if v.k is VAL:
                acc = {"int": V.i, "bool": V.b, "real": V.r, "str": V.s, "bytes": V.y}.get(k.name)
                if acc is not None:
                    return acc(v.t)
                if isinstance(k, ListCodec) and k.elem is VAL:
                    return V.l(v.t)
            if v.k is INT and k is REAL:
                return z3.ToReal(v.t)
            if v.k is BOOL and k is INT:
                return z3.If(v.t, 1, 0)
            raise Unsupported(f"cannot use {v.k} as {k}")
        if isinstance(v, bool) and k is BOOL:
            return z3.BoolVal(v)
        if isinstance(v, int) and k is INT:
            return z3.IntVal(int(v))
        if isinstance(v, (int, float)) and k is REAL:
            return z3.RealVal(v)
        if isinstance(v, str) and k is STR:
            return z3.StringVal(v)
        if isinstance(v, bytes) and k is BYTES:
            return z3.StringVal(v.decode("latin1"))
        if isinstance(v, tuple) and isinstance(k, TupCodec) and len(v) == len(k.elems):
            return k.dt.mk(*[self.term(e, c) for e, c in zip(v, k.elems)])
        if isinstance(v, (PyList, PySet)) and isinstance(k, ListCodec):
            return self.seq_term(v, k.elem)
        raise Unsupported(f"cannot use {v!r} as {k}")

    def to_V(self, v):
        if isinstance(v, Undef):
            raise Unsupported("value lost in an abstracted loop")
        if v is None:
            return V.none
        if isinstance(v, Sym):
            if v.k is VAL:
                return v.t
            f = {"int": V.int, "bool": V.bool, "real": V.real, "str": V.str, "bytes": V.bytes}.get(v.k.name)
            if f is None:
                raise Unsupported(f"cannot box {v.k}")
            return f(v.t)
        if isinstance(v, bool):
            return V.bool(z3.BoolVal(v))
        if isinstance(v, int):
            return V.int(z3.IntVal(int(v)))
        if isinstance(v, float):
            return V.real(z3.RealVal(repr(v)))
        if isinstance(v, str):
            return V.str(z3.StringVal(v))
        if isinstance(v, bytes):
            return V.bytes(z3.StringVal(v.decode("latin1")))
        if isinstance(v, tuple):
            return V.tup(concat(z3.Empty(SV), *[z3.Unit(self.to_V(e)) for e in v]))
        if isinstance(v, PyList):
            return V.list(self.seq_term(v, VAL))
        if isinstance(v, PyObj) and "__term__" in v.state:
            return v.state["__term__"]
        if isinstance(v, PyDict):
            return self.dict_term(v)
        h = getattr(v, "oid", None)
        if h is not None:
            return V.obj(z3.IntVal(-h))
        raise Unsupported(f"cannot box {v!r}")

    def dict_term(self, d):
        """an immutable snapshot of a dictionary as a V: allocates an object"""
        if hasattr(d, "snap") and d.snap[0] is d.state:
            return d.snap[1]
        pairs = tup_codec([VAL, VAL])
        seq = z3.Empty(z3.SeqSort(pairs.sort))
        t = concat(seq, *[z3.Unit(pairs.dt.mk(self.to_V(k), self.to_V(v))) for k, v in d.state])
        r = DICTOF(t)
        ids = z3.K(V, V.none)
        has = z3.K(V, z3.BoolVal(False))
        for k, v in d.state:
            ids = z3.Store(ids, self.to_V(k), self.to_V(v))
            has = z3.Store(has, self.to_V(k), z3.BoolVal(True))
        self.assume(V.is_obj(r))
        self.assume(ISDICT(r))
        self.assume(z3.Select(self.DICT, r) == ids)
        self.assume(z3.Select(self.HAS, r) == has)
        d.snap = (d.state, r)
        return r

    def seq_term(self, v, elem):
        """the sequence term of a list/set/iterator state in an element codec"""
        st = v.state if isinstance(v, Heap) else v
        if st[0] == "items":
            e = T.empty(z3.SeqSort(elem.sort)) if elem is not CHAR else z3.StringVal("")
            return concat(e, *[z3.Unit(self.term(i, elem)) for i in st[1]])
        if st[1] is elem or st[1].sort == elem.sort:
            return st[2]
        if elem is VAL:
            x = z3.Const("boxx", st[1].sort)
            return apply_cmap(cmap(x, z3.Unit(self.to_V(st[1].wrap(x)))), st[2])
        if st[1] is VAL and elem in (STR, INT, BOOL, BYTES, REAL):
            x = z3.Const("unboxx", V)
            return apply_cmap(cmap(x, z3.Unit(self.term(Sym(VAL, x), elem))), st[2])
        if isinstance(st[1], TupCodec) and isinstance(elem, TupCodec) and len(st[1].elems) == len(elem.elems):
            x = z3.Const("retupx", st[1].sort)
            return apply_cmap(cmap(x, z3.Unit(self.term(st[1].wrap(x), elem))), st[2])
        raise Unsupported(f"sequence of {st[1]} as {elem}")

    def elem_codec(self, st):
        if st[0] == "seq":
            return st[1]
        cs = [self.codec_of(e) for e in st[1]]
        if not cs:
            return VAL
        e = cs[0]
        for c in cs[1:]:
            e = join_codec(e, c)
        return e

    # ------------------------------------------------------------ truth and equality
    def truth_term(self, v):
        """the truth value: Python bool or z3 Bool"""
        if isinstance(v, Undef):
            raise Unsupported("value lost in an abstracted loop")
        if v is None:
            return False
        if isinstance(v, Sym):
            if v.k is BOOL:
                return v.t
            if v.k is INT:
                return v.t != 0
            if v.k is REAL:
                return v.t != 0
            if v.k in (STR, BYTES):
                return z3.Length(v.t) > 0
            if v.k is VAL:
                t = v.t
                return z3.And(
                    z3.Not(V.is_none(t)),
                    z3.Implies(V.is_bool(t), V.b(t)),
                    z3.Implies(V.is_int(t), V.i(t) != 0),
                    z3.Implies(V.is_real(t), V.r(t) != 0),
                    z3.Implies(V.is_str(t), z3.Length(V.s(t)) > 0),
                    z3.Implies(V.is_bytes(t), z3.Length(V.y(t)) > 0),
                    z3.Implies(V.is_list(t), z3.Length(V.l(t)) > 0),
                    z3.Implies(V.is_tup(t), z3.Length(V.t(t)) > 0),
                    z3.Implies(V.is_obj(t), OBJTRUE(t)),
                )
        if isinstance(v, (PyList, PySet, PyTupSeq)):
            st = v.state
            if st[0] == "range":
                return self.num(st[1], INT) < self.num(st[2], INT)
            return len(st[1]) > 0 if st[0] == "items" else z3.Length(st[2]) > 0
        if isinstance(v, PyDict):
            if v.state and v.state[0] == "map":
                raise Unsupported("truth of a dictionary of unknown size")
            return len(v.state) > 0
        if isinstance(v, PyObj):
            if isinstance(v.cls, ClassInfo):
                for nm in ("__bool__", "__len__"):
                    r = v.cls.lookup(self, nm)
                    if r:
                        return self.truth_term(self.call(Bound(v, r[0]), [], {}))
            m = self.models.get(f"truth:{getattr(v.cls, 'q', '')}")
            if m:
                return m(self, v)
            return True
        if isinstance(v, (Closure, Builtin, Bound, ClassInfo, External, type, NullSink, PyIter, PyGen, TypeOf, ModuleRef)):
            return True
        return bool(v)

    def truth(self, v):
        return self.branch(self.truth_term(v))

    def wrapb(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return Sym(BOOL, c)

    def eq_term(self, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported("value lost in an abstracted loop")
        conc = (type(None), bool, int, float, str, bytes)
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Sym) and o.k is VAL:
                return V.is_none(o.t)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [self.eq_term(x, y) for x, y in zip(a, b)]
            if all(isinstance(c, bool) for c in cs):
                return all(cs)
            return z3.And(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in cs])
        if isinstance(a, (Builtin, External)) and isinstance(b, (Builtin, External)) and type(a) is not type(b):
            return getattr(a, "q", getattr(a, "name", None)) == getattr(b, "q", getattr(b, "name", None))
        if isinstance(a, type) and isinstance(b, Builtin) or isinstance(b, type) and isinstance(a, Builtin):
            b, a = (a, b) if isinstance(a, type) else (b, a)
            return b.__name__ == a.name.split(".")[-1]
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if isinstance(b, TypeOf) and not isinstance(a, TypeOf):
                a, b = b, a
            if isinstance(b, TypeOf):
                raise Unsupported("comparison of types")
            return self.type_is(a.v, b)
        if isinstance(a, (PyList, PySet)) and isinstance(b, (PyList, PySet)) and a.kind == b.kind == "list":
            if a.state[0] == "items" and b.state[0] == "items":
                return self.eq_term(tuple(a.state[1]), tuple(b.state[1]))
            ea, eb = self.elem_codec(a.state), self.elem_codec(b.state)
            if a.state[0] == "items" and not a.state[1]:
                ea = eb
            if b.state[0] == "items" and not b.state[1]:
                eb = ea
            e = join_codec(ea, eb)
            return self.seq_term(a, e) == self.seq_term(b, e)
        if isinstance(a, PySet) and isinstance(b, PySet):
            # {"*"} == set of concrete things
            ea = self.elem_codec(a.state if a.state[0] == "seq" or a.state[1] else b.state)
            x = z3.Const("seteq_x", ea.sort)
            ta, tb = self.seq_term(a, ea), self.seq_term(b, ea)
            if a.state[0] == "items" and b.state[0] == "items" and all(
                isinstance(i, conc) for i in a.state[1] + b.state[1]
            ):
                return set(a.state[1]) == set(b.state[1])
            return z3.ForAll([x], z3.Contains(ta, z3.Unit(x)) == z3.Contains(tb, z3.Unit(x)))
        if isinstance(a, (Sym,) + conc) and isinstance(b, (Sym,) + conc):
            ka, kb = self.codec_of(a), self.codec_of(b)
            num = (INT, BOOL, REAL)
            if ka is kb:
                return self.term(a, ka) == self.term(b, kb)
            if ka in num and kb in num:
                k = REAL if REAL in (ka, kb) else INT
                return self.num(a, k) == self.num(b, k)
            if ka is VAL or kb is VAL:
                return self.to_V(a) == self.to_V(b)
            return False
        if isinstance(a, PyObj) and isinstance(b, PyObj):
            for o, p in ((a, b),):
                if isinstance(o.cls, ClassInfo):
                    r = o.cls.lookup(self, "__eq__")
                    if r:
                        return self.truth_term(self.call(Bound(o, r[0]), [p], {}))
            m = self.models.get(f"eq:{getattr(a.cls, 'q', '')}")
            if m:
                return m(self, a, b)
            return a is b
        if isinstance(a, Heap) and isinstance(b, Heap):
            if type(a) is not type(b):
                return False
            if isinstance(a, PyDict):
                if len(a.state) != len(b.state):
                    return False
                raise Unsupported("dict equality")
            return a is b
        if isinstance(a, Sym) and a.k is VAL and isinstance(b, (PyList, tuple, PyDict)):
            return a.t == self.to_V(b)
        if isinstance(b, Sym) and b.k is VAL and isinstance(a, (PyList, tuple, PyDict)):
            return b.t == self.to_V(a)
        return a is b or (type(a) is type(b) and not isinstance(a, (Sym, Heap)) and a == b)

    def num(self, v, k):
        if isinstance(v, Sym):
            if v.k is k:
                return v.t
            if v.k is BOOL:
                r = z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
                return z3.ToReal(r) if k is REAL else r
            if v.k is INT and k is REAL:
                return z3.ToReal(v.t)
            raise Unsupported(f"{v.k} as number {k}")
        if k is INT:
            return z3.IntVal(int(v))
        return z3.RealVal(repr(v) if isinstance(v, float) else int(v))

    def narrow(self, v):
        """case split a boxed value on its dynamic type"""
        if not (isinstance(v, Sym) and v.k is VAL):
            return v
        t = v.t
        if z3.is_app(t) and t.num_args() == 1:
            n = t.decl().name()
            for nm, k in (("int", INT), ("bool", BOOL), ("real", REAL), ("str", STR), ("bytes", BYTES)):
                if n == nm and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                    return Sym(k, t.arg(0))
        if not self.feasible(z3.Not(V.is_obj(t))):
            return v  # a dictionary, or an object
        if self.branch(V.is_none(t)):
            return None
        for test, acc, k in (
            (V.is_str, V.s, STR),
            (V.is_int, V.i, INT),
            (V.is_bool, V.b, BOOL),
            (V.is_real, V.r, REAL),
            (V.is_bytes, V.y, BYTES),
        ):
            if self.branch(test(t)):
                return Sym(k, acc(t))
        if self.branch(V.is_list(t)):
            return PyList(("seq", VAL, V.l(t)))
        if self.branch(V.is_tup(t)):
            return PyTupSeq(V.t(t))
        return Sym(VAL, t)  # an object: dictionaries and everything else

    def type_is(self, v, cls, sub=False):
        """isinstance(v, cls) / type(v) == cls"""
        if isinstance(cls, tuple):
            cs = [self.type_is(v, c, sub) for c in cls]
            if any(c is True for c in cs):
                return True
            cs = [c for c in cs if not isinstance(c, bool)]
            return z3.Or(*cs) if cs else False
        if isinstance(cls, Builtin):
            cls = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "tuple": tuple,
                   "dict": dict, "set": set, "bytes": bytes, "type": type, "bytearray": bytearray,
                   "frozenset": frozenset}.get(cls.name.split(".")[-1], External(cls.name))
        h = self.models.get("isinstance")
        if h is not None:
            r = h(self, v, cls, sub)
            if r is not None:
                return r
        if isinstance(v, PyObj) and isinstance(v.cls, External) and v.cls.q == "AnyException":
            return self.exc_kind(v, cls) if sub else False
        if isinstance(v, Sym):
            if v.k is VAL:
                t = v.t
                m = {str: V.is_str(t), float: V.is_real(t), bytes: V.is_bytes(t), list: V.is_list(t),
                     tuple: V.is_tup(t), bool: V.is_bool(t), type(None): V.is_none(t)}
                if cls is int:
                    return z3.Or(V.is_int(t), V.is_bool(t)) if sub else V.is_int(t)
                if cls is dict:
                    return z3.And(V.is_obj(t), ISDICT(t))
                if isinstance(cls, type) and cls in m:
                    return m[cls]
                q = getattr(cls, "q", None) or getattr(cls, "qual", None) or getattr(cls, "__name__", None)
                if q:
                    return z3.And(V.is_obj(t), z3.Function("isa_" + q, V, z3.BoolSort())(t))
                raise Unsupported(f"isinstance {cls}")
            py = {"int": int, "bool": bool, "real": float, "str": str, "bytes": bytes}[v.k.name]
            if not isinstance(cls, type):
                return False
            return issubclass(py, cls) if sub else py is cls
        if isinstance(v, PyObj):
            if isinstance(cls, ClassInfo):
                return isinstance(v.cls, ClassInfo) and (
                    cls.name in v.cls.mro_names(self) if sub else v.cls is cls or v.cls.qual == cls.qual
                )
            if isinstance(cls, External):
                n = cls.q.split(".")[-1]
                if isinstance(v.cls, ClassInfo):
                    return n in v.cls.mro_names(self)
                return getattr(v.cls, "q", "").split(".")[-1] == n
            return False
        py = None
        if isinstance(v, PyList):
            py = list
        elif isinstance(v, PySet):
            py = set
        elif isinstance(v, PyDict):
            py = dict
        elif isinstance(v, PyTupSeq):
            py = tuple
        elif isinstance(v, (Closure, Builtin, Bound, ClassInfo, External, PyIter, PyGen, NullSink)):
            return False
        else:
            py = type(v)
        if not isinstance(cls, type):
            return False
        return issubclass(py, cls) if sub else py is cls


class PyTupSeq(Heap):
    """a tuple of unknown length"""

    kind = "tuple"

    def __init__(self, term, codec=VAL):
        super().__init__(("seq", codec, term))


ISDICT = z3.Function("is_dict", V, z3.BoolSort())
OBJTRUE = z3.Function("obj_truth", V, z3.BoolSort())
_pv = tup_codec([VAL, VAL])
DICTOF = z3.Function("dict_of", z3.SeqSort(_pv.sort), V)
