"""Abstract interpreter for the Python subset used by the repository (control flow, calls, objects)."""
from __future__ import annotations

import ast
import os

from .core import *
from .core import _slots  # noqa: F401


class PathEnd(Exception):
    """The current path cannot continue (it raised)."""


class Budget(Exception):
    pass


class AnalysisError(Exception):
    pass


class Raise:
    __slots__ = ("exc", "site", "pc", "state", "info", "via")

    def __init__(self, exc, site, pc, state=None, info=None, via=()):
        self.exc = exc
        self.site = site
        self.pc = pc
        self.state = state
        self.info = info or {}
        self.via = via


class Flow:
    __slots__ = ("normal", "ret", "brk", "cont")

    def __init__(self, normal=None):
        self.normal = normal
        self.ret = []
        self.brk = []
        self.cont = []

    def absorb(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont


EXC_PARENT = {
    "builtins.Exception": "builtins.BaseException",
    "builtins.LookupError": "builtins.Exception",
    "builtins.KeyError": "builtins.LookupError",
    "builtins.IndexError": "builtins.LookupError",
    "builtins.ValueError": "builtins.Exception",
    "builtins.TypeError": "builtins.Exception",
    "builtins.AttributeError": "builtins.Exception",
    "builtins.ImportError": "builtins.Exception",
    "builtins.ModuleNotFoundError": "builtins.ImportError",
    "builtins.StopIteration": "builtins.Exception",
    "builtins.RuntimeError": "builtins.Exception",
    "builtins.NotImplementedError": "builtins.RuntimeError",
    "builtins.ArithmeticError": "builtins.Exception",
    "builtins.ZeroDivisionError": "builtins.ArithmeticError",
    "builtins.OverflowError": "builtins.ArithmeticError",
    "builtins.AssertionError": "builtins.Exception",
    "builtins.NameError": "builtins.Exception",
    "builtins.UserWarning": "builtins.Warning",
    "builtins.DeprecationWarning": "builtins.Warning",
    "builtins.Warning": "builtins.Exception",
    "networkx.NetworkXException": "builtins.Exception",
    "networkx.NetworkXError": "networkx.NetworkXException",
    "networkx.NetworkXPointlessConcept": "networkx.NetworkXException",
    "networkx.NetworkXAlgorithmError": "networkx.NetworkXException",
    "networkx.NetworkXUnfeasible": "networkx.NetworkXAlgorithmError",
    "networkx.NetworkXNoPath": "networkx.NetworkXUnfeasible",
    "networkx.NetworkXNoCycle": "networkx.NetworkXUnfeasible",
    "networkx.HasACycle": "networkx.NetworkXException",
    "networkx.NetworkXUnbounded": "networkx.NetworkXAlgorithmError",
    "networkx.NetworkXNotImplemented": "networkx.NetworkXException",
    "networkx.NodeNotFound": "networkx.NetworkXException",
    "networkx.AmbiguousSolution": "networkx.NetworkXException",
    "networkx.ExceededMaxIterations": "networkx.NetworkXException",
    "networkx.PowerIterationFailedConvergence": "networkx.ExceededMaxIterations",
    "scipy.sparse.linalg.ArpackNoConvergence": "scipy.sparse.linalg.ArpackError",
    "scipy.sparse.linalg.ArpackError": "builtins.RuntimeError",
}

BUILTIN_EXC = {k.split(".", 1)[1] for k in EXC_PARENT if k.startswith("builtins.")} | {"BaseException"}


class InterpBase:
    LOOP_ITERS = 4
    MAX_STEPS = 400_000
    MAX_DEPTH = 40

    def __init__(self, repo):
        self.repo = repo
        self.modules = {}  # name -> attrs dict
        self.modfile = {}
        self.loading = set()
        self.base_heap = {}
        self.ids = {}
        self.stack = []  # frames: dict(func=, mod=, node=)
        self.callpath = ()
        self.iterpath = ()
        self.collectors = [[]]
        self.try_depth = 0
        self.events = []
        self.steps = 0
        self.unknown = {}
        self.cur_exc = []
        self.trace_funcs = set()
        self.module_mode = False
        self.globals_written = set()
        self.blocked_modules = ()  # imports that fail (ImportError), for layering checks

    # ------------------------------------------------------------------ utilities
    def oid(self, *k):
        key = (k, self.callpath, self.iterpath)
        r = self.ids.get(key)
        if r is None:
            r = self.ids[key] = len(self.ids) + 1
        return r

    def new(self, st, node, obj, tag=None):
        o = self.oid(self.cur_mod(), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag, obj.kind)
        old = st.heap.get(o)
        if old is not None and self.iterpath and old.f.get("owner"):
            obj = obj.set(owner=obj.f.get("owner", NO) | old.f["owner"])
        st.heap[o] = obj
        return Ref(o)

    def cur_mod(self):
        return self.stack[-1]["mod"] if self.stack else None

    def cur_func(self):
        return self.stack[-1]["qual"] if self.stack else "<module>"

    def site(self, node=None):
        fr = self.stack[-1] if self.stack else {"mod": None, "qual": "?"}
        file = self.modfile.get(fr["mod"], "?")
        return (file, fr["qual"], getattr(node, "lineno", 0), self.snippet(node))

    def snippet(self, node):
        if node is None:
            return ""
        try:
            s = ast.unparse(node)
        except Exception:
            return type(node).__name__
        s = s.split("\n")[0]
        return s[:90]

    def event(self, kind, node, /, **info):
        self.events.append((kind, self.site(node), tuple((f["qual"]) for f in self.stack), info))

    def note_unknown(self, what, node=None):
        k = what
        self.unknown[k] = self.unknown.get(k, 0) + 1

    def raise_exc(self, exc, node, st, info=None, end=False, pc=NO):
        r = Raise(exc, self.site(node), st.pc | pc, st.copy() if (self.try_depth or end) else None, info)
        self.collectors[-1].append(r)
        if end:
            raise PathEnd

    # ------------------------------------------------------------------ modules
    def find_module(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        return None, None

    def is_repo_module(self, name):
        return self.find_module(name)[0] is not None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, ispkg = self.find_module(name)
        if path is None:
            raise AnalysisError(f"module {name} not found")
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        attrs = self.modules[name] = {}
        self.modfile[name] = os.path.relpath(path, self.repo)
        attrs["__name__"] = const(name)
        attrs["__is_pkg__"] = const(ispkg)
        attrs["__file__"] = const(path)
        saved = (self.stack, self.callpath, self.iterpath, self.collectors, self.try_depth, self.module_mode)
        self.stack = [dict(mod=name, qual="<module>", node=tree)]
        self.callpath = (("mod", name),)
        self.iterpath = ()
        self.collectors = [[]]
        self.try_depth = 0
        self.module_mode = True
        st = State(attrs, self.base_heap)
        try:
            flow = self.exec_module_body(tree.body, st)
        finally:
            recs = self.collectors[0]
            (self.stack, self.callpath, self.iterpath, self.collectors, self.try_depth, self.module_mode) = saved
        if flow is None and recs:
            self.module_failures = getattr(self, "module_failures", {})
            self.module_failures[name] = recs
        # bind in parent package
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            self.modules[par][leaf] = V(Mod(name))
        return attrs

    def exec_module_body(self, body, st):
        """Module level: state dicts are shared, so execute statement by statement in place."""
        attrs = st.env
        for s in body:
            try:
                fl = self.exec_stmt(s, st)
            except PathEnd:
                return None
            if fl.normal is None:
                return None
            if fl.normal is not st or fl.normal.env is not attrs:
                # copy results back
                env = dict(fl.normal.env)
                attrs.clear()
                attrs.update(env)
                self.base_heap.update(fl.normal.heap)
                st = State(attrs, self.base_heap)
        return True

    def import_name(self, name, node, st):
        """Return value for module `name` (dotted)."""
        top = name.split(".")[0]
        if self.is_repo_module(top):
            if not self.is_repo_module(name):
                self.raise_exc(Ext("builtins.ModuleNotFoundError"), node, st, end=True)
            self.load(name)
            return V(Mod(name))
        self.event("import", node, name=name)
        if top in self.blocked_modules:
            self.raise_exc(Ext("builtins.ModuleNotFoundError"), node, st, info={"module": name}, end=True)
        return V(Ext(name))

    def module_exports(self, name):
        attrs = self.load(name)
        if "__all__" in attrs:
            out = []
            for a in attrs["__all__"]:
                if isinstance(a, Ref):
                    o = self.base_heap.get(a.oid)
                    for e in (o.get("elts") or []) if o else []:
                        for c in e:
                            if isinstance(c, Const):
                                out.append(c.val)
            return out
        return [k for k in attrs if not k.startswith("_")]

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        fl = Flow(st)
        for i, s in enumerate(stmts):
            if fl.normal is None:
                break
            cur = fl.normal
            try:
                if isinstance(s, ast.If) and i + 1 < len(stmts):
                    two = []
                    self.steps += 1
                    f = self.branch(s.test, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x), cur, two)
                    if two:
                        # what was learned about two numberings decides the rest: follow both paths to the end
                        fl.absorb(f)
                        ends = []
                        for n in two:
                            g = self.exec_block(stmts[i + 1 :], n)
                            fl.absorb(g)
                            if g.normal is not None:
                                ends.append(g.normal)
                        fl.normal = join_states(ends)
                        return fl
                else:
                    f = self.exec_stmt(s, cur)
            except PathEnd:
                fl.normal = None
                break
            fl.absorb(f)
            fl.normal = f.normal
        return fl

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget(self.cur_func())
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note_unknown("stmt:" + type(s).__name__, s)
            return Flow(st)
        return m(s, st)

    def x_Pass(self, s, st):
        return Flow(st)

    x_Global = x_Nonlocal = x_Pass

    def x_Global(self, s, st):
        fr = self.stack[-1]
        fr.setdefault("globals", set()).update(s.names)
        return Flow(st)

    x_Nonlocal = x_Global

    def x_Expr(self, s, st):
        self.ev(s.value, st)
        return Flow(st)

    def x_Import(self, s, st):
        for a in s.names:
            v = self.import_name(a.name, s, st)
            if a.asname:
                self.assign_name(a.asname, v, st, s)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, V(Mod(top)) if self.is_repo_module(top) else V(Ext(top)), st, s)
        return Flow(st)

    def x_ImportFrom(self, s, st):
        mod = s.module or ""
        if s.level:
            base = self.cur_mod().split(".")
            ispkg = self.modules[self.cur_mod()]["__is_pkg__"][0].val
            drop = s.level - (1 if ispkg else 0)
            if drop:
                base = base[:-drop]
            mod = ".".join(base + ([mod] if mod else []))
        top = mod.split(".")[0]
        if self.is_repo_module(top):
            if not self.is_repo_module(mod):
                self.raise_exc(Ext("builtins.ModuleNotFoundError"), s, st, end=True)
            attrs = self.load(mod)
            for a in s.names:
                if a.name == "*":
                    for n in self.module_exports(mod):
                        v = attrs.get(n)
                        if v is None and self.is_repo_module(f"{mod}.{n}"):
                            self.load(f"{mod}.{n}")
                            v = attrs.get(n)
                        if v is not None:
                            self.assign_name(n, v, st, s)
                    continue
                v = attrs.get(a.name)
                if v is None and self.is_repo_module(f"{mod}.{a.name}"):
                    self.load(f"{mod}.{a.name}")
                    v = attrs.get(a.name)
                if v is None:
                    self.raise_exc(Ext("builtins.ImportError"), s, st, info={"name": f"{mod}.{a.name}"}, end=True)
                self.assign_name(a.asname or a.name, v, st, s)
        else:
            self.event("import", s, name=mod)
            if top in self.blocked_modules:
                self.raise_exc(Ext("builtins.ModuleNotFoundError"), s, st, info={"module": mod}, end=True)
            for a in s.names:
                if a.name == "*":
                    continue
                self.assign_name(a.asname or a.name, V(Ext(f"{mod}.{a.name}")), st, s)
        return Flow(st)

    def x_FunctionDef(self, s, st):
        f = self.make_func(s, st)
        v = V(f)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st)
            v = self.decorate(dv, v, st, d)
        self.assign_name(s.name, v, st, s)
        return Flow(st)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, st):
        a = s.args
        defaults = tuple(self.ev(d, st) for d in a.defaults)
        for d, n in zip(defaults, a.defaults):
            for at in d:
                if isinstance(at, Ref) and at.oid in st.heap:
                    st.heap[at.oid] = st.heap[at.oid].set(owner=frozenset({"default"}))
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, st)
                for at in kwd[k.arg]:
                    if isinstance(at, Ref) and at.oid in st.heap:
                        st.heap[at.oid] = st.heap[at.oid].set(owner=frozenset({"default"}))
        fr = self.stack[-1]
        name = getattr(s, "name", "<lambda>")
        qual = name if fr["qual"] == "<module>" else f"{fr['qual']}.{name}"
        closure = {}
        if fr["qual"] != "<module>" and not fr.get("classbody"):
            closure = dict(st.env)
            closure.update({k: v for k, v in (fr.get("closure") or {}).items() if k not in closure})
        elif fr.get("classbody"):
            closure = dict(fr.get("closure") or {})
        return Func(s, self.cur_mod(), qual, closure, defaults, kwd)

    def decorate(self, dv, fv, st, node):
        out = ()
        for d in dv:
            if isinstance(d, Ext):
                n = d.name
                if n in ("builtins.staticmethod",):
                    out = join(out, tuple(self.mark(a, "static") for a in fv))
                    continue
                if n in ("builtins.classmethod",):
                    out = join(out, tuple(self.mark(a, "classmethod") for a in fv))
                    continue
                if n in ("builtins.property", "functools.cached_property"):
                    out = join(out, V(self.make_property(fv, st, node)))
                    continue
                if n in ("functools.lru_cache", "functools.cache"):
                    out = join(out, tuple(self.mark(a, "memo") for a in fv))
                    continue
            r = self.call(V(d), [fv], {}, st, node)
            if all(isinstance(a, (Func, Bound, Ref, Cls)) for a in r) and r:
                out = join(out, r)
            else:
                self.note_unknown(f"decorator:{self.snippet(node)}", node)
                out = join(out, tuple(self.mark(a, "unknown-decorator") for a in fv))
        return out or fv

    def mark(self, a, note):
        if isinstance(a, Func):
            c = a.copy()
            c.note = a.note + (note,)
            return c
        return a

    def make_property(self, fv, st, node, setter=None):
        return self.new(st, node, HObj("property", fget=fv, fset=setter), tag="property")

    def x_ClassDef(self, s, st):
        bases = []
        for b in s.bases:
            for a in self.ev(b, st):
                bases.append(a)
        attrs = {}
        fr = self.stack[-1]
        qual = s.name if fr["qual"] == "<module>" else f"{fr['qual']}.{s.name}"
        cls = Cls(s.name, self.cur_mod(), s, bases, attrs)
        self.stack.append(dict(mod=self.cur_mod(), qual=qual, node=s, classbody=True, closure=(dict(st.env) if fr["qual"] != "<module>" else {})))
        sub = State(attrs, st.heap, st.pc, st.facts)
        try:
            for b in s.body:
                try:
                    fl = self.exec_stmt(b, sub)
                except PathEnd:
                    break
                if fl.normal is None:
                    break
                if fl.normal.env is not attrs:
                    env = dict(fl.normal.env)
                    attrs.clear()
                    attrs.update(env)
                    st.heap.update(fl.normal.heap)
                    sub = State(attrs, st.heap, st.pc, st.facts)
        finally:
            self.stack.pop()
        v = V(cls)
        for d in reversed(s.decorator_list):
            r = self.call(self.ev(d, st), [v], {}, st, d)
            if all(isinstance(a, Cls) for a in r) and r:
                v = r
        self.assign_name(s.name, v, st, s)
        return Flow(st)

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else V(NONE)
        fl = Flow(None)
        fl.ret.append((add_deps(v, st.pc), st, s))
        return fl

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return Flow(st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return Flow(st)

    def x_AugAssign(self, s, st):
        cur = self.ev(s.target, st, load=True)
        rhs = self.ev(s.value, st)
        opn = type(s.op).__name__
        v = self.inplace(opn, cur, rhs, st, s)
        self.assign(s.target, v, st, aug=True)
        return Flow(st)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.delitem(o, k, st, t)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                self.delattr_(o, t.attr, st, t)
        return Flow(st)

    def x_Assert(self, s, st):
        c = self.ev(s.test, st)
        st.pc = st.pc | deps_of(c)
        self.refine(s.test, True, st)
        return Flow(st)

    def x_If(self, s, st):
        return self.branch(s.test, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x), st)

    def branch(self, test, then, other, st, split=None):
        """Execute both sides of a test; short-circuit tests are split so refinement sees each atom."""
        truth, deps, sts = self.test(test, st)
        pc = st.pc
        pc2 = pc | deps
        if truth is True or truth is False:
            s0 = sts[0] if truth else sts[1]
            s0.pc = pc2
            fl = (then if truth else other)(s0)
            if fl.normal is not None:
                fl.normal.pc = pc | (fl.normal.pc - pc2)
            return fl
        s1, s2 = sts
        s1.pc = pc2
        s2.pc = pc2
        f1 = then(s1) if s1 is not None else Flow(None)
        f2 = other(s2) if s2 is not None else Flow(None)
        fl = Flow(None)
        fl.absorb(f1)
        fl.absorb(f2)
        n1, n2 = f1.normal, f2.normal
        if n1 is not None and n2 is not None:
            new = (n1.facts ^ n2.facts) - st.facts
            if split is not None and any(f[0] == "true" and isinstance(f[1], tuple) and f[1][:1] == ("eqtable",) for f in new):
                n1.pc, n2.pc = pc | (n1.pc - pc2), pc | (n2.pc - pc2)
                split += [n1, n2]
                fl.normal = None
                return fl
            fl.normal = n1.join(n2, pc | (n1.pc - pc2) | (n2.pc - pc2))
            self.joined(st, n1, n2, fl.normal)
        else:
            fl.normal = n1 if n1 is not None else n2
        return fl

    def test(self, e, st):
        """Evaluate a condition.  Returns (truth, deps, (state if true, state if false))."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            deps = NO
            outs = []  # states leaving early
            cur = st
            undecided = False
            for i, x in enumerate(e.values):
                t, d, (a, b) = self.test(x, cur)
                deps |= d
                go, leave = (a, b) if isand else (b, a)
                decided_leave = (t is False) if isand else (t is True)
                decided_go = (t is True) if isand else (t is False)
                if decided_leave:
                    if not undecided:
                        return (not isand, deps, (None, leave) if isand else (leave, None))
                    outs.append(leave)
                    cur = None
                    break
                if not decided_go:
                    undecided = True
                    outs.append(leave)
                cur = go
            if not undecided:
                return (isand, deps, (cur, None) if isand else (None, cur))
            pc = st.pc
            left = join_states(outs, pc)
            if cur is None:
                # every path leaves: decided
                return ((not isand), deps, (None, left) if isand else (left, None))
            return (None, deps, (cur, left) if isand else (left, cur))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, d, (a, b) = self.test(e.operand, st)
            return (None if t is None else not t, d, (b, a))
        v = self.ev(e, st)
        t = self.truth(v, st)
        d = deps_of(v) | self.truth_deps(v, st)
        if t is not None:
            return (t, d, (st, st))
        s1 = st.copy()
        s2 = st
        s1f = self.refine(e, True, s1, v)
        s2f = self.refine(e, False, s2, v)
        if not s1f and not s2f:
            return (None, d, (s1, s2))
        if not s1f:
            return (False, d, (s2, s2))
        if not s2f:
            return (True, d, (s1, s1))
        return (None, d, (s1, s2))

    def narrow(self, name, keep, st):
        v = self.lookup(name, st)
        if v is None:
            return True
        n = tuple(a for a in v if keep(a))
        if not n:
            return False
        if name in st.env and len(n) != len(v):
            st.env[name] = n
        return True

    def refine(self, e, truth, st, v=None):
        """Refine st assuming e is `truth`; returns False if impossible."""
        if isinstance(e, ast.NamedExpr):
            return self.refine(e.target, truth, st, v)
        if isinstance(e, ast.Name):
            if v is not None and truth:
                for a in v:
                    if isinstance(a, Sym) and a.tag is not None and len(v) == 1:
                        self.learn(True, a.tag, st)
            elif v is not None and not truth and len(v) == 1 and isinstance(v[0], Sym) and v[0].tag is not None:
                self.learn(False, v[0].tag, st)
            return self.narrow(e.id, lambda a: self.truth((a,), st) in (None, truth), st)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            l, r = e.left, e.comparators[0]
            if isinstance(l, ast.NamedExpr):
                l = l.target
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
                eq = isinstance(op, (ast.Is, ast.Eq)) == truth
                if isinstance(l, ast.Name):
                    val = r.value

                    def keep(a):
                        if isinstance(a, Const):
                            same = a.val is val if val is None or isinstance(val, bool) else a.val == val and type(a.val) is type(val)
                            return same if eq else not same
                        if isinstance(a, Sym):
                            if val is None:
                                return a.kind == "any" if eq else True
                            return True
                        if val is None:
                            return not eq
                        return not eq if isinstance(a, Ref) else True

                    return self.narrow(l.id, keep, st)
        if v is not None and len(v) == 1 and isinstance(v[0], Sym) and v[0].tag is not None:
            self.learn(truth, v[0].tag, st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and isinstance(e.args[0], ast.Name):
            try:
                cls = self.ev(e.args[1], st)
            except PathEnd:
                return True
            return self.narrow(e.args[0].id, lambda a: self.isinst(a, cls, st) in (None, truth), st)
        return True

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        info = self.iterate(it, st, s.iter)
        return self.loop(s, st, info)

    def x_While(self, s, st):
        return self.loop(s, st, None)

    def loop(self, s, st, info):
        fl = Flow(None)
        exits = []
        pc0 = st.pc
        isfor = info is not None
        saved_iter = self.iterpath
        site = (s.lineno, s.col_offset, self.cur_mod())

        def run_body(cur, elem):
            if isfor:
                self.assign(s.target, elem, cur)
            f = self.exec_block(s.body, cur)
            fl.ret += f.ret
            exits.extend(x for x in f.brk)
            return join_states([f.normal] + f.cont)

        try:
            if isfor and info.elts is not None and len(info.elts) <= 12:
                cur = st
                cur.pc = pc0 | info.deps
                done = True
                for i, elem in enumerate(info.elts):
                    self.iterpath = saved_iter + ((site, i),)
                    cur = run_body(cur, elem)
                    if cur is None:
                        done = False
                        break
                natural = cur if done else None
            elif isfor:
                natural = []
                natural0 = st.copy()
                if not info.nonempty:
                    natural.append(natural0)
                cur = st.copy()
                cur.pc = pc0 | info.deps
                for i in range(self.LOOP_ITERS):
                    self.iterpath = saved_iter + ((site, min(i, 2)),)
                    elem = self.loop_elem(info, i, s)
                    cur = run_body(cur, elem)
                    if cur is None:
                        break
                    natural.append(cur.copy())
                    cur = join_states([cur, st.copy()], cur.pc) if i >= 1 else cur
                natural = join_states(natural)
                if natural is not None:
                    natural.facts = frozenset(f for f in natural.facts)
            else:
                natural = []
                cur = st
                for i in range(16):
                    certain = not natural and not exits and not fl.ret  # nothing has left the loop so far
                    if i >= self.LOOP_ITERS and not certain:
                        break
                    self.iterpath = saved_iter + ((site, i if certain else min(i, 2)),)
                    t, d, (a, b) = self.test(s.test, cur)
                    if t is not True and b is not None:
                        b2 = b.copy()
                        b2.pc = cur.pc | d if cur is not None else pc0 | d
                        natural.append(b2)
                    if t is False or a is None:
                        cur = None
                        break
                    a.pc = a.pc | d
                    cur = run_body(a, None)
                    if cur is None:
                        break
                natural = join_states(natural)
        finally:
            self.iterpath = saved_iter
        if natural is not None:
            if s.orelse:
                f = self.exec_block(s.orelse, natural)
                fl.ret += f.ret
                fl.brk += f.brk
                fl.cont += f.cont
                natural = f.normal
        outs = [x for x in [natural] + exits if x is not None]
        if outs:
            n = join_states(outs)
            # conditions of early exits stay in force only if every exit shares them; keep it simple: data already labelled
            common = None
            for x in outs:
                common = x.pc if common is None else common & x.pc
            n.pc = pc0 | (common - pc0 if fl.ret else NO)
            if fl.ret:
                # an early return inside the loop controls what follows
                for _, rs, _ in fl.ret:
                    n.pc = n.pc | (rs.pc - pc0)
            fl.normal = n
        return fl

    def loop_elem(self, info, i, s):
        return info.elem

    def x_Break(self, s, st):
        fl = Flow(None)
        fl.brk.append(st)
        return fl

    def x_Continue(self, s, st):
        fl = Flow(None)
        fl.cont.append(st)
        return fl

    def x_Raise(self, s, st):
        if s.exc is None:
            if self.cur_exc:
                for r in self.cur_exc[-1]:
                    self.collectors[-1].append(Raise(r.exc, r.site, st.pc | r.pc, st.copy(), r.info, r.via))
                raise PathEnd
            self.raise_exc(Ext("builtins.RuntimeError"), s, st, end=True)
        v = self.ev(s.exc, st)
        info = {}
        excs = []
        for a in v:
            if isinstance(a, Ref):
                o = st.heap.get(a.oid)
                if o is not None and o.kind == "exc":
                    excs.append(o.f["cls"])
                    info = {"args": o.f.get("args")}
                    continue
                if o is not None and o.kind == "inst":
                    excs.append(o.f["cls"])
                    continue
            if isinstance(a, (Cls, Ext)):
                excs.append(a)
        if not excs:
            excs = [Ext("?exception")]
        for e in excs[:-1]:
            self.collectors[-1].append(Raise(e, self.site(s), st.pc, st.copy(), info))
        self.raise_exc(excs[-1], s, st, info=info, end=True)

    def exc_matches(self, exc, cls):
        """Does exception class `exc` match handler class `cls`: True/False/None."""
        if not isinstance(cls, (Cls, Ext)):
            return None
        if isinstance(exc, Cls):
            for c in exc.mro():
                if c is cls or (isinstance(c, Cls) and isinstance(cls, Cls) and c.key() == cls.key()):
                    return True
                if isinstance(c, Ext) and isinstance(cls, Ext) and self.ext_sub(c.name, cls.name):
                    return True
            return False
        if isinstance(exc, Ext):
            if exc.name.startswith("?"):
                return None
            if isinstance(cls, Ext):
                return self.ext_sub(exc.name, cls.name)
            return False
        return None

    def norm_exc(self, n):
        if n.startswith("networkx."):
            return "networkx." + n.rsplit(".", 1)[1]
        return n

    def ext_sub(self, a, b):
        a, b = self.norm_exc(a), self.norm_exc(b)
        while a is not None:
            if a == b:
                return True
            a = EXC_PARENT.get(a)
        return False

    def x_Try(self, s, st):
        entry = st.copy()
        self.collectors.append([])
        self.try_depth += 1
        names = {n for h in s.handlers for n in ([x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type is not None else ["Exception"])}
        fr = self.stack[-1] if self.stack else {}
        lookups = fr.get("lookups", False)
        fr["lookups"] = lookups or bool(names & {"KeyError", "LookupError", "Exception", "BaseException"})
        try:
            try:
                fl = self.exec_block(s.body, st)
            except PathEnd:
                fl = Flow(None)
        finally:
            fr["lookups"] = lookups
            self.try_depth -= 1
            recs = self.collectors.pop()
        out = Flow(None)
        out.absorb(fl)
        normal = fl.normal
        if normal is not None and s.orelse:
            f = self.exec_block(s.orelse, normal)
            out.absorb(f)
            normal = f.normal
        normals = [normal] if normal is not None else []
        remaining = recs
        for h in s.handlers:
            if h.type is None:
                classes = [Ext("builtins.BaseException")]
            else:
                classes = []
                hst = entry.copy()
                for a in self.ev(h.type, hst):
                    if isinstance(a, Ref):
                        o = hst.heap.get(a.oid)
                        if o is not None and o.get("elts"):
                            for e in o.f["elts"]:
                                classes.extend(e)
                            continue
                    classes.append(a)
            matched, rest = [], []
            for r in remaining:
                res = [self.exc_matches(r.exc, c) for c in classes]
                if True in res:
                    matched.append(r)
                elif None in res:
                    matched.append(r)
                    rest.append(r)
                else:
                    rest.append(r)
            remaining = rest
            if not matched:
                continue
            # one run of the handler per kind of exception: its body may tell them apart
            kinds = {}
            for r in matched:
                kinds.setdefault(r.exc.key() if h.name and isinstance(r.exc, Atom) else None, []).append(r)
            for group in kinds.values() if len(kinds) <= 4 else [matched]:
                envs = [entry] + ([fl.normal] if fl.normal is not None else [])
                env = envs[0].env
                if len(envs) > 1:
                    env = envs[0].join(envs[1], entry.pc).env
                heaps = [r.state for r in group if r.state is not None] or [entry]
                hs = join_states([State(dict(env), dict(x.heap), x.pc, x.facts & entry.facts | entry.facts) for x in heaps])
                hs.pc = entry.pc
                for r in group:
                    hs.pc = hs.pc | r.pc
                if h.name:
                    hs.env[h.name] = V(self.new(hs, h, HObj("exc", cls=group[0].exc, args=(), deps=hs.pc), tag=("exc", group[0].exc.key() if isinstance(group[0].exc, Atom) else None)))
                self.cur_exc.append(group)
                nrec = len(self.collectors[-1])
                f = None
                try:
                    f = self.exec_block(h.body, hs)
                finally:
                    self.cur_exc.pop()
                    self.event(
                        "handled", h, classes=classes, caught=[(r.exc, r.site) for r in group], swallows=f is not None and (f.normal is not None or bool(f.ret) or bool(f.brk) or bool(f.cont)),
                        raised=[r.exc for r in self.collectors[-1][nrec:]],
                    )
                out.absorb(f)
                if f.normal is not None:
                    normals.append(f.normal)
        self.collectors[-1].extend(remaining)
        out.normal = join_states(normals, entry.pc if len(normals) > 1 else None) if normals else None
        if s.finalbody:
            if out.normal is not None:
                f = self.exec_block(s.finalbody, out.normal)
                out.absorb(f)
                out.normal = f.normal
            out.ret = [(v, self._fin(s, rs), n) for v, rs, n in out.ret]
        return out

    def _fin(self, s, st):
        f = self.exec_block(s.finalbody, st)
        return f.normal or st

    x_TryStar = x_Try

    def x_With(self, s, st):
        swallow, opaque = [], False
        for it in s.items:
            v = self.ev(it.context_expr, st)
            for a in v:
                o = self.obj(a, st)
                if o is not None and o.kind == "suppress":
                    swallow += o.f["classes"]
                elif not (isinstance(a, Sym) and a.tag == "plain-context"):
                    # a context manager the analysis does not follow may translate or swallow what its body raises
                    opaque = True
            if it.optional_vars is not None:
                self.assign(it.optional_vars, (Sym("any", maybe(deps_of(v))),), st)
        if not swallow and not opaque:
            return self.exec_block(s.body, st)
        entry = st.copy()
        self.collectors.append([])
        try:
            try:
                fl = self.exec_block(s.body, st)
            except PathEnd:
                fl = Flow(None)
        finally:
            recs = self.collectors.pop()
        normals = [fl.normal] if fl.normal is not None else []
        for r in recs:
            res = [self.exc_matches(r.exc, c) for c in swallow]
            if True in res or None in res or opaque:
                x = (r.state or entry).copy()
                normals.append(State(dict(entry.env), dict(x.heap), entry.pc | r.pc, entry.facts))
            if opaque:
                self.collectors[-1].append(Raise(Ext("?exception"), r.site, r.pc, r.state, r.info, r.via))
            elif True not in res:
                self.collectors[-1].append(r)
        fl.normal = join_states(normals, entry.pc if len(normals) > 1 else None) if normals else None
        return fl

    def x_Match(self, s, st):
        self.note_unknown("stmt:Match", s)
        subj = self.ev(s.subject, st)
        outs = []
        fl = Flow(None)
        d = deps_of(subj)
        for c in s.cases:
            x = st.copy()
            x.pc = x.pc | d
            f = self.exec_block(c.body, x)
            fl.absorb(f)
            if f.normal is not None:
                outs.append(f.normal)
        outs.append(st)
        fl.normal = join_states(outs, st.pc)
        return fl

    # ------------------------------------------------------------------ assignment
    def assign_name(self, name, v, st, node):
        fr = self.stack[-1] if self.stack else None
        if fr is not None and name in fr.get("globals", ()):
            self.event("global_write", node, name=name, mod=fr["mod"], deps=self.deep_deps(v, st) | st.pc)
            if fr["mod"] in self.modules and name in self.modules[fr["mod"]]:
                return
            return
        st.env[name] = v if self.module_mode and not st.pc else add_deps(v, st.pc)

    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, t.elts, st, t)
            for e, p in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, p, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.setitem(o, k, v, st, t, aug)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr_(o, t.attr, v, st, t, aug)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, v, targets, st, node):
        n = len(targets)
        outs = [() for _ in range(n)]
        star = next((i for i, t in enumerate(targets) if isinstance(t, ast.Starred)), None)
        for a in v:
            elts = None
            info = None
            info = self.iterate((a,), st, node)
            elts = info.elts
            if elts is not None and star is None and len(elts) == n:
                for i in range(n):
                    outs[i] = join(outs[i], add_deps(elts[i], a.deps))
            elif elts is not None and star is not None and len(elts) >= n - 1:
                after = n - star - 1
                for i in range(star):
                    outs[i] = join(outs[i], elts[i])
                mid = elts[star : len(elts) - after]
                outs[star] = join(outs[star], V(self.new(st, node, HObj("list", elts=list(mid), deps=NO), tag=("star", star))))
                for j in range(after):
                    outs[star + 1 + j] = join(outs[star + 1 + j], elts[len(elts) - after + j])
            else:
                for i in range(n):
                    outs[i] = join(outs[i], add_deps(info.elem, info.deps | a.deps))
        return outs

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, load=False):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget(self.cur_func())
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note_unknown("expr:" + type(e).__name__, e)
            deps = NO
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    deps |= self.deep_deps(self.ev(c, st), st)
            return V(Sym("any", maybe(deps)))
        return m(e, st)

    def e_Constant(self, e, st):
        return V(Const(e.value))

    def lookup(self, name, st):
        v = st.env.get(name)
        if v:
            return v
        fr = self.stack[-1] if self.stack else None
        if fr is not None:
            c = fr.get("closure")
            if c and name in c:
                return c[name]
            m = self.modules.get(fr["mod"])
            if m is not None and name in m:
                return m[name]
        return None

    def e_Name(self, e, st):
        v = self.lookup(e.id, st)
        if v is not None:
            return v
        return self.builtin_name(e.id, e, st)

    def builtin_name(self, n, e, st):
        import builtins

        if hasattr(builtins, n):
            return V(Ext("builtins." + n))
        self.note_unknown("name:" + n, e)
        return V(Sym("any"))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Attribute(self, e, st):
        return self.getattr_(self.ev(e.value, st), e.attr, st, e)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        return self.getitem(o, k, st, e)

    def e_Slice(self, e, st):
        parts = [self.ev(x, st) if x is not None else V(NONE) for x in (e.lower, e.upper, e.step)]
        return V(self.new(st, e, HObj("slice", lo=parts[0], hi=parts[1], step=parts[2], deps=deps_of(parts[0]) | deps_of(parts[1]) | deps_of(parts[2])), tag="slice"))

    def e_Tuple(self, e, st):
        return self.display("tuple", e, st)

    def e_List(self, e, st):
        return self.display("list", e, st)

    def e_Set(self, e, st):
        return self.display("set", e, st)

    def display(self, kind, e, st):
        elts = []
        known = True
        extra = ()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                info = self.iterate(self.ev(x.value, st), st, x)
                if info.elts is not None:
                    elts.extend(info.elts)
                else:
                    known = False
                    extra = join(extra, add_deps(info.elem, info.deps))
            else:
                elts.append(self.ev(x, st))
        if known:
            o = HObj(kind, elts=elts, deps=NO)
        else:
            o = HObj(kind, elts=None, elem=join(extra, *elts), deps=NO)
        return V(self.new(st, e, o, tag=kind))

    def e_Dict(self, e, st):
        entries = {}
        k_, v_ = (), ()
        known = True
        extra = None
        cat = HObj("dict")
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                for a in vv:
                    o = st.heap.get(a.oid) if isinstance(a, Ref) else None
                    if o is not None and o.kind == "dict":
                        if o.f.get("entries"):
                            entries.update(o.f["entries"])
                        k_ = join(k_, o.f.get("k", ()))
                        v_ = join(v_, o.f.get("v", ()))
                        extra = o
                        cat = HObj("dict", segs=self.cat_segs(cat, o), k=True)
                    else:
                        known = False
                        cat = HObj("dict", k=True)
                continue
            kv = as_key(self.ev(k, st))
            if len(kv) == 1 and isinstance(kv[0], Const):
                entries[kv[0].val] = vv
            else:
                k_ = join(k_, kv)
                v_ = join(v_, vv)
        o = HObj("dict", entries=entries, k=k_, v=v_, deps=NO, segs=None)
        if extra is not None and len(e.keys) == 1:
            o = o.set(segs=extra.f.get("segs"), seq=extra.f.get("seq"), unord=extra.f.get("unord"))
        elif extra is not None and all(k is None for k in e.keys):
            o = o.set(segs=cat.get("segs"))
        return V(self.new(st, e, o, tag="dict"))

    def e_JoinedStr(self, e, st):
        deps = NO
        parts = []
        tag = None
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
            else:
                v = self.ev(x.value, st)
                if any(isinstance(y, Sym) and (y.kind == "idx" and y.space and y.space[0] == "n" or y.tag == "hasidx") for y in v):
                    tag = "hasidx"
                deps |= self.deep_deps(v, st)
                if parts is not None and len(v) == 1 and isinstance(v[0], Const) and x.format_spec is None and x.conversion in (-1, 115):
                    parts.append(str(v[0].val))
                else:
                    parts.append(None)
        if None in parts:
            # keep the shape so that equal keys have equal shapes
            shape = tuple(p if p is not None else "{}" for p in parts)
            return V(Sym("str", deps, name=("fmt", shape), tag=tag))
        return V(Const("".join(parts), deps))

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st):
        return V(self.make_func(e, st))

    def e_IfExp(self, e, st):
        truth, deps, (a, b) = self.test(e.test, st)
        if truth is True or truth is False:
            s0 = a if truth else b
            v = self.ev(e.body if truth else e.orelse, s0)
            if s0 is not st:
                self.adopt(st, s0)
            return add_deps(v, deps)
        pc = st.pc
        a.pc = pc | deps
        b.pc = pc | deps
        va = vb = None
        try:
            va = add_deps(self.ev(e.body, a), deps)
        except PathEnd:
            a = None
        try:
            vb = add_deps(self.ev(e.orelse, b), deps)
        except PathEnd:
            b = None
        j = join_states([a, b], pc)
        if j is None:
            raise PathEnd
        self.adopt(st, j)
        return join(va, vb)

    def adopt(self, st, o):
        st.env = o.env
        st.heap = o.heap
        st.pc = o.pc
        st.facts = o.facts

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out = ()
        deps = NO
        cur = st
        leaves = []
        for i, x in enumerate(e.values):
            v = self.ev(x, cur)
            if i == len(e.values) - 1:
                out = join(out, add_deps(v, deps))
                break
            t = self.truth(v, cur)
            td = self.truth_deps(v, cur) | deps_of(v)
            deps = deps | td
            if t is not None and t != isand:
                out = join(out, add_deps(v, deps))
                cur = None if leaves else cur
                break
            if t is None:
                keep = tuple(a for a in v if self.truth((a,), cur) in (None, not isand))
                # a value that leaves early is falsy (and) / truthy (or)
                out = join(out, add_deps(self.as_bool(keep, not isand, cur), deps))
                nxt = cur.copy()
                leaves.append(cur)
                nxt.pc = nxt.pc | td
                self.refine(x, isand, nxt, v)
                cur = nxt
        if leaves:
            pc = leaves[0].pc
            j = join_states(leaves + ([cur] if cur is not None else []), pc)
            self.adopt(st, j)
        return out

    def as_bool(self, v, truth, st):
        out = []
        for a in v:
            if isinstance(a, Sym) and a.kind == "bool":
                out.append(Const(truth, a.deps))
            else:
                out.append(a)
        return tuple(out)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            d = deps_of(v) | self.truth_deps(v, st)
            if t is None:
                tag = v[0].tag if len(v) == 1 and isinstance(v[0], Sym) and v[0].tag is not None else None
                return V(Sym("bool", d, tag=("not", tag) if tag else None))
            return V(Const(not t, d))
        return self.unary(type(e.op).__name__, v, st, e)

    def e_BinOp(self, e, st):
        l = self.ev(e.left, st)
        r = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, l, r, st, e)

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        out = None
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, st)
            v = self.compare(type(op).__name__, l, r, st, e)
            if out is None:
                out = v
            else:
                t1, t2 = self.truth(out, st), self.truth(v, st)
                d = deps_of(out) | deps_of(v)
                if t1 is True and t2 is True:
                    out = const(True, d)
                elif t1 is False or t2 is False:
                    out = const(False, d)
                else:
                    out = V(Sym("bool", d))
            l = r
        return out

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else V(NONE)
        self.do_yield(v, st, e)
        return V(NONE)

    def do_yield(self, v, st, e):
        fr = self.stack[-1]
        v = add_deps(v, st.pc)
        fr.setdefault("yields", []).append((v, st.copy(), e))

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        info = self.iterate(v, st, e)
        if info.elts is not None:
            for x in info.elts:
                self.do_yield(add_deps(x, info.deps), st, e)
        else:
            self.do_yield(add_deps(info.elem, info.deps), st, e)
        return V(NONE)

    def e_Call(self, e, st):
        f = self.ev(e.func, st)
        args = []
        kwargs = {}
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                info = self.iterate(v, st, a)
                if info.elts is not None:
                    args.extend(add_deps(x, info.deps) for x in info.elts)
                else:
                    star = join(star, add_deps(info.elem, info.deps))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                for a in v:
                    o = st.heap.get(a.oid) if isinstance(a, Ref) else None
                    if o is not None and o.kind == "dict" and o.f.get("entries") is not None:
                        kwargs.update({kk: vv for kk, vv in o.f["entries"].items() if isinstance(kk, str)})
                        if o.f.get("v"):
                            kwargs["**"] = join(kwargs.get("**"), o.f["v"])
                    else:
                        kwargs["**"] = join(kwargs.get("**"), v)
            else:
                kwargs[k.arg] = v
        if star is not None:
            kwargs["*"] = star
        return self.call(f, args, kwargs, st, e)

    # comprehension ---------------------------------------------------------------
    def comp(self, e, st, kind):
        gens = e.generators
        saved = st.env
        st.env = dict(saved)
        try:
            res = self.comp_run(e, gens, 0, st, kind)
        finally:
            # keep walrus bindings
            new = {k: v for k, v in st.env.items() if k in saved}
            targets = set()
            for g in gens:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        targets.add(n.id)
            for k in targets:
                if k in saved:
                    new[k] = saved[k]
                else:
                    new.pop(k, None)
            st.env = {**saved, **new}
        return res

    def comp_run(self, e, gens, i, st, kind):
        """Returns dict(elts=[...]|None, elem=V, deps, seq, unord)"""
        g = gens[i]
        it = self.ev(g.iter, st)
        info = self.iterate(it, st, g.iter)
        elts = info.elts
        out_elts = [] if elts is not None and len(elts) <= 12 else None
        elem = ()
        deps = info.deps
        filtered = False
        sub = []
        items = elts if out_elts is not None else [info.elem]
        saved_iter = self.iterpath
        site = (e.lineno, e.col_offset, i, self.cur_mod())
        rounds = 1
        for j, x in enumerate(items):
            self.iterpath = saved_iter + ((site, j),)
            self.assign(g.target, add_deps(x, info.deps if out_elts is not None else NO), st)
            ok = True
            for c in g.ifs:
                t, d, (a, b) = self.test(c, st)
                deps |= d
                if t is False:
                    ok = False
                    break
                if t is None:
                    filtered = True
                    self.adopt(st, a)
                    st.pc = st.pc
            if not ok:
                continue
            if i + 1 < len(gens):
                r = self.comp_run(e, gens, i + 1, st, kind)
                sub.append(r)
                deps |= r["deps"]
                elem = join(elem, r["elem"])
                if out_elts is not None and r["elts"] is not None and not filtered:
                    out_elts.extend(r["elts"])
                else:
                    out_elts = None if r["elts"] is None or filtered else out_elts
            else:
                if kind == "dict":
                    k = self.ev(e.key, st)
                    v = self.ev(e.value, st)
                    x2 = (k, v)
                    elem = (join(elem[0], k), join(elem[1], v)) if elem else x2
                else:
                    x2 = self.ev(e.elt, st)
                    elem = join(elem, x2)
                if out_elts is not None:
                    out_elts.append(x2)
        self.iterpath = saved_iter
        if filtered:
            out_elts = None
        seq = None
        if len(gens) == 1 and info.seq is not None:
            seq = info.seq if not filtered else ("filt", info.seq, site[:2])
        return dict(elts=out_elts, elem=elem, deps=deps, seq=seq, unord=info.unord, nonempty=info.nonempty and not filtered, length=info.length if not filtered else None, filtered=filtered)

    def e_ListComp(self, e, st):
        r = self.comp(e, st, "list")
        return V(self.new(st, e, HObj("list", elts=r["elts"], elem=r["elem"], deps=r["deps"], seq=r["seq"], unord=r["unord"], length=r["length"]), tag="comp"))

    def e_SetComp(self, e, st):
        r = self.comp(e, st, "set")
        return V(self.new(st, e, HObj("set", elts=None, elem=r["elem"], deps=r["deps"], unord=True), tag="comp"))

    def e_GeneratorExp(self, e, st):
        r = self.comp(e, st, "gen")
        return V(self.new(st, e, HObj("iter", elts=r["elts"], elem=r["elem"], deps=r["deps"], seq=r["seq"], unord=r["unord"], length=r["length"]), tag="comp"))

    def e_DictComp(self, e, st):
        r = self.comp(e, st, "dict")
        entries = {}
        k, v = (), ()
        if r["elts"] is not None and all(len(x[0]) == 1 and isinstance(x[0][0], Const) for x in r["elts"]):
            for kk, vv in r["elts"]:
                try:
                    entries[kk[0].val] = vv
                except TypeError:
                    k, v = join(k, kk), join(v, vv)
        elif r["elem"]:
            k, v = r["elem"]
        o = HObj("dict", entries=entries, k=k, v=v, deps=r["deps"], seq=r["seq"], unord=r["unord"], segs=None, filtered=r["filtered"])
        o = self.dict_segments(o, r, st)
        return V(self.new(st, e, o, tag="comp"))

    def dict_segments(self, o, r, st):
        return o

    # ------------------------------------------------------------------ calling repository functions
    def bind(self, f, args, kwargs, st, node):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        extra = []
        kwargs = dict(kwargs)
        star = kwargs.pop("*", None)
        starkw = kwargs.pop("**", None)
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        if extra and a.vararg is None:
            self.raise_exc(Ext("builtins.TypeError"), node, st, info={"binding": f.qual}, end=True)
        if star is not None:
            for p in pos:
                if p not in env and p not in kwargs:
                    env[p] = star
        if a.vararg is not None:
            env[a.vararg.arg] = V(self.new(st, f.node, HObj("tuple", elts=extra if star is None else None, elem=join(star, *extra), deps=NO), tag=("vararg", id(node))))
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        rest = {}
        for k, v in kwargs.items():
            if k in names:
                if k in env and star is None:
                    self.raise_exc(Ext("builtins.TypeError"), node, st, info={"binding": f.qual, "duplicate": k}, end=True)
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                self.raise_exc(Ext("builtins.TypeError"), node, st, info={"binding": f.qual, "unexpected": k}, end=True)
        if a.kwarg is not None:
            o = HObj("dict", entries=rest, k=V(Sym("str")) if starkw else (), v=starkw or (), deps=NO)
            env[a.kwarg.arg] = V(self.new(st, f.node, o, tag=("kwarg", id(node))))
        n = len(f.defaults)
        for i, d in enumerate(f.defaults):
            p = pos[len(pos) - n + i]
            if p not in env:
                env[p] = d
        for k, d in f.kwdefaults.items():
            if k not in env:
                env[k] = d
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if starkw is not None:
                    env[p] = starkw
                else:
                    self.raise_exc(Ext("builtins.TypeError"), node, st, info={"binding": f.qual, "missing": p}, end=True)
        return env

    def is_generator(self, f):
        if f.isgen is None:
            f.isgen = False
            if not isinstance(f.node, ast.Lambda):
                todo = list(f.node.body)
                while todo:
                    n = todo.pop()
                    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                        continue
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        f.isgen = True
                        break
                    todo.extend(ast.iter_child_nodes(n))
        return f.isgen

    def call_func(self, f, args, kwargs, st, node):
        h = self.hook_call(f, args, kwargs, st, node)
        if h is not None:
            return h
        env = self.bind(f, args, kwargs, st, node)
        if self.stack and self.log_calls:
            self.event("usercall", node, caller=self.stack[-1]["fnode"], func=f, deps={k: (self.deep_deps(x, st) if k in self.log_calls else NO) for k, x in env.items()}, off={k for k, x in env.items() if x and all(isinstance(a, Const) and a.val is False for a in x)}, pc=st.pc)
        if "memo" in f.note and not self.module_mode:
            d = NO
            for x in env.values():
                d |= self.deep_deps(x, st)
            self.event("memo_call", node, func=f.qual, deps=d)
        if self.is_generator(f):
            return V(self.new(st, node, HObj("gen", func=V(f), env=env, deps=st.pc, ran=False), tag=("gen", f.qual)))
        v, _ = self.run_body(f, env, st, node)
        return v

    def run_body(self, f, env, st, node):
        """Run a function body in the caller's heap.  Returns (value, yields)."""
        if len(self.stack) > self.MAX_DEPTH or sum(1 for fr in self.stack if fr.get("fnode") is f.node) > 2:
            self.note_unknown("recursion:" + f.qual, node)
            return V(Sym("any", maybe(st.pc))), []
        self.trace_funcs.add((f.mod, f.qual))
        saved = (self.callpath, self.iterpath)
        self.callpath = self.callpath + (((self.cur_mod(), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), f.qual), self.iterpath),)
        self.iterpath = ()
        fr = dict(mod=f.mod, qual=f.qual, node=f.node, fnode=f.node, closure=f.closure, entry=getattr(node, "lineno", None), params=env)
        self.stack.append(fr)
        sub = State(dict(env), st.heap, st.pc, st.facts)
        nrec = len(self.collectors[-1])
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, sub)
                rets = [(v, sub, f.node)]
            else:
                fl = self.exec_block(f.node.body, sub)
                rets = fl.ret
                if fl.normal is not None:
                    if any(n is not None and not (len(v_) == 1 and isinstance(v_[0], Const) and v_[0].val is None) for v_, _, n in rets):
                        self.event("falls_off", f.node, func=f.qual, mod=f.mod)
                    rets = rets + [(V(Const(None, fl.normal.pc)), fl.normal, None)]
        except PathEnd:
            rets = []
        finally:
            self.stack.pop()
            self.callpath, self.iterpath = saved
        for r in self.collectors[-1][nrec:]:
            r.via = (f.qual,) + r.via
        self.on_return(f, rets, fr, st, node)
        if not rets:
            raise PathEnd
        val = join(*[r[0] for r in rets])
        j = join_states([r[1] for r in rets])
        st.heap = j.heap
        # facts about the callee's paths hold only if they hold on all of them
        st.facts = j.facts
        return val, fr.get("yields", [])

    def on_return(self, f, rets, fr, st, node):
        pass

    log_calls = ()  # parameter names whose flow into user functions is recorded

    def hook_call(self, f, args, kwargs, st, node):
        return None
