"""A small abstract evaluator with trace partitioning.

Evaluates the syntax trees of a few repository functions over an abstract domain supplied by a check.  Every question
the domain cannot answer (is this key cached? does the graph have self-edges?) splits the analysis into the possible
answers; all combinations are followed.  Nothing of the repository is imported or executed, and anything the evaluator
does not understand becomes an `Unk` value, about which nothing is claimed.
"""
from __future__ import annotations

import ast
import os
from pathlib import Path

CRASHED = []  # paths abandoned because of a construct the model does not cover


class Abs:
    """Base class of abstract values."""

    def attr(self, ev, name, node):
        return Unk(f".{name}")

    def setattr(self, ev, name, value, node):
        pass

    def call(self, ev, args, kwargs, node):
        return Unk("call")

    def binop(self, ev, op, other, swapped, node):
        return Unk(op)

    def unop(self, ev, op, node):
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        return Unk(op)

    def contains(self, ev, item, node):
        return Unk("in")

    def getitem(self, ev, key, node):
        return Unk("[]")

    def setitem(self, ev, key, value, node):
        pass

    def delitem(self, ev, key, node):
        pass

    def truth(self, ev, node):
        return ev.choose([True, False], ("truth", id(self)))

    def iterate(self, ev, node):
        return None

    def length(self, ev, node):
        return Unk("len")


class Unk(Abs):
    def __init__(self, why=""):
        self.why = why

    def attr(self, ev, name, node):
        return self

    def call(self, ev, args, kwargs, node):
        return self

    def binop(self, ev, op, other, swapped, node):
        return self

    unop = lambda self, ev, op, node: self
    compare = binop

    def contains(self, ev, item, node):
        return self

    def getitem(self, ev, key, node):
        return self

    def truth(self, ev, node):
        ev.unknown += 1
        ev.tainted = True  # from here on the path may not be a real one
        return ev.choose([True, False], ("unk", self.why))

    def __repr__(self):
        return f"?{self.why}"


class Ext(Abs):
    """A name outside the repository, by dotted path; calls are answered by the domain."""

    def __init__(self, name):
        self.name = name

    def attr(self, ev, name, node):
        r = ev.domain.ext_attr(ev, self.name, name, node)
        return Ext(f"{self.name}.{name}") if r is None else r

    def call(self, ev, args, kwargs, node):
        return ev.domain.ext_call(ev, self.name, args, kwargs, node)

    def getitem(self, ev, key, node):
        return ev.domain.ext_getitem(ev, self.name, key, node)

    def truth(self, ev, node):
        return True

    def compare(self, ev, op, other, swapped, node):
        if isinstance(other, Ext) and op in ("is", "is not", "==", "!="):
            return (self.name == other.name) == (op in ("is", "=="))
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        return Unk(op)

    def __repr__(self):
        return f"<{self.name}>"


class MRaise(Exception):
    def __init__(self, exc, node=None, args=()):
        super().__init__(exc)
        self.exc = exc
        self.node = node
        self.xargs = args


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class TooDeep(Exception):
    pass


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.env = {}
        self.defs = {}
        for n in tree.body:
            self.add(n)

    def add(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.defs[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.defs[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.defs[a.asname or a.name] = ("from", n.module, n.level, a.name)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = ("assign", n.value)
        elif isinstance(n, (ast.If, ast.Try)):
            for b in list(n.body) + list(getattr(n, "orelse", [])):
                self.add(b)


class MModule(Abs):
    def __init__(self, m):
        self.m = m

    def attr(self, ev, name, node):
        return ev.module_name(self.m, name)


class MFunc(Abs):
    def __init__(self, node, mod, closure=None, cls=None, defaults=None, kwdefaults=None):
        self.node, self.mod, self.closure, self.cls = node, mod, closure, cls
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or []
        self.name = getattr(node, "name", "<lambda>")

    def attr(self, ev, name, node):
        if name == "__name__":
            return self.name
        return Unk(name)

    def call(self, ev, args, kwargs, node):
        return ev.call_function(self, args, kwargs, node)

    def truth(self, ev, node):
        return True

    def __repr__(self):
        return f"<def {self.name}>"


class MBound(Abs):
    def __init__(self, obj, f):
        self.obj, self.f = obj, f

    def call(self, ev, args, kwargs, node):
        return ev.call(self.f, [self.obj] + list(args), kwargs, node)


class MProp(Abs):
    def __init__(self, f):
        self.f = f


class MWrap(Abs):
    def __init__(self, kind, f):
        self.kind, self.f = kind, f


class Prim(Abs):
    """A primitive: a Python function of (ev, args, kwargs, node) working on abstract values."""

    def __init__(self, f, name=""):
        self.f, self.name = f, name

    def call(self, ev, args, kwargs, node):
        return self.f(ev, args, kwargs, node)

    def compare(self, ev, op, other, swapped, node):
        if op in ("==", "!=", "is", "is not") and self.name in PYTYPES:
            if isinstance(other, Prim) and other.name in PYTYPES:
                return (other.name == self.name) == (op in ("==", "is"))
            if other is None or isinstance(other, (int, float, str, MClass)):
                return op in ("!=", "is not")
        return Unk(op)

    def truth(self, ev, node):
        return True


class MClass(Abs):
    def __init__(self, node, mod):
        self.node, self.mod = node, mod
        self.name = node.name
        self.cache = {}

    def bases(self, ev):
        out = []
        for b in self.node.bases:
            v = ev.eval(b, ev.mod_frame(self.mod))
            out.append(v)
        return out

    def lookup(self, ev, name, seen=0):
        if name in self.cache:
            return self.cache[name]
        r = None
        for n in self.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                f = ev.make_func(n, ev.mod_frame(self.mod), cls=self)
                decs = [ast.unparse(d) for d in n.decorator_list]
                if "property" in decs:
                    r = MProp(f)
                elif "classmethod" in decs:
                    r = MWrap("classmethod", f)
                elif "staticmethod" in decs:
                    r = MWrap("staticmethod", f)
                elif any(d.endswith(".setter") for d in decs):
                    continue
                else:
                    r = f
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                fr = ev.mod_frame(self.mod)
                fr = Frame(self.mod, ClassScope(ev, self), None)
                r = ev.eval(n.value, fr)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                r = ev.eval(n.value, ev.mod_frame(self.mod))
        if r is None:
            for b in self.bases(ev):
                if isinstance(b, MClass) and seen < 8:
                    r = b.lookup(ev, name, seen + 1)
                    if r is not None:
                        return r
            return None
        self.cache[name] = r
        return r

    def mro_names(self, ev):
        out = [self.name]
        for b in self.bases(ev):
            if isinstance(b, MClass):
                out += b.mro_names(ev)
            elif isinstance(b, Ext):
                out.append(b.name)
        return out

    def attr(self, ev, name, node):
        if name == "__name__":
            return self.name
        r = self.lookup(ev, name)
        if r is None:
            return Unk(f"{self.name}.{name}")
        if isinstance(r, MWrap):
            return MBound(self, r.f) if r.kind == "classmethod" else r.f
        return r

    def call(self, ev, args, kwargs, node):
        return ev.domain.instantiate(ev, self, args, kwargs, node)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "==", "is not", "!="):
            same = self is other or (isinstance(other, MClass) and other.node is self.node)
            return same == (op in ("is", "=="))
        return Unk(op)

    def truth(self, ev, node):
        return True

    def __repr__(self):
        return f"<class {self.name}>"


class ClassScope(dict):
    def __init__(self, ev, cls):
        self.ev, self.cls = ev, cls

    def __contains__(self, k):
        return any(isinstance(n, ast.FunctionDef) and n.name == k or isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == k for t in n.targets) for n in self.cls.node.body)

    def __getitem__(self, k):
        return self.cls.lookup(self.ev, k)


class MInst(Abs):
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})

    def attr(self, ev, name, node):
        if name in self.attrs:
            return self.attrs[name]
        if name == "__class__":
            return self.cls
        r = self.cls.lookup(ev, name)
        if r is None:
            r = ev.domain.inst_attr(ev, self, name, node)
            return r
        if isinstance(r, MProp):
            return ev.call(r.f, [self], {}, node)
        if isinstance(r, MWrap):
            return MBound(self.cls, r.f) if r.kind == "classmethod" else r.f
        if isinstance(r, MFunc) or isinstance(r, Prim) and r.name not in PYTYPES:
            return MBound(self, r)
        if isinstance(r, Ext) and r.name.endswith("property"):
            return Unk(name)
        return r

    def setattr(self, ev, name, value, node):
        self.attrs[name] = value

    def special(self, ev, name, args, node):
        r = self.cls.lookup(ev, name)
        if r is None:
            return ev.domain.inst_special(ev, self, name, args, node)
        return ev.call(r, [self] + list(args), {}, node)

    def has(self, ev, name):
        return self.cls.lookup(ev, name) is not None

    def contains(self, ev, item, node):
        return self.special(ev, "__contains__", [item], node)

    def getitem(self, ev, key, node):
        return self.special(ev, "__getitem__", [key], node)

    def setitem(self, ev, key, value, node):
        self.special(ev, "__setitem__", [key, value], node)

    def delitem(self, ev, key, node):
        self.special(ev, "__delitem__", [key], node)

    def length(self, ev, node):
        return self.special(ev, "__len__", [], node)

    def iterate(self, ev, node):
        r = self.special(ev, "__iter__", [], node)
        if isinstance(r, (list, tuple)):
            return list(r)
        if isinstance(r, Abs):
            return r.iterate(ev, node)
        return None

    def truth(self, ev, node):
        if self.has(ev, "__len__"):
            n = self.length(ev, node)
            return ev.truth(n, node)
        return True

    def binop(self, ev, op, other, swapped, node):
        nm = {"-": "sub", "&": "and", "|": "or", "^": "xor"}.get(op)
        if nm:
            nm = ("__r" if swapped else "__") + nm + "__"
            return self.special(ev, nm, [other], node)
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (self is other) == (op == "is")
        nm = {"==": "__eq__", "!=": "__ne__", "<=": "__le__", "<": "__lt__", ">=": "__ge__", ">": "__gt__"}.get(op)
        if nm:
            return self.special(ev, nm, [other], node)
        return Unk(op)


class Keys(list):
    """dict.keys() or .items(): a list in the order of the dictionary, and like a set under | & - ^."""


class Frame:
    __slots__ = ("mod", "vars", "parent", "func", "globals", "nonlocals")

    def __init__(self, mod, vars, parent, func=None):
        self.mod, self.vars, self.parent, self.func = mod, vars, parent, func
        self.nonlocals = set()


_BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
_SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!=", "is": "is", "is not": "is not"}
EXC = {
    "KeyError": ("KeyError", "LookupError", "Exception"), "IndexError": ("IndexError", "LookupError", "Exception"),
    "ValueError": ("ValueError", "Exception"), "TypeError": ("TypeError", "Exception"), "StopIteration": ("StopIteration", "Exception"),
    "AttributeError": ("AttributeError", "Exception"), "ImportError": ("ImportError", "Exception"),
}


def num(v):
    return isinstance(v, (bool, int, float)) and not isinstance(v, Abs)


class Mini:
    def __init__(self, repo, domain, package="graphblas_algorithms"):
        self.root = Path(repo)
        self.package = package
        self.modules = {}
        self.domain = domain
        self.decisions = []
        self.pos = 0
        self.unknown = 0
        self.depth = 0
        self.steps = 0
        self.funcs = set()
        self.stack = []

    # ---- choices
    def choose(self, options, why=None):
        if len(options) == 1:
            return options[0]
        if self.pos < len(self.decisions):
            i, n, _ = self.decisions[self.pos]
            if n != len(options):
                raise TooDeep("unstable choice")
        else:
            i = 0
            self.decisions.append((0, len(options), why))
        self.pos += 1
        if self.pos > 400:
            raise TooDeep("choices")
        return options[i]

    def paths(self, thunk, limit=20000):
        """Run thunk() once per combination of answers; yields its results."""
        self.decisions = []
        n = 0
        while True:
            self.pos = 0
            self.tainted = False
            self.depth = 0
            self.steps = 0
            self.stack = []
            try:
                res, ok = thunk(), True
            except (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError, RecursionError, StopIteration, MRaise, TooDeep):
                # something the model does not cover: the path is counted, not judged
                if os.environ.get("VERIF_DEBUG"):
                    raise
                ok = False
                CRASHED.append(tuple(self.stack[-1:]))
            if ok:
                yield res
            n += 1
            del self.decisions[self.pos:]
            while self.decisions and self.decisions[-1][0] + 1 >= self.decisions[-1][1]:
                self.decisions.pop()
            if not self.decisions:
                return
            i, k, w = self.decisions[-1]
            self.decisions[-1] = (i + 1, k, w)
            if n >= limit:
                self.truncated = True
                return

    truncated = False
    tainted = False

    # ---- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = self.root / Path(*name.split("."))
        m = None
        if p.with_suffix(".py").is_file():
            m = Module(name, p.with_suffix(".py"), ast.parse(p.with_suffix(".py").read_text()), False)
        elif (p / "__init__.py").is_file():
            m = Module(name, p / "__init__.py", ast.parse((p / "__init__.py").read_text()), True)
        self.modules[name] = m
        return m

    def mod_frame(self, m):
        return Frame(m, m.env, None)

    def import_(self, dotted):
        if dotted.split(".")[0] == self.package:
            m = self.module(dotted)
            if m is not None:
                return MModule(m)
        return Ext(dotted)

    def module_name(self, m, name, seen=0):
        if name in m.env:
            return m.env[name]
        d = m.defs.get(name)
        v = None
        if isinstance(d, ast.FunctionDef):
            v = self.make_func(d, self.mod_frame(m))
            for dec in reversed(d.decorator_list):
                v = self.domain.decorate(self, v, dec, self.mod_frame(m))
        elif isinstance(d, ast.ClassDef):
            v = MClass(d, m)
        elif isinstance(d, tuple) and d[0] == "import":
            v = self.import_(d[1])
        elif isinstance(d, tuple) and d[0] == "from":
            base = d[1] or ""
            if d[2]:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (d[2] - 1)]
                base = ".".join(parts + ([d[1]] if d[1] else []))
            if base.split(".")[0] == self.package:
                src = self.module(base)
                sub = self.module(base + "." + d[3])
                if src is not None and (d[3] in src.defs or d[3] in src.env) and src is not m:
                    v = self.module_name(src, d[3])
                elif sub is not None:
                    v = MModule(sub)
                elif src is not None and src is not m:
                    v = self.module_name(src, d[3])
            else:
                v = self.import_(base).attr(self, d[3], None) if base else Unk(name)
        elif isinstance(d, tuple) and d[0] == "assign":
            m.env[name] = Unk(f"recursive {name}")
            v = self.eval(d[1], self.mod_frame(m))
        if v is None:
            # star imports
            for n in m.tree.body:
                if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)] if n.level else []
                    base = ".".join(parts + ([n.module] if n.module else []))
                    src = self.module(base) if base.split(".")[0] == self.package else None
                    if src is not None and src is not m and seen < 12:
                        r = self.module_name(src, name, seen + 1)
                        if not isinstance(r, Unk):
                            v = r
                            break
        if v is None:
            sub = self.module(m.name + "." + name) if m.is_pkg else None
            if sub is not None:
                return MModule(sub)
            return Unk(f"name {name}")
        m.env[name] = v
        return v

    # ---- functions
    def make_func(self, node, frame, cls=None):
        a = node.args
        defaults = [self.eval(d, frame) for d in a.defaults]
        kwd = [self.eval(d, frame) if d is not None else None for d in a.kw_defaults]
        return MFunc(node, frame.mod, frame if frame.func is not None or isinstance(frame.vars, ClassScope) is False and frame.parent is not None else None, cls, defaults, kwd)

    def call_function(self, f, args, kwargs, node):
        r = self.domain.intercept(self, f, args, kwargs, node)
        if r is not None:
            return r[0]
        if self.depth > 40:
            raise TooDeep("depth")
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise MRaise("TypeError", node)
        kwargs = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                env[n] = kwargs.pop(n)
        if a.kwarg:
            env[a.kwarg.arg] = kwargs
        elif kwargs:
            raise MRaise("TypeError", node)
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            env.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            env.setdefault(x.arg, d)
        for n in names:
            if n not in env:
                raise MRaise("TypeError", node)
        fr = Frame(f.mod, env, f.closure, f)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, fr)
        self.funcs.add((f.mod.name, f.name))
        self.depth += 1
        self.stack.append((f, node))
        gen = _is_generator(f.node)
        if gen:
            env["__yields__"] = []
        try:
            self.exec(f.node.body, fr)
            rv = None
        except _Return as r:
            rv = r.v
        finally:
            self.depth -= 1
            self.stack.pop()
        if gen:
            return env["__yields__"]
        return rv

    def call(self, f, args, kwargs, node):
        self.steps += 1
        if self.steps > 20000:
            raise TooDeep("steps")
        if isinstance(f, Abs):
            return f.call(self, args, kwargs, node)
        return Unk("call")

    # ---- names
    def lookup(self, name, fr, node=None):
        f = fr
        while f is not None:
            if f.vars is not f.mod.env and name in f.vars:
                return f.vars[name]
            f = f.parent
        m = fr.mod
        if name in m.env or name in m.defs:
            return self.module_name(m, name)
        b = BUILTINS.get(name)
        if b is not None:
            return b
        v = self.module_name(m, name)
        if isinstance(v, Unk) and name in EXC:
            return Ext(name)
        if isinstance(v, Unk) and name in PYTYPES:
            return Ext(name)
        return v

    # ---- statements
    def exec(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        t = type(s)
        if t is ast.Return:
            raise _Return(self.eval(s.value, fr) if s.value is not None else None)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                self.yield_(s.value, fr)
                return
            self.eval(s.value, fr)
        elif t is ast.Assign:
            v = self.eval(s.value, fr)
            for x in s.targets:
                self.assign(x, v, fr)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr), fr)
        elif t is ast.AugAssign:
            cur = self.eval(_load(s.target), fr)
            v = self.domain.augment(self, _BIN[type(s.op)], cur, self.eval(s.value, fr), s)
            self.assign(s.target, v, fr)
        elif t is ast.If:
            if self.truth(self.eval(s.test, fr), s.test):
                self.exec(s.body, fr)
            else:
                self.exec(s.orelse, fr)
        elif t is ast.While:
            n, pos, tok = 0, self.pos, self.domain.loop_enter(self)
            try:
                while self.truth(self.eval(s.test, fr), s.test):
                    n += 1
                    if n > 12 or n > self.domain.while_rounds and self.pos > pos:
                        # the histories that leave the loop by now are the ones judged
                        raise TooDeep("while")
                    try:
                        self.exec(s.body, fr)
                    except _Break:
                        self.domain.loop_exit(self, tok, n, False)
                        return
                    except _Continue:
                        continue
            except _Return:
                self.domain.loop_exit(self, tok, n, False)
                raise
            self.domain.loop_exit(self, tok, n, True)
            self.exec(s.orelse, fr)
        elif t is ast.For:
            items = self.items(self.eval(s.iter, fr), s.iter)
            for x in items:
                self.assign(s.target, x, fr)
                try:
                    self.exec(s.body, fr)
                except _Break:
                    return
                except _Continue:
                    continue
            self.exec(s.orelse, fr)
        elif t is ast.FunctionDef:
            f = self.make_func(s, fr)
            f.closure = fr
            v = f
            for dec in reversed(s.decorator_list):
                v = self.domain.decorate(self, v, dec, fr)
            fr.vars[s.name] = v
        elif t is ast.Raise:
            if s.exc is None:
                raise MRaise(getattr(self, "handling", "Exception"), s)
            e = s.exc
            args = ()
            if isinstance(e, ast.Call):
                args = tuple(self.eval(x, fr) for x in e.args if not isinstance(x, ast.Starred))
                e = e.func
            raise MRaise(ast.unparse(e).split(".")[-1], s, args)
        elif t is ast.Try:
            self.try_(s, fr)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    o = self.eval(x.value, fr)
                    k = self.eval_index(x.slice, fr)
                    if isinstance(o, Abs):
                        o.delitem(self, k, x)
                    elif isinstance(o, dict):
                        if k not in o:
                            raise MRaise("KeyError", x)
                        del o[k]
                elif isinstance(x, ast.Name):
                    fr.vars.pop(x.id, None)
        elif t is ast.Pass or t is ast.Global or t is ast.Assert:
            pass
        elif t is ast.Nonlocal:
            fr.nonlocals.update(s.names)
        elif t is ast.Break:
            raise _Break
        elif t is ast.Continue:
            raise _Continue
        elif t is ast.Import:
            for a in s.names:
                fr.vars[a.asname or a.name.split(".")[0]] = self.import_(a.name if a.asname else a.name.split(".")[0])
        elif t is ast.ImportFrom:
            tmp = Module.__new__(Module)
            tmp.name, tmp.is_pkg, tmp.env, tmp.defs, tmp.tree = fr.mod.name, fr.mod.is_pkg, {}, {}, ast.Module([], [])
            tmp.add(s)
            for a in s.names:
                fr.vars[a.asname or a.name] = self.module_name(tmp, a.asname or a.name)
        elif t is ast.With:
            for i in s.items:
                v = self.eval(i.context_expr, fr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, Unk("with"), fr)
            self.exec(s.body, fr)
        else:
            self.unknown += 1

    def yield_(self, e, fr):
        ys = fr.vars.get("__yields__")
        if isinstance(e, ast.YieldFrom):
            ys.extend(self.items(self.eval(e.value, fr), e))
        else:
            ys.append(self.eval(e.value, fr) if e.value is not None else None)

    def try_(self, s, fr):
        try:
            try:
                self.exec(s.body, fr)
            except MRaise as r:
                for h in s.handlers:
                    if self.catches(h.type, r.exc):
                        if h.name:
                            fr.vars[h.name] = Unk("exception")
                        old = getattr(self, "handling", None)
                        self.handling = r.exc
                        try:
                            self.exec(h.body, fr)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.exec(s.orelse, fr)
        finally:
            if s.finalbody:
                self.exec(s.finalbody, fr)

    def catches(self, t, exc):
        if t is None:
            return True
        names = [ast.unparse(x).split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        return any(n in EXC.get(exc, (exc, "Exception")) or n == "BaseException" for n in names)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                p = fr.parent
                while p is not None:
                    if t.id in p.vars:
                        p.vars[t.id] = v
                        return
                    p = p.parent
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = None
            if isinstance(v, (tuple, list)):
                items = list(v)
            elif isinstance(v, Abs):
                items = v.iterate(self, t)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if items is not None and star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise MRaise("ValueError", t)
                mid = items[i:len(items) - k]
                items = items[:i] + [mid] + items[len(items) - k:]
            if items is not None and len(items) == len(t.elts):
                for x, y in zip(t.elts, items):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
            elif items is not None:
                raise MRaise("ValueError", t)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Unk("unpack"), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            if isinstance(o, Abs):
                o.setattr(self, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            if isinstance(o, Abs):
                o.setitem(self, k, v, t)
            elif isinstance(o, dict):
                try:
                    o[k] = v
                except TypeError:
                    self.unknown += 1
            elif isinstance(o, list) and isinstance(k, int) and -len(o) <= k < len(o):
                o[k] = v
            else:
                self.unknown += 1

    # ---- expressions
    def truth(self, v, node=None):
        if isinstance(v, Abs):
            return v.truth(self, node)
        return bool(v)

    def items(self, v, node=None):
        if isinstance(v, (list, tuple, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Abs):
            r = v.iterate(self, node)
            if r is not None:
                return r
        self.unknown += 1
        self.tainted = True
        return self.choose([[], [Unk("element")]], ("items", getattr(node, "lineno", 0)))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def eval(self, e, fr):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            return self.lookup(e.id, fr, e)
        if t is ast.Attribute:
            return self.getattr(self.eval(e.value, fr), e.attr, e)
        if t is ast.Call:
            return self.eval_call(e, fr)
        if t is ast.Subscript:
            return self.getitem(self.eval(e.value, fr), self.eval_index(e.slice, fr), e)
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.eval(x, fr)
                b = self.truth(v, x)
                if isinstance(v, Abs) and not isinstance(v, (MInst,)):
                    v = self.domain.decided(self, v, b)
                if isinstance(e.op, ast.And) and not b or isinstance(e.op, ast.Or) and b:
                    return v
            return v
        if t is ast.UnaryOp:
            v = self.eval(e.operand, fr)
            if isinstance(e.op, ast.Not):
                return not self.truth(v, e)
            if isinstance(v, Abs):
                return v.unop(self, {ast.USub: "-", ast.Invert: "~", ast.UAdd: "+"}[type(e.op)], e)
            if num(v):
                return -v if isinstance(e.op, ast.USub) else ~v if isinstance(e.op, ast.Invert) else v
            return Unk("unary")
        if t is ast.BinOp:
            return self.binop(_BIN[type(e.op)], self.eval(e.left, fr), self.eval(e.right, fr), e)
        if t is ast.Compare:
            left = self.eval(e.left, fr)
            res = True
            for op, r in zip(e.ops, e.comparators):
                right = self.eval(r, fr)
                res = self.compare(_CMP[type(op)], left, right, e)
                if len(e.ops) > 1:
                    if not self.truth(res, e):
                        return False
                    res = True
                left = right
            return res
        if t is ast.IfExp:
            return self.eval(e.body if self.truth(self.eval(e.test, fr), e.test) else e.orelse, fr)
        if t in (ast.Tuple, ast.List):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += self.items(self.eval(x.value, fr), x)
                else:
                    out.append(self.eval(x, fr))
            return tuple(out) if t is ast.Tuple else out
        if t is ast.Set:
            try:
                return {self.eval(x, fr) for x in e.elts}
            except TypeError:
                return Unk("set")
        if t is ast.Dict:
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.eval(v, fr)
                    if isinstance(d, dict):
                        out.update(d)
                    else:
                        return Unk("dict")
                else:
                    try:
                        out[self.eval(k, fr)] = self.eval(v, fr)
                    except TypeError:
                        return Unk("dict")
            return out
        if t is ast.JoinedStr:
            out = ""
            for x in e.values:
                if isinstance(x, ast.Constant):
                    out += str(x.value)
                else:
                    v = self.eval(x.value, fr)
                    if isinstance(v, Abs):
                        return Unk("fstring")
                    out += str(v)
            return out
        if t is ast.Lambda:
            f = self.make_func(e, fr)
            f.closure = fr if fr.vars is not fr.mod.env else None
            return f
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.comprehension(e, fr)
        if t is ast.NamedExpr:
            v = self.eval(e.value, fr)
            self.assign(e.target, v, fr)
            return v
        if t is ast.Starred:
            return self.eval(e.value, fr)
        if t in (ast.Yield, ast.YieldFrom):
            self.yield_(e, fr)
            return None
        self.unknown += 1
        return Unk(t.__name__)

    def comprehension(self, e, fr):
        out = []
        sub = Frame(fr.mod, {}, fr if fr.vars is not fr.mod.env or fr.parent else None, fr.func)
        if fr.vars is not fr.mod.env:
            sub.parent = fr

        def rec(i):
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    out.append((self.eval(e.key, sub), self.eval(e.value, sub)))
                else:
                    out.append(self.eval(e.elt, sub))
                return
            g = e.generators[i]
            for x in self.items(self.eval(g.iter, sub if i else fr), g.iter):
                self.assign(g.target, x, sub)
                if all(self.truth(self.eval(c, sub), c) for c in g.ifs):
                    rec(i + 1)

        rec(0)
        try:
            if isinstance(e, ast.DictComp):
                return dict(out)
            if isinstance(e, ast.SetComp):
                return set(out)
        except TypeError:
            return Unk("comprehension")
        return out

    def eval_call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.vars:
            return self.domain.super(self, fr, e)
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.items(self.eval(a.value, fr), a)
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, dict):
                    kwargs.update(v)
                else:
                    return Unk("**")
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, e)

    def getattr(self, o, name, node):
        if isinstance(o, Abs):
            return o.attr(self, name, node)
        if isinstance(o, str) and hasattr(str, name):
            def m(ev, args, kwargs, nd):
                try:
                    if any(isinstance(a, Abs) for a in args):
                        return Unk("str")
                    return getattr(o, name)(*args, **kwargs)
                except Exception:
                    raise MRaise("ValueError", nd) from None
            return Prim(m, name)
        if isinstance(o, dict):
            return Prim(lambda ev, a, k, nd: ev.dict_method(o, name, a, k, nd), name)
        if isinstance(o, list):
            return Prim(lambda ev, a, k, nd: ev.list_method(o, name, a, k, nd), name)
        if isinstance(o, set):
            return Prim(lambda ev, a, k, nd: ev.set_method(o, name, a, k, nd), name)
        if o is None:
            raise MRaise("AttributeError", node)
        return Unk(name)

    def dict_method(self, o, name, a, k, nd):
        if name == "get":
            return o.get(a[0], a[1] if len(a) > 1 else k.get("default"))
        if name == "items":
            return Keys((x, y) for x, y in o.items())
        if name == "keys":
            return Keys(o)
        if name == "values":
            return list(o.values())
        if name == "copy":
            return dict(o)
        if name == "setdefault":
            return o.setdefault(a[0], a[1] if len(a) > 1 else None)
        if name == "pop":
            if a[0] in o:
                return o.pop(a[0])
            if len(a) > 1:
                return a[1]
            raise MRaise("KeyError", nd)
        if name == "update" and (not a or isinstance(a[0], dict)):
            o.update(*a, **k)
            return None
        if name == "clear":
            o.clear()
            return None
        if name in ("__getitem__", "__contains__"):
            if name == "__contains__":
                return a[0] in o
            return self.getitem(o, a[0], nd)
        return Unk(name)

    def list_method(self, o, name, a, k, nd):
        if name == "append":
            o.append(a[0])
            return None
        if name == "extend":
            o.extend(self.items(a[0], nd))
            return None
        if name == "pop":
            if not o:
                raise MRaise("IndexError", nd)
            return o.pop(*[x for x in a if isinstance(x, int)])
        if name == "insert" and isinstance(a[0], int):
            o.insert(a[0], a[1])
            return None
        if name == "clear":
            o.clear()
            return None
        if name == "copy":
            return list(o)
        if name == "reverse":
            o.reverse()
            return None
        if name == "index" and a and a[0] in o:
            return o.index(a[0])
        return Unk(name)

    def set_method(self, o, name, a, k, nd):
        if name == "add":
            try:
                o.add(a[0])
            except TypeError:
                self.unknown += 1
            return None
        if name == "update":
            for x in a:
                o.update(self.items(x, nd))
            return None
        if name == "copy":
            return set(o)
        if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint") and not k:
            xs = [self.items(x, nd) for x in a]
            try:
                return getattr(o, name)(*xs)
            except TypeError:
                return Unk(name)
        return Unk(name)

    def getitem(self, o, k, node):
        if isinstance(o, Abs):
            return o.getitem(self, k, node)
        if isinstance(k, slice) and any(isinstance(x, Abs) for x in (k.start, k.stop, k.step)):
            return Unk("slice")
        if isinstance(k, Abs) and not isinstance(o, dict):
            return Unk("index")
        if isinstance(o, dict):
            try:
                if k in o:
                    return o[k]
            except TypeError:
                return Unk("dict")
            raise MRaise("KeyError", node)
        if isinstance(o, (str, list, tuple, range)):
            try:
                return o[k]
            except IndexError:
                raise MRaise("IndexError", node) from None
            except TypeError:
                return Unk("index")
        if o is None:
            raise MRaise("TypeError", node)
        return Unk("[]")

    def binop(self, op, a, b, node):
        if isinstance(a, Abs):
            r = a.binop(self, op, b, False, node)
            if not isinstance(r, Unk) or not isinstance(b, Abs):
                return r
            r2 = b.binop(self, op, a, True, node)
            return r2
        if isinstance(b, Abs):
            return b.binop(self, op, a, True, node)
        if op in ("|", "&", "-", "^") and (isinstance(a, Keys) or isinstance(b, Keys)):
            if not all(isinstance(x, (Keys, set, frozenset)) or isinstance(x, (list, tuple)) and y is not x and isinstance(y, Keys) for x, y in ((a, b), (b, a))):
                raise MRaise("TypeError", node)
            try:
                a, b = set(a), set(b)
            except TypeError:
                return Unk(op)
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            if op == "//":
                return a // b
            if op == "%":
                return a % b if not isinstance(a, str) else Unk("%")
            if op == "**":
                return a**b
            if op == "|":
                return a | b
            if op == "&":
                return a & b
            if op == "^":
                return a ^ b
        except ZeroDivisionError:
            raise MRaise("ZeroDivisionError", node) from None
        except Exception:
            raise MRaise("TypeError", node) from None
        return Unk(op)

    def compare(self, op, a, b, node):
        if op in ("in", "not in"):
            if isinstance(b, Abs):
                r = b.contains(self, a, node)
            elif isinstance(a, Unk):
                r = Unk("in")
            elif isinstance(a, Abs) and hasattr(a, "within"):
                r = a.within(self, b, node)
            elif isinstance(b, (list, tuple)):
                r = False
                for x in b:
                    c = self.compare("==", a, x, node) if isinstance(a, Abs) or isinstance(x, Abs) else a == x
                    if self.truth(c, node):
                        r = True
                        break
            else:
                try:
                    r = a in b
                except TypeError:
                    raise MRaise("TypeError", node) from None
            if op == "in":
                return r
            if isinstance(r, bool):
                return not r
            return not self.truth(r, node)
        if isinstance(a, Abs):
            r = a.compare(self, op, b, False, node)
            if isinstance(r, Unk) and isinstance(b, Abs) and not isinstance(b, Unk):
                return b.compare(self, _SWAP[op], a, True, node)
            return r
        if isinstance(b, Abs):
            return b.compare(self, _SWAP[op], a, True, node)
        try:
            if op == "==":
                return a == b
            if op == "!=":
                return a != b
            if op == "is":
                return a is b or (type(a) is type(b) and isinstance(a, (str, int)) and a == b)
            if op == "is not":
                return not (a is b or (type(a) is type(b) and isinstance(a, (str, int)) and a == b))
            if op == "<":
                return a < b
            if op == "<=":
                return a <= b
            if op == ">":
                return a > b
            if op == ">=":
                return a >= b
        except TypeError:
            raise MRaise("TypeError", node) from None
        return Unk(op)


def _load(t):
    import copy

    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def _is_generator(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


class Domain:
    """Answers about things outside the evaluated functions; checks override what they model."""

    orders = False  # min() and max() compare abstract values one after the other
    while_rounds = 12  # how often a while loop whose test is a matter of choice is run

    def loop_enter(self, ev):
        return None

    def loop_exit(self, ev, token, rounds, by_test):
        pass

    def ext_attr(self, ev, base, name, node):
        return None

    def ext_call(self, ev, name, args, kwargs, node):
        return Unk(name)

    def ext_getitem(self, ev, name, key, node):
        return Unk(name)

    def intercept(self, ev, f, args, kwargs, node):
        return None

    def instantiate(self, ev, cls, args, kwargs, node):
        inst = MInst(cls)
        init = cls.lookup(ev, "__init__")
        if init is not None:
            ev.call(init, [inst] + list(args), kwargs, node)
        return inst

    def inst_attr(self, ev, inst, name, node):
        return Unk(name)

    def inst_special(self, ev, inst, name, args, node):
        return Unk(name)

    def decorate(self, ev, f, dec, fr):
        return f

    def unknown_order(self, ev, xs):
        return list(xs)

    def decided(self, ev, v, b):
        return v

    def augment(self, ev, op, cur, v, node):
        if op == "+" and type(cur) is list and not isinstance(v, Abs):
            if isinstance(v, (str, list, tuple, set, dict)):
                cur += v
                return cur
        r = ev.binop(op, cur, v, node)
        if type(cur) is set and type(r) is set:
            cur.clear()
            cur.update(r)
            return cur
        return r

    def super(self, ev, fr, node):
        return Unk("super")

    def isinstance(self, ev, v, t, node):
        return None

    def length(self, ev, v, node):
        return None

    def range(self, ev, args, node):
        return None


def _b_len(ev, a, k, n):
    v = a[0]
    r = ev.domain.length(ev, v, n)
    if r is not None:
        return r
    if isinstance(v, Abs):
        return v.length(ev, n)
    try:
        return len(v)
    except TypeError:
        raise MRaise("TypeError", n) from None


def _b_isinstance(ev, a, k, n):
    v, t = a
    r = ev.domain.isinstance(ev, v, t, n)
    if r is not None:
        return r
    ts = t if isinstance(t, tuple) else (t,)
    res = []
    for x in ts:
        if isinstance(x, MClass):
            if isinstance(v, MInst):
                res.append(x.name in v.cls.mro_names(ev))
            elif isinstance(v, Unk):
                res.append(None)
            else:
                res.append(False)
        elif isinstance(x, Ext) and x.name in PYTYPES and not isinstance(v, Abs):
            res.append(isinstance(v, PYTYPES[x.name]))
        elif isinstance(x, Prim) and x.name in PYTYPES and not isinstance(v, Abs):
            res.append(isinstance(v, PYTYPES[x.name]))
        elif isinstance(x, Prim) and x.name in PYTYPES and isinstance(v, MInst):
            res.append(x.name in v.cls.mro_names(ev))
        else:
            res.append(None)
    if any(x is True for x in res):
        return True
    if all(x is False for x in res):
        return False
    return Unk("isinstance")


def _b_bool(ev, a, k, n):
    return ev.truth(a[0], n) if a else False


def _b_getattr(ev, a, k, n):
    if isinstance(a[1], str):
        return ev.getattr(a[0], a[1], n)
    return Unk("getattr")


def _b_sorted(ev, a, k, n):
    xs = ev.items(a[0], n)
    key = k.get("key")
    ks = [ev.call(key, [x], {}, n) for x in xs] if key is not None else xs
    if any(isinstance(x, Abs) for x in ks):
        return ev.domain.unknown_order(ev, xs)
    try:
        o = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(k.get("reverse", False)))
    except TypeError:
        return list(xs)
    return [xs[i] for i in o]


def _b_zip(ev, a, k, n):
    return [tuple(t) for t in zip(*[ev.items(x, n) for x in a])]


def _b_enum(ev, a, k, n):
    return list(enumerate(ev.items(a[0], n), *(a[1:] or ())))


def _b_any(ev, a, k, n):
    return any(ev.truth(x, n) for x in ev.items(a[0], n))


def _b_all(ev, a, k, n):
    return all(ev.truth(x, n) for x in ev.items(a[0], n))


def _b_iter(ev, a, k, n):
    if isinstance(a[0], MIter):
        return a[0]
    if isinstance(a[0], Abs):
        r = a[0].iterate(ev, n)
        return MIter(r) if r is not None else Unk("iter")
    return MIter(ev.items(a[0], n))


class MIter(Abs):
    def __init__(self, items):
        self.it = list(items)

    def iterate(self, ev, node):
        r = self.it
        self.it = []
        return r

    def truth(self, ev, node):
        return True


def _b_next(ev, a, k, n):
    x = a[0]
    if hasattr(x, "next"):
        try:
            return x.next(ev, n)
        except MRaise as e:
            if e.exc == "StopIteration" and len(a) > 1:
                return a[1]
            raise
    if isinstance(x, MIter):
        if x.it:
            return x.it.pop(0)
        if len(a) > 1:
            return a[1]
        raise MRaise("StopIteration", n)
    if isinstance(x, list):  # an eagerly collected generator
        if x:
            return x.pop(0)
        if len(a) > 1:
            return a[1]
        raise MRaise("StopIteration", n)
    return Unk("next")


def _conv(t):
    def f(ev, a, k, n):
        if not a:
            return t()
        if isinstance(a[0], Abs):
            r = a[0].iterate(ev, n) if t in (list, tuple, set, frozenset) else None
            if r is None:
                return Unk(t.__name__)
            a = [r] + list(a[1:])
        try:
            if t is dict:
                d = dict(a[0]) if isinstance(a[0], dict) else dict([tuple(x) for x in ev.items(a[0], n)])
                d.update(k)
                return d
            return t(a[0])
        except TypeError:
            return Unk(t.__name__)
        except ValueError:
            raise MRaise("ValueError", n) from None

    return f


def _minmax(g):
    def f(ev, a, k, n):
        xs = ev.items(a[0], n) if len(a) == 1 else a
        if any(isinstance(x, Abs) for x in xs) and xs and ev.domain.orders and not k:
            best = xs[0]
            for x in xs[1:]:
                if ev.truth(ev.compare("<" if g is min else ">", x, best, n), n):
                    best = x
            return best
        if any(isinstance(x, Abs) for x in xs) or not xs:
            return Unk(g.__name__)
        try:
            return g(xs)
        except TypeError:
            return Unk(g.__name__)

    return f


def _b_hasattr(ev, a, k, n):
    if isinstance(a[0], MInst):
        return a[1] in a[0].attrs or a[0].cls.lookup(ev, a[1]) is not None
    return Unk("hasattr")


def _b_range(ev, a, k, n):
    r = ev.domain.range(ev, a, n)
    if r is not None:
        return r
    if all(isinstance(x, int) for x in a) and len(range(*a)) < 64:
        return list(range(*a))
    return Unk("range")


def _b_type(ev, a, k, n):
    if len(a) == 1 and isinstance(a[0], MInst):
        return a[0].cls
    if len(a) == 1 and not isinstance(a[0], Abs):
        nm = type(a[0]).__name__
        return BUILTINS.get(nm, Ext(nm))
    return Unk("type")


def _b_callable(ev, a, k, n):
    return isinstance(a[0], (MFunc, MBound, MClass, Prim)) if not isinstance(a[0], Unk) else Unk("callable")


PYTYPES = {"str": str, "int": int, "float": float, "list": list, "tuple": tuple, "dict": dict, "set": set, "bool": bool, "frozenset": frozenset}
BUILTINS = {
    "len": Prim(_b_len), "isinstance": Prim(_b_isinstance), "bool": Prim(_b_bool, "bool"), "getattr": Prim(_b_getattr), "sorted": Prim(_b_sorted),
    "zip": Prim(_b_zip), "enumerate": Prim(_b_enum), "any": Prim(_b_any), "all": Prim(_b_all), "iter": Prim(_b_iter), "next": Prim(_b_next),
    "list": Prim(_conv(list), "list"), "tuple": Prim(_conv(tuple), "tuple"), "dict": Prim(_conv(dict), "dict"), "set": Prim(_conv(set), "set"),
    "str": Prim(_conv(str), "str"), "int": Prim(_conv(int), "int"), "float": Prim(_conv(float), "float"), "frozenset": Prim(_conv(frozenset), "frozenset"),
    "hasattr": Prim(_b_hasattr), "range": Prim(_b_range), "type": Prim(_b_type), "callable": Prim(_b_callable),
    "min": Prim(_minmax(min)), "max": Prim(_minmax(max)), "True": True, "False": False, "print": Prim(lambda *a: None),
    "property": Prim(lambda ev, a, k, n: MProp(a[0])),
    "classmethod": Prim(lambda ev, a, k, n: MWrap("classmethod", a[0])), "staticmethod": Prim(lambda ev, a, k, n: MWrap("staticmethod", a[0])),
    "map": Prim(lambda ev, a, k, n: [ev.call(a[0], list(t), {}, n) for t in zip(*[ev.items(x, n) for x in a[1:]])]),
    "filter": Prim(lambda ev, a, k, n: [x for x in ev.items(a[1], n) if ev.truth(ev.call(a[0], [x], {}, n) if a[0] is not None else x, n)]),
    "reversed": Prim(lambda ev, a, k, n: list(reversed(ev.items(a[0], n)))),
}
