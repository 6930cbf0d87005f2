"""Iterative methods return converged values or fail.

Every function with `tol` and `max_iter` is evaluated symbolically: vectors hold terms, loops over `range(max_iter)` run
an arbitrary number of times (0 to 3 rounds are followed; each round goes through the same statements, so the relation
between one iterate and the next is covered).  A comparison of a norm of a difference with a bound made of `tol` is a
convergence test; it must compare an iterate with the value the previous round ended with.
"""
from __future__ import annotations

import ast
import itertools
import os

from ..mini import BUILTINS, EXC, Abs, Domain, Ext, MFunc, Mini, MRaise, Prim, TooDeep, Unk, _Break, _Continue
from ..poly import Poly

ROUNDS = 3
DOCUMENTED = {"ConvergenceFailure", "PowerIterationFailedConvergence", "ArpackNoConvergence"}


class Terms:
    """Hash-consed terms."""

    def __init__(self):
        self.ids, self.ops, self.subs = {}, [], []

    def mk(self, *k):
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.ops)
            self.ops.append(k)
            s = {i}
            for x in walk(k[1:]):
                s |= self.subs[x]
            self.subs.append(frozenset(s))
        return i


class R(int):
    """Reference to a term inside a term."""


def walk(k):
    for x in k:
        if isinstance(x, R):
            yield x
        elif isinstance(x, tuple):
            yield from walk(x)


class V(Abs):
    """A value: an immutable term."""

    def __init__(self, ev, i):
        self.ev, self.i = ev, R(i)

    def key(self):
        return self.i

    def attr(self, ev, name, node):
        if name in ("get", "value", "new", "dup"):
            return Prim(lambda ev, a, k, n: self if name == "get" and a else Vec(ev, self.i) if name in ("new", "dup") else self) if name != "value" else self
        if name in ("size", "nrows", "ncols"):
            return ev.t("N")
        return ev.t("attr", self.i, name)

    def call(self, ev, args, kwargs, node):
        return apply(ev, self.i, args, kwargs)

    def getitem(self, ev, key, node):
        k = ev.key(key)
        return Unk("item") if k is None else ev.t("item", self.i, k)

    def binop(self, ev, op, other, swapped, node):
        o = ev.key(other)
        if o is None:
            return Unk(op)
        a, b = (o, self.i) if swapped else (self.i, o)
        return ev.t(op, a, b)

    def unop(self, ev, op, node):
        return ev.t("u" + op, self.i)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            if other is None:
                return op == "is not"
            if isinstance(other, Ext):
                return ev.cond(("is", self.i, other.name)) == (op == "is")
            return Unk(op)
        o = ev.key(other)
        if o is None:
            return Unk(op)
        return Test(ev, op, self.i, o)  # Mini passes the operator already turned around

    def truth(self, ev, node):
        return ev.cond(("truth", self.i))

    def length(self, ev, node):
        return ev.t("N")

    def iterate(self, ev, node):
        return None

    def contains(self, ev, item, node):
        return ev.cond(("in", ev.key(item), self.i))


_SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}


class Test(Abs):
    """a op b"""

    def __init__(self, ev, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.seen = ev.judge(op, a, b)

    def truth(self, ev, node):
        j = self.seen
        if j is None:
            return ev.cond((self.op, self.a, self.b))
        if j == "unknown":
            ev.tainted = True
            return ev.choose([True, False], "unknown test")
        r = ev.choose([False, True], ("converged", len(ev.tests)))
        ev.tests.append((ev.round, j, r != j[4], getattr(node, "lineno", None), list(ev.where())))
        return r

    def binop(self, ev, op, other, swapped, node):
        return Unk(op)

    def unop(self, ev, op, node):
        return Unk(op)


class Vec(V):
    """A vector (or matrix) object: its content is a term."""

    def __init__(self, ev, i):
        super().__init__(ev, i)

    def setattr(self, ev, name, value, node):
        pass

    def attr(self, ev, name, node):
        if name in ("dup", "new"):
            return Prim(lambda ev, a, k, n: Vec(ev, self.i))
        if name == "update":
            return Prim(lambda ev, a, k, n: self.put(ev, a[0]))
        if name == "clear":
            return Prim(lambda ev, a, k, n: self.put(ev, ev.t("empty")))
        if name == "isequal" or name == "isclose":
            return Prim(lambda ev, a, k, n: Test(ev, name, self.i, ev.key(a[0])))
        return super().attr(ev, name, node)

    def put(self, ev, v, how=None):
        k = ev.key(v)
        if k is None:
            self.i = R(ev.terms.mk("?", next(ev.count)))
        elif how is None:
            self.i = k if isinstance(k, R) else R(ev.terms.mk("fill", k))
        else:
            self.i = R(ev.terms.mk("into", how, self.i, k))
        return None

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            return self.put(ev, other)
        return super().binop(ev, op, other, swapped, node)

    def call(self, ev, args, kwargs, node):
        ks = [ev.key(x) for x in args], {k: ev.key(x) for k, x in kwargs.items()}
        return Into(self, None if None in ks[0] or None in ks[1].values() else (tuple(ks[0]), tuple(sorted(ks[1].items()))))

    def setitem(self, ev, key, value, node):
        k = ev.key(key)
        if key == slice(None):
            return self.put(ev, value)
        self.put(ev, value, how=("at", k) if k is not None else ("?", next(ev.count)))


class Into(Abs):
    def __init__(self, v, how):
        self.v, self.how = v, how

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            self.v.put(ev, other, how=self.how if self.how is not None else ("?", next(ev.count)))
            return None
        return Unk(op)

    def setitem(self, ev, key, value, node):
        self.v.put(ev, value, how=("?", next(ev.count)))


class Res(Abs):
    """vector_to_nodemap(v)"""

    def __init__(self, i):
        self.i = i


class Graph(Abs):
    def attr(self, ev, name, node):
        if name == "vector_to_nodemap":
            return Prim(lambda ev, a, k, n: Res(ev.key(a[0])))
        if name == "dict_to_vector":
            def f(ev, a, k, n):
                if a and a[0] is None:
                    return None
                kk = ev.key(a[0]) if a else None
                return Vec(ev, R(ev.terms.mk("vector", kk))) if kk is not None else Unk(name)
            return Prim(f)
        if name == "get_property":
            return Prim(lambda ev, a, k, n: ev.t("property", ev.key(a[0])) if a else Unk(name))
        return ev.t("G", name)

    def length(self, ev, node):
        return ev.t("N")

    def truth(self, ev, node):
        return ev.cond(("truth", "G"))

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not") and other is None:
            return op == "is not"
        return Unk(op)


class Counter(Abs):
    """Which round it is."""

    def __init__(self, what, low=None):
        self.what, self.low = what, low

    def key(self):
        return ("counter", self.what)

    def compare(self, ev, op, other, swapped, node):
        k = ev.key(other)
        if k is None:
            return Unk(op)
        if self.low is not None and isinstance(other, int):
            if other < self.low:
                return op in (">", ">=", "!=")
            if other == self.low and op in (">=", "<"):
                return op == ">="
        return ev.cond((op, "counter", self.what, k))

    def binop(self, ev, op, other, swapped, node):
        k = ev.key(other)
        low = self.low + (other if op == "+" else -other) if self.low is not None and op in "+-" and isinstance(other, int) and not (swapped and op == "-") else None
        return Unk(op) if k is None else Counter((op, self.what, k, swapped), low)

    def truth(self, ev, node):
        if self.low is not None and self.low > 0:
            return True
        return ev.cond(("counter", self.what))


class Limit(Abs):
    """The iteration limit: a polynomial of max_iter."""

    def __init__(self, p):
        self.p = p

    def key(self):
        return ("limit", repr(self.p))

    def binop(self, ev, op, other, swapped, node):
        o = other.p if isinstance(other, Limit) else Poly.const(other) if isinstance(other, int) and not isinstance(other, bool) else None
        if o is None or op not in "+-*":
            return Unk(op)
        a, b = (o, self.p) if swapped else (self.p, o)
        return Limit(a + b if op == "+" else a - b if op == "-" else a * b)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (op == "is not") if other is None else Unk(op)
        k = ev.key(other)
        return Unk(op) if k is None else ev.cond((op, "limit", repr(self.p), k))

    def truth(self, ev, node):
        return ev.cond(("limit", repr(self.p)))


class Rounds(Abs):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def apply(ev, f, args, kwargs):
    ks = [ev.key(x) for x in args]
    kk = {k: ev.key(x) for k, x in kwargs.items() if k != "name"}
    if None in ks or None in kk.values():
        return Unk("call")
    return ev.t("call", f, tuple(ks), tuple(sorted(kk.items())))


class Ev(Mini):
    def t(self, *k):
        return V(self, self.terms.mk(*k))

    def key(self, v):
        if isinstance(v, Unk) or isinstance(v, Test):
            return None
        if isinstance(v, V):
            return v.i
        if isinstance(v, Ext):
            return R(self.terms.mk("ext", v.name))
        if isinstance(v, (Counter, Limit)):
            return v.key()
        if isinstance(v, Graph):
            return ("graph",)
        if isinstance(v, (Prim, MFunc)) and v.name:
            return ("function", v.name)
        if isinstance(v, Abs):
            return None
        if isinstance(v, (tuple, list)):
            ks = tuple(self.key(x) for x in v)
            return None if None in ks else ("tuple",) + ks
        if isinstance(v, slice):
            ks = (self.key(v.start), self.key(v.stop), self.key(v.step))
            return None if None in ks else ("slice",) + ks
        if isinstance(v, (dict, set)):
            return None
        return ("const", repr(v))

    def cond(self, k):
        if k in self.conds:
            return self.conds[k]
        r = self.choose([True, False], ("cond", repr(k)[:60]))
        self.conds[k] = r
        return r

    def where(self):
        return [f"{f.mod.path.name}:{getattr(n, 'lineno', '?')}" for f, n in self.stack[-2:]]

    # what a comparison says about convergence
    def judge(self, op, a, b):
        if not isinstance(a, R) and not isinstance(b, R):
            return None
        tol = self.terms.mk("tol")
        ina = isinstance(a, R) and tol in self.terms.subs[a] or any(tol in self.terms.subs[x] for x in walk((a,)))
        inb = isinstance(b, R) and tol in self.terms.subs[b] or any(tol in self.terms.subs[x] for x in walk((b,)))
        if op in ("isequal", "isclose"):
            return ("test", a, b, [], False) if op == "isequal" else "unknown"
        da, db = self.diff(a), self.diff(b)
        if ina and inb or da and db:
            return "unknown"
        if da is None and db is None:
            if not ina and not inb:
                return None
            return "unknown"
        # normal form: difference op bound
        if db is not None:
            a, b, da, op, ina, inb = b, a, db, _SWAP.get(op, op), inb, ina
        probs = []
        x, y, isnorm, fa = da
        fb = self.factors(b)
        if fb is None:
            return "unknown"
        if ina:
            return "unknown"
        if not inb:
            probs.append("the bound does not depend on tol")
        if op not in ("<", "<=", ">", ">="):
            probs.append(f"the difference is required to be {op} the bound")
        if not isnorm:
            probs.append("positive and negative differences cancel: no absolute values are taken")
        if not probs and fa is not None:
            tot = dict(fb)
            for k, v in fa.items():
                tot[k] = tot.get(k, 0) - v
            tot = {k: v for k, v in tot.items() if v}
            c = tot.pop("const", 0)
            t = self.terms.mk("tol")
            n = self.terms.mk("N")
            e = tot.pop(t, 0)
            m = tot.pop(n, 0)
            other = [k for k in tot if isinstance(k, R) and t in self.terms.subs[k]]
            if other and all(self.terms.ops[k][0] in ("**", "+", "-") or self.terms.ops[k][0] == "call" and self.name(self.terms.ops[k][1]) in ("min", "max") for k in other):
                probs.append("the bound is another function of tol")
            elif not tot and (e != 1 or m not in (0, 1) or c):
                probs.append("the bound is not the tolerance (times the number of nodes)")
        return ("test", x, y, probs, op in (">", ">="))

    def factors(self, k):
        """Product normal form {term: exponent}, None if not a product."""
        if not isinstance(k, R):
            if k[0] == "const":
                return {} if k[1] in ("1", "1.0") else {"const": 1}
            if k[0] in ("counter", "limit"):
                return {k: 1}
            return None
        op = self.terms.ops[k]
        if op[0] in "*/" and len(op) == 3:
            a, b = self.factors(op[1]), self.factors(op[2])
            if a is None or b is None:
                return None
            r = dict(a)
            for x, n in b.items():
                r[x] = r.get(x, 0) + (n if op[0] == "*" else -n)
            return r
        if op[0] == "call" and self.name(op[1]) in ("float", "int", "len"):
            return self.factors(op[2][0]) if op[2] else None
        return {k: 1}

    def name(self, k):
        if isinstance(k, R):
            o = self.terms.ops[k]
            if o[0] == "ext":
                return o[1]
            if o[0] == "attr":
                return o[2]
        return ""

    def diff(self, k):
        """(x, y, absolute values were taken, factors) when the term is a sum of the differences of x and y."""
        fac = {}
        isabs = False
        while isinstance(k, R):
            op = self.terms.ops[k]
            if op[0] in "*/" and len(op) == 3:
                l, r = self.diff(op[1]), self.diff(op[2]) if op[0] == "*" else None
                if (l is None) == (r is None):
                    return None
                f = self.factors(op[2] if l is not None else op[1])
                if f is None:
                    return None
                x, y, n, g = l or r
                g = dict(g)
                for q, m in f.items():
                    g[q] = g.get(q, 0) + (m if op[0] == "*" else -m)
                return x, y, n or isabs, g
            if op[0] == "call":
                f = op[1]
                nm = self.name(f)
                last = nm.split(".")[-1]
                if isinstance(f, R) and self.terms.ops[f][0] == "attr" and last in ("reduce", "get", "new", "sum"):
                    if last == "reduce" and op[2]:
                        m = self.name(op[2][0]).split(".")[-1]
                        if m not in ("plus", "sum"):
                            return None if m not in ("max", "min", "any", "times") else None
                    k = self.terms.ops[f][1]
                    continue
                if last in ("abs", "fabs") and op[2]:
                    isabs = True
                    k = op[2][0]
                    continue
                if last == "minus" and len(op[2]) == 1 and isinstance(op[2][0], R):
                    u = self.terms.ops[op[2][0]]
                    if u[0] == "|":
                        return u[1], u[2], isabs, fac
                    return None
                if last in ("float", "sum") and len(op[2]) == 1:
                    k = op[2][0]
                    continue
                return None
            if op[0] == "attr" and op[2] in ("value",):
                k = op[1]
                continue
            if op[0] == "-" and len(op) == 3:
                if isinstance(op[1], R) and isinstance(op[2], R):
                    return op[1], op[2], isabs, fac
                return None
            return None
        return None

    # loops
    def stmt(self, s, fr):
        if isinstance(s, ast.For):
            it = self.eval(s.iter, fr)
            if isinstance(it, Rounds):
                return self.rounds(s, it, fr)
            if isinstance(it, Abs) and it.iterate(self, s) is None:
                self.tainted = True
                raise TooDeep("loop")
            for x in self.items(it, s.iter):
                self.assign(s.target, x, fr)
                try:
                    self.exec(s.body, fr)
                except _Break:
                    return
                except _Continue:
                    continue
            self.exec(s.orelse, fr)
            return
        if isinstance(s, ast.While):
            return self.while_(s, fr)
        return super().stmt(s, fr)

    def rounds(self, s, it, fr):
        if it is not None:
            n = it.hi - it.lo
            if n != Poly.var("max_iter"):
                self.problems.append(("limit", f"line {s.lineno}: the loop runs {n!r} times instead of max_iter times", s.lineno))
        self.entered = True
        for j in range(ROUNDS + 1):
            if j == ROUNDS or not self.choose([True, False], ("round", s.lineno, j)):
                break
            self.round += 1
            if it is not None:
                lo = int(it.lo.value()) if it.lo.is_const() else None
                first = j == 0 and lo is not None
                self.assign(s.target, lo if first else Counter((s.lineno, j), None if lo is None else lo + j), fr)
            try:
                self.exec(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.exec(s.orelse, fr)

    def while_(self, s, fr):
        self.entered = True
        for j in range(ROUNDS + 1):
            if not self.truth(self.eval(s.test, fr), s.test):
                break
            if j == ROUNDS:
                raise TooDeep("while")
            self.round += 1
            try:
                self.exec(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.exec(s.orelse, fr)

    def catches(self, t, exc):
        if t is None:
            return True
        names = {ast.unparse(x).split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])}
        return bool(names & (self.bases(exc) | {"BaseException"}))

    def bases(self, exc):
        out, todo = set(), [exc]
        m = self.module("graphblas_algorithms.algorithms.exceptions")
        while todo:
            e = todo.pop()
            if e in out:
                continue
            out.add(e)
            d = m.defs.get(e) if m is not None else None
            if isinstance(d, ast.ClassDef):
                todo += [ast.unparse(b).split(".")[-1] for b in d.bases]
            else:
                todo += [x for x in EXC.get(e, (e, "Exception")) if x != e]
        return out


class Dom(Domain):
    def ext_call(self, ev, name, args, kwargs, node):
        last = name.split(".")[-1]
        if last in ("Vector", "Matrix") or name.endswith((".Vector.new", ".Matrix.new")):
            return Vec(ev, R(ev.terms.mk("empty")))
        if name.endswith("Scalar.from_value") and args:
            k = ev.key(args[0])
            return V(ev, k) if isinstance(k, R) else ev.t("scalar", k) if k is not None else Unk(name)
        return apply(ev, R(ev.terms.mk("ext", name)), args, kwargs)

    def ext_getitem(self, ev, name, key, node):
        k = ev.key(key)
        return V(ev, R(ev.terms.mk("ext", f"{name}[]"))) if k is not None else Unk(name)

    def intercept(self, ev, f, args, kwargs, node):
        if f.name.startswith("to_") and ".classes." in f.mod.name:
            return (Graph(),)
        return None

    def augment(self, ev, op, cur, v, node):
        r = ev.binop(op, cur, v, node)
        if isinstance(cur, Vec):
            cur.put(ev, r)
            return cur
        return r

    def length(self, ev, v, node):
        return ev.t("N") if isinstance(v, (V, Graph)) else None

    def range(self, ev, args, node):
        if any(isinstance(x, Limit) for x in args) and len(args) <= 2:
            ps = [x.p if isinstance(x, Limit) else Poly.const(x) if isinstance(x, int) else None for x in args]
            if None in ps:
                return Unk("range")
            return Rounds(Poly(), ps[0]) if len(ps) == 1 else Rounds(*ps)
        return None

    def decorate(self, ev, f, dec, fr):
        return f


def _num(t):
    def f(ev, a, k, n):
        x = a[0] if a else t()
        if isinstance(x, V):
            return V(ev, x.i)
        if isinstance(x, Limit):
            return x
        return Unk(t.__name__) if isinstance(x, Abs) else t(x)

    return f


def _abs(ev, a, k, n):
    return apply(ev, R(ev.terms.mk("ext", "abs")), a, k)


def _reduce(name):
    def f(ev, a, k, n):
        ks = [ev.key(x) for x in a]
        if any(isinstance(x, (V, Limit, Counter)) for x in a) and None not in ks:
            if any(isinstance(x, Limit) for x in a):
                return Limit(Poly.var(f"{name}({', '.join(map(repr, [x.p if isinstance(x, Limit) else x for x in a]))})"))
            return ev.t("call", R(ev.terms.mk("ext", name)), tuple(ks), ())
        return BASE[name].f(ev, a, k, n)

    return f


BASE = {}


def entries(ev):
    out = []
    for sub in ("algorithms", "nxapi"):
        for path in sorted((ev.root / "graphblas_algorithms" / sub).rglob("*.py")):
            if "tests" in path.parts:
                continue
            rel = path.relative_to(ev.root).with_suffix("")
            name = ".".join(rel.parts)
            m = ev.module(name[: -len(".__init__")] if name.endswith(".__init__") else name)
            if m is None:
                continue
            for d in m.tree.body:
                if isinstance(d, ast.FunctionDef) and not d.name.startswith("_"):
                    ps = [a.arg for a in d.args.posonlyargs + d.args.args + d.args.kwonlyargs]
                    if "tol" in ps and "max_iter" in ps and "G" in ps:
                        out.append((sub, m, d))
    return out


def variants(d):
    a = d.args
    names = [x.arg for x in a.posonlyargs + a.args]
    dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    dfl.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    choices = []
    for n in names + [x.arg for x in a.kwonlyargs]:
        v = dfl.get(n)
        if n in ("G", "tol", "max_iter", "name", "weight", "alpha", "beta"):
            choices.append([(n, "fixed")])
        elif isinstance(v, ast.Constant) and isinstance(v.value, bool):
            choices.append([(n, True), (n, False)])
        elif isinstance(v, ast.Constant) and v.value is None:
            choices.append([(n, None), (n, "given")])
        else:
            choices.append([(n, "fixed")])
    return itertools.product(*choices)


def evaluate(ev, f, var):
    ev.conds, ev.tests, ev.problems, ev.round, ev.entered, ev.count = {}, [], [], 0, False, itertools.count()
    args = {}
    for n, how in var:
        if n == "G":
            args[n] = Graph()
        elif n == "tol":
            args[n] = ev.t("tol")
        elif n == "max_iter":
            args[n] = Limit(Poly.var("max_iter"))
        elif n in ("name", "weight"):
            args[n] = n
        elif how == "given":
            args[n] = Vec(ev, R(ev.terms.mk("param", n)))
        elif how == "fixed":
            args[n] = ev.t("param", n)
        else:
            args[n] = how
    try:
        return ("return", ev.call(f, [], args, None))
    except MRaise as e:
        return ("raise", e.exc, e.node)
    except TooDeep:
        ev.tainted = True
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError):
        if os.environ.get("C15_DEBUG"):
            raise
        ev.tainted = True
    return None


def leaves(ev, v):
    """Terms of the returned vectors; None for something else."""
    if isinstance(v, (tuple, list)):
        out = []
        for x in v:
            y = leaves(ev, x)
            if y is None:
                return None
            out += y
        return out
    if isinstance(v, Res):
        return [v.i] if isinstance(v.i, R) else None
    if isinstance(v, V):
        return [v.i]
    return None


def peel(ev, k):
    """Remove scalings, products with the adjacency matrix and the like: what vector is it made of?"""
    while True:
        yield k
        op = ev.terms.ops[k]
        nxt = None
        if op[0] in ("*", "/", "@") and len(op) == 3:
            cands = [x for x in op[1:] if isinstance(x, R)]
            vecs = [x for x in cands if ev.vectorish(x)]
            if len(vecs) == 1:
                nxt = vecs[0]
            elif op[0] == "*" and vecs:
                nxt = vecs[0]
        elif op[0] == "call" and isinstance(op[1], R):
            rs = [x for x in op[2] if isinstance(x, R) and ev.vectorish(x)]
            nm = ev.name(op[1])
            if len(rs) == 1 and nm.split(".")[-1] not in ("abs", "minus"):
                nxt = rs[0]
        if nxt is None:
            return
        k = nxt


def vectorish(self, k):
    """Depends on an iterate (and is not a number)."""
    op = self.terms.ops[k]
    if op[0] in ("param", "tol", "N", "property", "G", "ext", "fill", "scalar"):
        return op[0] == "fill"
    if op[0] == "call" and isinstance(op[1], R) and self.terms.ops[op[1]][0] == "attr" and self.terms.ops[op[1]][2] in ("reduce",):
        return False
    if op[0] in "@" and len(op) == 3:
        return any(isinstance(x, R) and self.vectorish(x) for x in op[1:]) and not all(isinstance(x, R) and self.vectorish(x) for x in op[1:])
    if op[0] == "**":
        return False
    if op[0] in ("*", "/") and len(op) == 3:
        return any(isinstance(x, R) and self.vectorish(x) for x in (op[1:] if op[0] == "*" else op[1:2]))
    return any(self.vectorish(x) for x in walk(op[1:])) or op[0] in ("empty", "vector", "into")


Ev.vectorish = vectorish


def run(rep):
    rep.explanation = "Symbolic evaluation of every function with tol and max_iter (and its NetworkX wrapper): each return after the loop follows a passed convergence test of two consecutive iterates, exhaustion raises."
    rep.assumptions += ["rounds of a loop after the third behave like the third", "x.reduce() sums; minus of a union is an element-wise difference", "errors raised by compiled code are not followed"]
    saved = dict(BUILTINS)
    BASE.update(saved)
    BUILTINS.update(float=Prim(_num(float), "float"), int=Prim(_num(int), "int"), abs=Prim(_abs), min=Prim(_reduce("min")), max=Prim(_reduce("max")))
    try:
        ev = Ev(rep.repo, Dom())
        ev.terms = Terms()
        for sub, m, d in entries(ev):
            f = ev.module_name(m, d.name)
            if isinstance(f, MFunc):
                function(rep, ev, sub, m, d, f)
    finally:
        BUILTINS.clear()
        BUILTINS.update(saved)
    rep.floor("method", 4)


def function(rep, ev, sub, m, d, f):
    rep.ob("method", f"{m.name}.{d.name}")
    rep.functions.add((m.name, d.name))
    undecided = 0
    what = f"{sub}.{d.name}"
    for var in variants(d):
        for res in ev.paths(lambda: evaluate(ev, f, var), 3000):
            if ev.tainted or res is None:
                undecided += 1
                continue
            judge(rep, ev, what, m, d, res)
    if undecided:
        rep.notes.append(f"{what}: {undecided} paths are not decided")


def judge(rep, ev, what, m, d, res):
    T = ev.terms
    where = [f"{m.path.name}:{d.lineno} in {d.name}"]
    for rule, msg, line in ev.problems:
        rep.viol(rule, f"{what}: {msg.split(': ', 1)[-1]}", msg, where)
    prev = None
    bad = False
    for rnd, (_, x, y, probs, _n), passed, line, st in ev.tests:
        for p in probs:
            bad = True
            rep.viol("test", f"{what}: {p}", f"line {line}: {p}", where)
        if not isinstance(x, R) or not isinstance(y, R):
            return
        if any(T.ops[z][0] == "?" for z in T.subs[x] | T.subs[y]):
            return
        if x == y:
            rep.viol("consecutive", f"{what}: an iterate is compared with itself", f"line {line}: an iterate is compared with itself", where)
            return
        if x in T.subs[y]:
            old, new = x, y
        elif y in T.subs[x]:
            old, new = y, x
        else:
            rep.viol("consecutive", f"{what}: the compared vectors do not follow from each other", f"line {line}: in round {rnd} neither compared vector is computed from the other", where)
            return
        if prev is not None and prev[0] == rnd - 1 and old != prev[1]:
            rep.viol("consecutive", f"{what}: not compared with the previous iterate", f"line {line}: round {rnd} compares its iterate with something else than what round {rnd - 1} ended with", where)
            return
        prev = (rnd, new, old)
        rep.ob("test", f"{what}: round {rnd}")
    if bad:
        return
    last = ev.tests[-1] if ev.tests else None
    ok = last is not None and last[2] and last[0] == ev.round
    if res[0] == "return":
        if not ev.entered:
            return  # nothing to iterate (empty graph)
        if not ok:
            rep.viol("unconverged", f"{what}: returns without a passed convergence test", f"{d.name} can return after {'the loop ended' if not ev.round or last and last[0] == ev.round and not last[2] else 'a round'} without a passed convergence test (rounds: {ev.round})", where)
            return
        rep.ob("return", what)
        outs = leaves(ev, res[1])
        if outs is None:
            return
        new, old = prev[1], prev[2]
        for o in outs:
            if any(T.ops[z][0] == "?" for z in T.subs[o]):
                continue
            chain = list(peel(ev, o))
            fresh = {z for z in T.subs[new] if old in T.subs[z] and z != old}
            if any(z in fresh for z in chain):
                rep.ob("returned", what)
                continue
            top = T.ops[chain[-1]]
            diffy = ev.diff(chain[-1]) is not None or top[0] == "call" and ev.name(top[1]).split(".")[-1] in ("abs", "minus")
            stale = chain[-1] == old or any(z == old or z in T.subs[old] for z in chain) and new not in T.subs[o]
            if diffy or stale:
                rep.viol("returned", f"{what}: {'the difference' if diffy else 'an earlier iterate'} is returned", f"{d.name} returns {'the difference of two iterates' if diffy else 'an iterate other than the one that passed the test'}", where)
    else:
        exc = res[1]
        if ev.entered and not ok and (ev.round == 0 or last is not None and last[0] == ev.round):
            node = res[2]
            inside = exc in DOCUMENTED or exc in ("ZeroDivisionError",)
            if not inside and exc == "ValueError" and any(k[:2] == ("<", "limit") or k[:2] == ("<=", "limit") for k in ev.conds if isinstance(k, tuple)):
                inside = True
            rep.check(inside, "exhausted", f"{what}: raises {exc}", f"{d.name} raises {exc} instead of the non-convergence error when the iterations are used up", where)
            if sub_of(what) == "nxapi" and exc == "ConvergenceFailure":
                rep.viol("exhausted", f"{what}: raises {exc}", f"{d.name} lets the internal ConvergenceFailure through", where)


def sub_of(what):
    return what.split(".")[0]
