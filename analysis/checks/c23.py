"""C23: searches find exactly what is reachable, at its distance, and stop only when done.

The search functions are evaluated (nothing is executed) in a frontier domain.  A vector holds symbolic generations: the
source, or "the neighbors in direction d of these generations, without those"; how many nodes a generation has, and which,
is not known.  Every question (is this frontier empty? is the target in it? how many rounds does the loop run?) splits the
analysis.  At the end of each path the generations in the answer are judged: none is missing, each has been expanded in
every promised direction, each carries its number of steps, and no step beyond the limit was taken.
"""
from __future__ import annotations

import os

from ..mini import Abs, Domain, Ext, MClass, MFunc, MInst, Mini, MRaise, Prim, TooDeep, Unk
from .c22 import Val, MaybeVal, full, split

ROUNDS = 3


class Lin(Abs):
    """A linear expression over n (number of nodes) and symbolic integer arguments."""

    def __init__(self, terms, c):
        self.terms = {k: v for k, v in terms.items() if v}
        self.c = c

    def key(self):
        return (tuple(sorted(self.terms.items())), self.c)

    def plus(self, o, s=1):
        if isinstance(o, int):
            return Lin(self.terms, self.c + s * o)
        t = dict(self.terms)
        for k, v in o.terms.items():
            t[k] = t.get(k, 0) + s * v
        return Lin(t, self.c + s * o.c)

    def binop(self, ev, op, other, swapped, node):
        if isinstance(other, bool) or not isinstance(other, (int, Lin)):
            return Unk(op) if isinstance(other, (Abs,)) and not isinstance(other, Val) else Val()
        if op == "+":
            return simple(self.plus(other))
        if op == "-":
            if not swapped:
                return simple(self.plus(other, -1))
            return simple(Lin({k: -v for k, v in self.terms.items()}, -self.c).plus(other))
        if op == "*" and isinstance(other, int):
            return simple(Lin({k: v * other for k, v in self.terms.items()}, self.c * other))
        return Val()

    def unop(self, ev, op, node):
        if op == "-":
            return Lin({k: -v for k, v in self.terms.items()}, -self.c)
        return Val()

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        if isinstance(other, bool) or not isinstance(other, (int, Lin)):
            return Unk(op) if isinstance(other, Cnt) else Val()
        d = self.plus(other, -1)  # self - other
        if op in ("<", "<=", ">", ">="):
            neg = Lin({k: -v for k, v in d.terms.items()}, -d.c)
            ge = {">=": d, ">": d.plus(-1), "<=": neg, "<": neg.plus(-1)}[op]  # op holds iff ge >= 0
            return ev.domain.decide_ge(ev, ge, node)
        if op in ("==", "!="):
            if not d.terms:
                return (d.c == 0) == (op == "==")
            neg = Lin({k: -v for k, v in d.terms.items()}, -d.c)
            if ev.domain.proved(d.plus(-1)) or ev.domain.proved(neg.plus(-1)):
                return op == "!="
            if ev.domain.proved(d) and ev.domain.proved(neg):
                return op == "=="
            how = ev.choose(["<", "==", ">"], ("eq", getattr(node, "lineno", 0)))
            for f in {"<": [neg.plus(-1)], "==": [d, neg], ">": [d.plus(-1)]}[how]:
                ev.domain.fact(f)
            if infeasible(ev.domain.facts):
                ev.tainted = True
            return (how == "==") == (op == "==")
        return Val()

    def truth(self, ev, node):
        return ev.truth(self.compare(ev, "!=", 0, False, node), node)

    def attr(self, ev, name, node):
        return Val()

    def __repr__(self):
        return " + ".join([f"{'' if v == 1 else v}{k}" for k, v in sorted(self.terms.items())] + [str(self.c)]).replace("+ -", "- ")


def infeasible(facts):
    """No values satisfy all of the inequalities (Fourier-Motzkin elimination over at most three variables)."""
    rows = {f.key(): f for f in facts}
    for v in sorted({k for f in facts for k in f.terms}):
        up = [f for f in rows.values() if f.terms.get(v, 0) > 0]
        down = [f for f in rows.values() if f.terms.get(v, 0) < 0]
        new = {k: f for k, f in rows.items() if v not in f.terms}
        for a in up:
            for b in down:
                x, y = -b.terms[v], a.terms[v]
                c = Lin({k: a.terms.get(k, 0) * x + b.terms.get(k, 0) * y for k in {*a.terms, *b.terms}}, a.c * x + b.c * y)
                new[c.key()] = c
        rows = new
        if len(rows) > 400:
            return False
    return any(not f.terms and f.c < 0 for f in rows.values())


def simple(l):
    return l if l.terms else l.c


class Gen:
    """A generation of nodes: a source, or the neighbors (direction d) of `src` outside `excl`."""

    def __init__(self, no, name=None, d=None, src=frozenset(), excl=frozenset()):
        self.no, self.name, self.d, self.src, self.excl = no, name, d, src, excl

    def __repr__(self):
        return self.name or f"{self.d}({', '.join(sorted(map(repr, self.src)))})"

    def __lt__(self, o):
        return self.no < o.no


class Id(Abs):
    def __init__(self, name):
        self.name = name

    def compare(self, ev, op, other, swapped, node):
        if op in ("==", "!=", "is", "is not"):
            if isinstance(other, Id):
                if other.name == self.name:
                    return op in ("==", "is")
                eq = ev.domain.same_ends(ev)
                return eq == (op in ("==", "is"))
            if other is None:
                return op in ("!=", "is not")
        return Val()

    def truth(self, ev, node):
        return Val().truth(ev, node)

    def binop(self, ev, op, other, swapped, node):
        return Val()


class Node(Id):
    """A label."""


class Nodes(Abs):
    """A list of source labels."""

    def __init__(self, name):
        self.name = name

    def iterate(self, ev, node):
        return [Node(self.name)]

    def compare(self, ev, op, other, swapped, node):
        if other is None:
            return op in ("is not", "!=")
        return Val()

    def length(self, ev, node):
        return Lin({"k": 1}, 0)

    def truth(self, ev, node):
        return True


class Cnt(Abs):
    def __init__(self, gens, dom):
        self.gens, self.dom = dict(gens), dom

    def compare(self, ev, op, other, swapped, node):
        if isinstance(other, Lin) and op in ("==", "!=", "<", ">="):
            if other.key() == ev.domain.n.key():
                return AllFound(dict(self.gens), op in ("==", ">="))
            return Val()
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        if isinstance(other, int) and not isinstance(other, bool):
            z = {("==", 0): True, ("!=", 0): False, (">", 0): False, ("<=", 0): True, ("<", 1): True, (">=", 1): False}.get((op, other))
            if z is None:
                return Val()
            return ev.domain.empty_set(ev, self.gens, node) == z
        return Val()

    def truth(self, ev, node):
        return not ev.domain.empty_set(ev, self.gens, node)

    def binop(self, ev, op, other, swapped, node):
        return Val()

    def attr(self, ev, name, node):
        return Val()


class AllFound(Abs):
    """The answer to "does the set have all n nodes?"."""

    def __init__(self, gens, positive):
        self.gens, self.positive = gens, positive

    def truth(self, ev, node):
        ev.tainted = True
        return ev.choose([True, False], ("all", 0))

    def unop(self, ev, op, node):
        return AllFound(self.gens, not self.positive) if op == "not" else Val()

    def compare(self, ev, op, other, swapped, node):
        return Val()


class Meet(Abs):
    """Do two frontiers share a node?"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def truth(self, ev, node):
        return ev.domain.meet(ev, self.a, self.b)

    def attr(self, ev, name, node):
        if name in ("get", "new"):
            return Prim(lambda *a: self)
        if name == "value":
            return self
        return Val()

    def compare(self, ev, op, other, swapped, node):
        if other is None or isinstance(other, (int, bool)) and not other:
            m = self.truth(ev, node)
            return m == (op in ("!=", "is not", ">"))
        return Val()


class Mask(Abs):
    def __init__(self, parent, structure, comp=False):
        self.parent, self.structure, self.comp = parent, structure, comp

    def resolved(self):
        """A value mask as a structural one, where the values are known."""
        p = self.parent
        if self.structure or not isinstance(p, Set) or p.top:
            return self
        if all(isinstance(x, (int, float)) for x in p.live().values()):
            return Mask(Set(p.dom, {g: x for g, x in p.live().items() if x}), True, self.comp)
        return self

    def unop(self, ev, op, node):
        return Mask(self.parent, self.structure, not self.comp) if op == "~" else Unk(op)

    def attr(self, ev, name, node):
        if name == "parent":
            return self.parent
        return Unk(name)

    def compare(self, ev, op, other, swapped, node):
        return op in ("is not", "!=") if other is None else Val()

    def truth(self, ev, node):
        return True


class Target(Abs):
    def __init__(self, x, args, kwargs):
        self.x = x
        from . import c22
        args = list(args)
        mask = kwargs.get("mask")
        accum, replace, bad = kwargs.get("accum"), kwargs.get("replace", False), False
        for a in args:
            if isinstance(a, Mask):
                mask = a
            elif isinstance(a, Ext) and a.name.split(".")[-1] == "replace":
                replace = True
            elif isinstance(a, Ext):
                accum = a
            elif a is not None:
                bad = True
        if mask is not None and not isinstance(mask, Mask):
            bad = True
        self.mask, self.accum, self.replace, self.bad = mask, accum, bool(replace) if not isinstance(replace, Abs) else True, bad

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            self.x.update(ev, other, self.mask, self.accum, self.replace, self.bad, node)
            return Val()
        return Unk(op)

    def setitem(self, ev, key, value, node):
        if full(key):
            self.x.update(ev, value, self.mask, self.accum, self.replace, self.bad, node)
        else:
            self.x.top = True


class Set(Abs):
    """A vector: the generations it has entries for, with their values."""

    def __init__(self, dom, gens=None, top=False, scale=False):
        self.dom, self.gens, self.top, self.scale = dom, dict(gens or {}), top, scale
        self.rows = None  # number of rows of a matrix of searches, if not n

    def copy(self):
        r = Set(self.dom, self.gens, self.top, self.scale)
        r.rows = self.rows
        return r

    def live(self):
        return {g: p for g, p in self.gens.items() if not self.dom.is_empty(g)}

    # -- writing
    def update(self, ev, x, mask, accum, replace, bad, node):
        d = self.dom
        self.scale = False
        if isinstance(mask, Mask):
            mask = mask.resolved()
        if bad or mask is not None and (not isinstance(mask.parent, Set) or not mask.structure):
            self.top = True
            return
        if mask is not None and mask.parent.top:
            self.top = True
            return
        if isinstance(x, Set):
            if x.top:
                self.top = True
                return
            self.scale = x.scale
            new = x.masked(mask)
        elif isinstance(x, (int, float, str)) or isinstance(x, (Lin, Val, Id)):
            p = x if isinstance(x, (int, float)) else None if isinstance(x, Val) else x
            if mask is None:
                self.gens, self.top = {d.all: p}, False  # a value for every node
                return
            if mask.comp:
                self.top = True
                return
            new = {g: p for g in mask.parent.live()}
        else:
            self.top = True
            return
        if new is None:
            self.top = True
            return
        # what stays of the old entries
        old = self.live()
        if self.top:
            if mask is None and accum is None:
                old = {}
                self.top = False
            else:
                return
        if mask is None:
            keep = old if accum is not None else {}
        elif accum is not None:
            keep = {} if False else dict(old)
            if replace:
                keep = d.inside(old, mask)
        else:
            keep = {} if replace else d.outside(old, mask, set(new))
        if keep is None:
            self.top = True
            return
        out = dict(keep)
        for g, p in new.items():
            for o in list(out):
                if o is not g and d.overlap(g, o) and out[o] != p and not (isinstance(x, Set) and mask is None and accum is None):
                    out[o] = "?"  # may have been overwritten
            out[g] = p
        self.gens = out

    def masked(self, mask):
        """The part of this expression inside the mask; None: not known."""
        d = self.dom
        if mask is None:
            return self.live()
        m = mask.parent.live()
        if d.all in m:
            return {} if mask.comp else self.live()
        out = {}
        for g, p in self.live().items():
            if mask.comp:
                if g in m:
                    continue
                if g.d is not None:
                    g2 = d.step(g.d, g.src, g.excl | frozenset(m))
                    if not d.is_empty(g2):
                        out[g2] = p
                elif not any(d.overlap(g, o) for o in m):
                    out[g] = p
                else:
                    return None
            else:
                if g in m:
                    out[g] = p
                elif any(d.overlap(g, o) for o in m):
                    return None
        return out

    def setitem(self, ev, key, value, node):
        if isinstance(key, Mask):
            return self.update(ev, value, key, None, False, False, node)
        if full(key):
            return self.update(ev, value, None, None, False, False, node)
        if isinstance(key, Id) and isinstance(value, (int, float, Id, Val, Lin)):
            g = self.dom.source(key.name)
            for o in list(self.gens):
                if o is not g and self.dom.overlap(g, o):
                    self.gens[o] = "?" if self.gens[o] != value else self.gens[o]
            self.gens[g] = value if not isinstance(value, Abs) or isinstance(value, Lin) else None
            return
        self.top = True

    def delitem(self, ev, key, node):
        if isinstance(key, Id):
            g = self.dom.source(key.name)
            self.gens.pop(g, None)
            if any(self.dom.overlap(g, o) for o in self.live()):
                self.top = True
            return
        self.top = True

    def call(self, ev, args, kwargs, node):
        return Target(self, args, kwargs)

    # -- reading
    def attr(self, ev, name, node):
        d = self.dom
        if name == "nvals":
            return Cnt(self.gens, d) if not self.top else Unk("nvals")
        if name == "nrows" and self.rows is not None:
            return self.rows
        if name in ("size", "nrows", "ncols"):
            return d.n
        if name in ("S", "V"):
            return Mask(self, name == "S")
        if name == "dup":
            return Prim(lambda ev, a, k, n: Set(d) if k.get("clear") is True else self.masked_new(k))
        if name == "new":
            return Prim(lambda ev, a, k, n: self.masked_new(k))
        if name == "clear":
            def clear(ev, a, k, n):
                self.gens, self.top = {}, False
            return Prim(clear)
        if name == "diag":
            def diag(ev, a, k, n):
                r = self.copy()
                if d.all in r.gens:
                    r.gens = {d.source("every node"): r.gens[d.all]}
                return r
            return Prim(diag)
        if name == "get":
            return Prim(lambda ev, a, k, n: d.value_at(ev, self, a[0] if a else k.get("index"), a[1] if len(a) > 1 else k.get("default")))
        if name == "to_coo":
            return Prim(lambda ev, a, k, n: (Ids(self.copy()), Val()))
        if name in ("ewise_add", "ewise_union"):
            return Prim(lambda ev, a, k, n: self.union(a[0]))
        if name == "apply":
            return Prim(lambda *a: Set(d, {g: None for g in self.gens}, self.top))
        if name == "vxm":
            return Prim(lambda ev, a, k, n: product(self, a[0]))
        if name in ("reduce", "reduce_rowwise", "reduce_scalar"):
            return Prim(lambda *a: Val())
        if name in ("dtype", "name", "ss"):
            return Val()
        return Unk(name)

    def setattr(self, ev, name, value, node):
        pass

    def masked_new(self, k):
        mask = k.get("mask")
        if mask is None:
            return self.copy()
        if isinstance(mask, Mask):
            mask = mask.resolved()
        if not isinstance(mask, Mask) or not isinstance(mask.parent, Set) or mask.parent.top or self.top or not mask.structure:
            return Set(self.dom, {}, True)
        m = self.masked(mask)
        return Set(self.dom, m or {}, m is None)

    def union(self, o):
        if not isinstance(o, Set) or o.top or self.top:
            return Set(self.dom, {}, True)
        out = dict(self.gens)
        for g, p in o.gens.items():
            out[g] = p if g not in out or out[g] == p else None
        return Set(self.dom, out)

    def binop(self, ev, op, other, swapped, node):
        if op == "<<":
            if swapped:
                return Unk(op)
            self.update(ev, other, None, None, False, False, node)
            return Val()
        if op == "@":
            if isinstance(other, Mat):
                return product(other, self) if swapped else product(self, other)
            if isinstance(other, Set):
                return Meet(self, other)
            return Unk(op)
        if isinstance(other, Set):
            if op in ("|", "+"):
                return self.union(other)
            if op == "&" and not self.top and not other.top:
                if all(g in other.gens or not any(self.dom.overlap(g, o) for o in other.live()) for g in self.live()):
                    return Set(self.dom, {g: None for g in self.live() if g in other.gens})
            return Set(self.dom, {}, True)
        if isinstance(other, Unk):
            return Set(self.dom, {}, True)
        if op in ("*", "/"):
            r = self.copy()
            r.scale = True
            return r
        return Set(self.dom, {g: None for g in self.gens}, self.top)

    def unop(self, ev, op, node):
        return Set(self.dom, {g: None for g in self.gens}, self.top)

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        return Set(self.dom, {}, True)

    def contains(self, ev, item, node):
        if isinstance(item, Id) and not self.top:
            return self.dom.target_in(ev, self, item)
        return Val()

    def getitem(self, ev, key, node):
        if full(key):
            return self.copy()
        if isinstance(key, Id):
            return Item(self, key)
        if isinstance(key, tuple) and len(key) == 2 and full(key[1]) and isinstance(key[0], int):
            return self.copy()  # the row of a source in a matrix of searches
        return Unk("[]")

    def truth(self, ev, node):
        return Val().truth(ev, node)

    def __repr__(self):
        return f"Set({self.gens}{' top' if self.top else ''})"


class Item(Val):
    def __init__(self, s, key):
        self.s, self.key = s, key

    def attr(self, ev, name, node):
        if name == "get":
            return Prim(lambda ev, a, k, n: ev.domain.value_at(ev, self.s, self.key, a[0] if a else None))
        if name == "value":
            return ev.domain.value_at(ev, self.s, self.key, None)
        return Val()


class Ids(Abs):
    def __init__(self, s):
        self.s = s

    def attr(self, ev, name, node):
        if name in ("tolist", "copy", "astype"):
            return Prim(lambda *a: type(self)(self.s.copy()))
        if name == "remove":
            return Prim(lambda ev, a, k, n: self.s.delitem(ev, a[0] if a else None, n))
        if name in ("append", "extend", "insert", "pop", "clear"):
            def changed(ev, a, k, n):
                self.s.top = True
                return Val()
            return Prim(changed)
        if name == "size":
            return self.length(ev, node)
        return Val()

    def length(self, ev, node):
        if self.s.top:
            return Val()
        if all(g.d is None for g in self.s.gens):
            return Lin({"k": 1}, 0)
        return Cnt(self.s.gens, self.s.dom)

    def iterate(self, ev, node):
        return None

    def compare(self, ev, op, other, swapped, node):
        return op in ("is not", "!=") if other is None else Val()

    def truth(self, ev, node):
        return Val().truth(ev, node)

    def getitem(self, ev, key, node):
        return self if full(key) else Val()


class Mat(Abs):
    """The adjacency matrix: rows to columns is direction `d` ("out", "in", or "any" in an undirected graph)."""

    def __init__(self, dom, d):
        self.dom, self.d = dom, d

    def attr(self, ev, name, node):
        if name == "T":
            return Mat(self.dom, {"out": "in", "in": "out"}.get(self.d, self.d))
        if name in ("new", "dup"):
            return Prim(lambda ev, a, k, n: self if not k.get("mask") and not k.get("clear") else Unk(name))
        if name in ("nrows", "ncols"):
            return self.dom.n
        if name == "shape":
            return (self.dom.n, self.dom.n)
        if name in ("dtype", "nvals", "name", "ss"):
            return Val()
        return Unk(name)

    def setattr(self, ev, name, value, node):
        pass

    def binop(self, ev, op, other, swapped, node):
        if op == "@":
            if isinstance(other, Set):
                return product(other, self) if swapped else product(self, other)
        return Unk(op)

    def getitem(self, ev, key, node):
        if isinstance(key, tuple) and len(key) == 2:
            r, c = key
            if isinstance(r, Ids) and isinstance(c, Ids):
                return Sub(r.s if r.s is c.s or r.s.gens == c.s.gens else None)
            back = {"out": "in", "in": "out"}.get(self.d, self.d)
            for i, j, d in ((r, c, self.d), (c, r, back)):
                if isinstance(i, Id) and full(j):
                    g = self.dom.source(i.name)
                    return Set(self.dom, {self.dom.step(d, frozenset([g]), frozenset()): None})
            if isinstance(r, Id) and isinstance(c, Id):
                return MaybeItem()
        return Unk("[]")

    def compare(self, ev, op, other, swapped, node):
        return op in ("is not", "!=") if other is None else Val()

    def truth(self, ev, node):
        return Val().truth(ev, node)


class MaybeItem(Val):
    def attr(self, ev, name, node):
        if name == "get":
            return Prim(lambda *a: MaybeVal())
        return MaybeVal()


class Sub(Abs):
    """A block of the adjacency matrix."""

    def __init__(self, s):
        self.s = s

    def attr(self, ev, name, node):
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        return Val()

    def setattr(self, ev, name, value, node):
        pass


class Answer(Abs):
    """A returned node set, node map or graph."""

    def __init__(self, kind, x, fill=None):
        self.kind, self.x, self.fill = kind, x, fill

    def attr(self, ev, name, node):
        if name in ("vector", "matrix"):
            return self.x
        if name == "items" and self.kind == "NodeNodeMap" and isinstance(self.x, Set):
            return Prim(lambda *a: [(Node("every node"), Answer("NodeMap", self.x))])
        return Unk(name)

    def setattr(self, ev, name, value, node):
        pass

    def iterate(self, ev, node):
        return None

    def truth(self, ev, node):
        return Val().truth(ev, node)


def product(a, b):
    """Neighbors of a frontier."""
    s, m = (a, b) if isinstance(a, Set) else (b, a)
    if not isinstance(s, Set) or not isinstance(m, Mat):
        return Unk("@")
    d = s.dom
    if s.top or d.all in s.gens:
        return Set(d, {}, True)
    way = m.d if a is s else {"out": "in", "in": "out"}.get(m.d, m.d)
    live = frozenset(s.live())
    if not live:
        return Set(d)
    return Set(d, {d.step(way, live, frozenset()): None})


class Search(Domain):
    orders = True  # min() and max() compare abstract values

    def __init__(self, directed, rounds):
        self.directed, self.rounds = directed, rounds
        self.n = Lin({"n": 1}, 0)
        self.reset()

    def reset(self):
        self.registry = {}
        self.gens = []
        self.empty = set()
        self.busy = set()
        self.nonempty = set()
        self.facts = [Lin({"n": 1}, -1), Lin({"cutoff": 1}, 0), Lin({"distance": 1}, 0), Lin({"k": 1}, -1), Lin({"n": 1, "k": -1}, 0)]  # k: the number of sources
        self.ended = []       # (rounds, total): loops that ran to their end
        self.watch = []       # comparisons made in the while loops being run
        self.tests = []       # bidirectional: sums of steps tested
        self.met = False
        self.target = None    # generation the target is in
        self.target_not = set()
        self.target_tests = 0
        self.same = None
        self.all = Gen(-1, "every node of the graph")
        self.chunk = None

    # -- arithmetic facts
    def fact(self, ge):
        self.facts.append(ge)

    def proved(self, ge):
        """ge >= 0 follows from the facts of the path: its opposite contradicts them."""
        if not ge.terms:
            return ge.c >= 0
        return infeasible([*self.facts, Lin({k: -v for k, v in ge.terms.items()}, -ge.c - 1)])

    # -- loops that count their rounds themselves
    @property
    def while_rounds(self):
        return self.rounds

    def loop_enter(self, ev):
        self.watch.append([])
        return len(self.watch) - 1

    def loop_exit(self, ev, token, rounds, by_test):
        """A loop was left: was it because a count of its rounds came to an end?"""
        log = self.watch[token]
        del self.watch[token:]
        if self.watch:
            self.watch[-1].extend(log)
        if not log:
            return
        node, ge, outcome, pos = log[-1]
        if pos < ev.pos:
            return  # something else was asked afterwards
        same = [x for x in log if x[0] == node]
        if len(same) > 1 and same[-2][2] == outcome:
            return
        neg = lambda x: Lin({k: -v for k, v in x.terms.items()}, -x.c - 1)
        more = neg(ge) if outcome else ge  # the loop would have gone on with this
        step = 1
        if len(same) > 1:
            before = neg(same[-2][1]) if outcome else same[-2][1]
            d = before.plus(more, -1)
            if d.terms or d.c < 1:
                return
            step = d.c
        r = len(same) - 1
        if by_test or len(same) > 1:
            r = rounds
        self.ended.append((r, more.plus(r * step + 1), step))

    def decide_ge(self, ev, ge, node):
        r = self.decide_ge1(ev, ge, node)
        for w in self.watch[-1:]:
            w.append((id(node), ge, r, ev.pos))
        return r

    def decide_ge1(self, ev, ge, node):
        neg = Lin({k: -v for k, v in ge.terms.items()}, -ge.c - 1)
        if self.proved(ge):
            return True
        if self.proved(neg):
            return False
        r = ev.choose([True, False], ("order", getattr(node, "lineno", 0)))
        self.fact(ge if r else neg)
        return r

    # -- generations
    def source(self, name):
        if name not in self.registry:
            self.registry[name] = Gen(len(self.gens), name)
            self.gens.append(self.registry[name])
        return self.registry[name]

    def step(self, d, src, excl):
        k = (d, src, excl)
        if k not in self.registry:
            self.registry[k] = Gen(len(self.gens), None, d, src, excl)
            self.gens.append(self.registry[k])
        return self.registry[k]

    def is_empty(self, g):
        if g in self.empty:
            return True
        if g.d is None:
            return False
        if all(self.is_empty(s) for s in g.src):
            return True
        # without more than an empty one has
        if g in self.busy:
            return False
        self.busy.add(g)
        src = frozenset(s for s in g.src if not self.is_empty(s))
        excl = g.excl
        r = any(e.d == g.d and src <= e.src and all(x in excl or self.is_empty(x) for x in e.excl) for e in self.empty)
        self.busy.discard(g)
        return r

    def roots(self, g):
        return frozenset([g]) if g.d is None else frozenset(r for s in g.src for r in self.roots(s))

    def level(self, g, depth=0):
        """The exact number of steps from the source, if the generation is a layer."""
        if g.d is None:
            return 0
        if depth > 12 or len(self.roots(g)) != 1:
            return None
        ls = {s: self.level(s, depth + 1) for s in g.src}
        if any(x is None for x in ls.values()):
            return None
        k = max(ls.values())
        before = {o: self.level(o, depth + 1) for o in self.gens if o is not g and self.roots(o) == self.roots(g) and o.no < g.no and self.way(o) in (None, g.d) and not self.is_empty(o)}
        foreign = [o for o in g.excl if not self.is_empty(o) and (self.roots(o) != self.roots(g) or self.way(o) not in (None, g.d))]
        for o in foreign:
            # excluding nodes the other search found is harmless once all paths of that length were looked for in vain
            l = self.level(o, depth + 1)
            if self.met or l is None or self.roots(o) & self.roots(g) or not set(range(1, l + k + 2)) <= {x for x, _, _ in self.tests}:
                return None
        need = {o for o, l in before.items() if l is not None and l <= k and (g.d != "any" or l >= k - 1)} | {s for s, l in ls.items() if g.d != "any" or l >= k - 1}
        # other expressions for the same layer are alike
        covered = {self.level(o, depth + 1) for o in g.excl}
        if any(before.get(o, ls.get(o)) not in covered for o in need):
            return None
        last = {s for s in g.src if ls[s] == k}
        return k + 1 if last else None

    def way(self, g):
        return g.d

    def overlap(self, g, o):
        """May the generations share nodes?"""
        if g is o:
            return True
        if self.all in (g, o):
            return True
        if o in g.excl or g in o.excl:
            return False
        a, b = self.level(g), self.level(o)
        if a is not None and b is not None and a != b and self.roots(g) == self.roots(o) and (g.d is None or o.d is None or g.d == o.d):
            return False
        return True

    def inside(self, old, mask):
        if mask.comp:
            return {g: p for g, p in old.items() if g not in mask.parent.live()}
        return {g: p for g, p in old.items() if g in mask.parent.live()}

    def outside(self, old, mask, new):
        """Old entries that an assignment without accumulation under the mask leaves."""
        m = mask.parent.live()
        out = {}
        for g, p in old.items():
            if mask.comp:
                if g in m:
                    out[g] = p
                elif any(self.overlap(g, o) for o in m):
                    return None
            else:
                if g in m:
                    if g not in new:
                        continue
                    out[g] = p
                else:
                    out[g] = p
        return out

    def empty_set(self, ev, gens, node):
        live = [g for g in gens if not self.is_empty(g)]
        if not live:
            return True
        if any(g.d is None or g in self.nonempty for g in live):
            return False
        r = ev.choose([False, True], ("empty", getattr(node, "lineno", 0)))
        if r:
            self.empty |= set(live)
        elif len(live) == 1:
            self.nonempty.add(live[0])
        return r

    def target_in(self, ev, s, item):
        if item.name != "t":
            g = self.source(item.name)
            return g in s.gens or Val()
        self.target_tests += 1
        live = [g for g in s.live() if g not in self.target_not and g.d is not None]
        if self.target is not None:
            return self.target in s.live()
        if not live:
            return False
        r = ev.choose([False, True], ("target", 0))
        if r:
            self.target = live[-1]
            self.nonempty.add(live[-1])
        else:
            self.target_not |= set(live)
        return r

    def value_at(self, ev, s, idx, default):
        if s.top or not isinstance(idx, Id):
            return MaybeVal()
        if idx.name != "t":
            return s.gens.get(self.source(idx.name), default)
        if self.target is None:
            live = [g for g in s.live() if g not in self.target_not and g.d is not None]
            g = ev.choose([None] + live, ("target", 1))
            if g is None:
                self.target_not |= set(live)
                self.unfound = s
                return default
            self.target = g
            self.nonempty.add(g)
        p = s.gens.get(self.target)
        return Steps(self.target, p, s.scale) if self.target in s.live() else default

    def same_ends(self, ev):
        if self.same is None:
            self.same = ev.choose([False, True], ("same", 0))
        return self.same

    def meet(self, ev, a, b):
        if a.top or b.top:
            ev.tainted = True
            return ev.choose([False, True], ("meet", 0))
        la = {self.level(g) for g in a.live()}
        lb = {self.level(g) for g in b.live()}
        if not la or not lb:
            return False
        if len(la) == len(lb) == 1 and None not in la | lb:
            self.tests.append((la.pop() + lb.pop(), a, b))
        else:
            self.tests.append((None, a, b))
        r = ev.choose([False, True], ("meet", 0))
        if r:
            self.met = True
        return r

    # -- the graph
    def graph(self, ev):
        mod = "graphblas_algorithms.classes." + ("digraph" if self.directed else "graph")
        cls = ev.module_name(ev.module(mod), "DiGraph" if self.directed else "Graph")
        if not isinstance(cls, MClass):
            return None
        A = Mat(self, "out" if self.directed else "any")
        return MInst(cls, {"_A": A, "matrix": A, "_key_to_id": Map(True), "_id_to_key": Map(False), "id_to_key": Map(False), "_cache": {}, "graph": {}})

    def prop(self, ev, name):
        base = name[:-1] if name[-1] in "+-" else name
        A = Mat(self, "out" if self.directed else "any")
        if base in ("A", "offdiag"):
            return A
        if base == "AT":
            return A.attr(ev, "T", None)
        if base == "is_iso":
            return ev.choose([True, False], "is_iso")
        if base == "has_negative_edges":
            return ev.choose([False, True], "negative")
        if base == "iso_value":
            return Iso()
        if base.startswith(("has_", "is_", "max_", "min_", "total_")):
            return Val()
        return Unk(name)

    def intercept(self, ev, f, args, kwargs, node):
        nm = f.name
        if nm in ("to_graph", "to_directed_graph", "to_undirected_graph") and args and isinstance(args[0], MInst):
            return (args[0],)
        if nm in ("get_property", "get_properties") and args and isinstance(args[0], MInst):
            names = args[1] if len(args) > 1 else kwargs.get("name", kwargs.get("names"))
            if isinstance(names, (list, tuple)) and nm == "get_properties":
                names = " ".join(names)
            if not isinstance(names, str):
                return (Unk("property"),)
            if nm == "get_property":
                return (self.prop(ev, names),)
            return ([self.prop(ev, x) for x in names.split()],)
        if nm == "normalize_chunksize":
            return (self.chunk,)
        if nm == "partition" and len(args) >= 2:
            return ([args[1]],)
        if nm == "list_to_ids" and len(args) > 1 and isinstance(args[1], (Nodes, list)):
            xs = ev.items(args[1], node)
            if len(xs) == 1 and isinstance(xs[0], Node):
                return (Ids(Set(self, {self.source(xs[0].name): True})),)
        if nm == "vector_to_list" and len(args) > 1 and isinstance(args[1], Set):
            return (Answer("list", args[1]),)
        if nm == "renumber_key_to_id":
            return (Val(),)
        return None

    def instantiate(self, ev, cls, args, kwargs, node):
        if cls.name in ("NodeMap", "NodeSet", "NodeNodeMap", "VectorNodeMap"):
            return Answer(cls.name, args[0] if args else Unk("v"), kwargs.get("fill_value"))
        if cls.name in ("Graph", "DiGraph"):
            x = args[0] if args else None
            return Answer("Graph", x.s if isinstance(x, Sub) and x.s is not None else Unk("graph"))
        return super().instantiate(ev, cls, args, kwargs, node)

    def ext_getitem(self, ev, name, key, node):
        return Ext(name)

    def ext_call(self, ev, name, args, kwargs, node):
        parts = name.split(".")
        last = parts[-1]
        if parts[0] == "graphblas":
            if last == "Vector" or last == "Matrix":
                return Set(self)
            if len(parts) >= 2 and parts[-2] in ("Vector", "Matrix"):
                if last == "from_coo":
                    for a in args[:2]:
                        if isinstance(a, Ids):
                            v = args[1 if parts[-2] == "Vector" else 2] if len(args) > (1 if parts[-2] == "Vector" else 2) else kwargs.get("values")
                            r = Set(self, {g: v if isinstance(v, (int, float)) else None for g in a.s.gens}, a.s.top)
                            r.rows = kwargs.get("nrows")
                            return r
                    if args and isinstance(args[0], list) and len(args[0]) == 1 and isinstance(args[0][0], Id):
                        v = args[1] if len(args) > 1 else kwargs.get("values")
                        return Set(self, {self.source(args[0][0].name): v if isinstance(v, (int, float)) else None})
                if last == "from_scalar" and args:
                    return Set(self, {self.all: args[0] if isinstance(args[0], (int, float)) else None})
                return Set(self, {}, True)
            objs = [a for a in args if isinstance(a, (Set, Mat))]
            if args and isinstance(args[0], Meet):
                return args[0]
            if len(objs) == 1 and len(args) == 1:
                if isinstance(objs[0], Mat):
                    return Unk(name)
                if "semiring" in parts or "monoid" in parts or "binary" in parts:
                    return objs[0]
                if "unary" in parts or "indexunary" in parts:
                    one = last == "one" or "one" in parts
                    return Set(self, {g: True if one else None for g in objs[0].gens}, objs[0].top)
            if objs and "select" in parts:
                return Set(self, {}, True)
            return Unk(name)
        if parts[0] in ("numpy", "np"):
            if last in ("fromiter", "array", "asarray") and args:
                xs = ev.items(args[0], node)
                if len(xs) == 1 and isinstance(xs[0], Id):
                    return Ids(Set(self, {self.source(xs[0].name): True}))
            return Val()
        return Unk(name)

    def isinstance(self, ev, v, t, node):
        ts = t if isinstance(t, tuple) else (t,)
        nm = [x.name.split(".")[-1] if isinstance(x, Ext) else x.name if isinstance(x, (MClass, Prim)) else "?" for x in ts]
        mine = {Set: "Vector", Mat: "Matrix", Nodes: "list"}.get(type(v))
        if mine is not None:
            if mine in nm:
                return True
            if "?" not in nm:
                return False
        return None

    def range(self, ev, args, node):
        if not any(isinstance(x, Lin) for x in args):
            return None
        args = list(args)
        start, stop, stepv = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
        if not isinstance(start, int) or not isinstance(stepv, int) or stepv < 1 or not isinstance(stop, Lin):
            return None
        total = stop.plus(-start)  # rounds * stepv is total, rounded up
        return Rounds(self, start, stepv, total)


class Rounds(Abs):
    def __init__(self, dom, start, step, total):
        self.dom, self.start, self.step, self.total = dom, start, step, total

    def iterate(self, ev, node):
        return self.gen(ev, node)

    def gen(self, ev, node):
        r = 0
        while True:
            more = self.total.plus(-r * self.step - 1)  # another round iff more >= 0
            if r >= self.dom.rounds:
                neg = Lin({k: -v for k, v in more.terms.items()}, -more.c - 1)
                if self.dom.proved(more):
                    ev.tainted = True
                self.dom.fact(neg)
                go = False
            else:
                go = self.dom.decide_ge(ev, more, node)
            if not go:
                self.dom.ended.append((r, self.total, self.step))
                return
            yield self.start + r * self.step
            r += 1


class Steps(Val):
    """The value a vector has for the target."""

    def __init__(self, gen, value, scaled):
        self.gen, self.value, self.scaled = gen, value, scaled

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        return Val()

    def binop(self, ev, op, other, swapped, node):
        if op == "*":
            return Steps(self.gen, self.value, True)
        return Val()


class Iso(Val):
    def attr(self, ev, name, node):
        if name == "dtype":
            return Val()
        if name in ("get", "new"):
            return Prim(lambda *a: Val())
        return Val()


class Map(Abs):
    def __init__(self, to_id):
        self.to_id = to_id

    def getitem(self, ev, key, node):
        if isinstance(key, (Nodes,)):
            raise MRaise("TypeError", node)
        if isinstance(key, Id):
            return Id(key.name) if self.to_id else Node(key.name)
        return Val()

    def contains(self, ev, item, node):
        if isinstance(item, Nodes):
            raise MRaise("TypeError", node)
        if isinstance(item, Id):
            return True
        return Val()

    def attr(self, ev, name, node):
        if name in ("__getitem__", "get"):
            return Prim(lambda ev, a, k, n: self.getitem(ev, a[0], n))
        return Unk(name)

    def iterate(self, ev, node):
        return [Node("first node")]

    def length(self, ev, node):
        return ev.domain.n

    def truth(self, ev, node):
        return True

    def compare(self, ev, op, other, swapped, node):
        return op in ("is not", "!=") if other is None else Val()


# ---- the functions
S, SL = "s", "list"
CUT = Lin({"cutoff": 1}, 0)
# name, kinds, arguments, what the answer is, directions, options
TABLE = [
    ("descendants", "d", [S], "reach-", ("out",), {}),
    ("descendants", "u", [S], "reach-", ("any",), {}),
    ("ancestors", "d", [S], "reach-", ("in",), {}),
    ("ancestors", "u", [S], "reach-", ("any",), {}),
    ("node_connected_component", "u", [S], "reach", ("any",), {}),
    ("is_connected", "u", [], "all", ("any",), {}),
    ("is_weakly_connected", "d", [], "all", ("out", "in"), {}),
    ("single_source_shortest_path_length", "du", [S], "levels", ("out",), {}),
    ("single_source_shortest_path_length", "du", [S, CUT], "levels<=cutoff", ("out",), {}),
    ("single_target_shortest_path_length", "du", [S], "levels", ("in",), {}),
    ("single_target_shortest_path_length", "du", [S, CUT], "levels<=cutoff", ("in",), {}),
    ("all_pairs_shortest_path_length", "du", [], "pairs", ("out",), {"chunk": None}),
    ("all_pairs_shortest_path_length", "du", [], "pairs", ("out",), {"chunk": 1}),
    ("all_pairs_shortest_path_length", "du", [], "pairs", ("out",), {"chunk": 5}),
    ("all_pairs_shortest_path_length", "du", [CUT], "pairs<=cutoff", ("out",), {"chunk": None}),
    ("all_pairs_shortest_path_length", "du", [CUT], "pairs<=cutoff", ("out",), {"chunk": 1}),
    ("all_pairs_shortest_path_length", "du", [CUT], "pairs<=cutoff", ("out",), {"chunk": 5}),
    ("bfs_layers", "du", [S], "layers", ("out",), {}),
    ("bfs_layers", "du", [SL], "layers", ("out",), {}),
    ("descendants_at_distance", "du", [S, Lin({"distance": 1}, 0)], "at distance", ("out",), {}),
    ("has_path", "du", [S, "t"], "path", ("out",), {}),
    ("ego_graph", "du", [S, Lin({"cutoff": 1}, 0)], "graph<=cutoff", ("out",), {}),
    ("ego_graph", "du", [S, Lin({"cutoff": 1}, 0)], "graph-<=cutoff", ("out",), {"center": False}),
    ("single_source_bellman_ford_path_length", "du", [S], "levels", ("out",), {}),
    ("bellman_ford_path_length", "du", [S, "t"], "target", ("out",), {}),
]


class Judge:
    def __init__(self, rep, dom, label, where, ways):
        self.rep, self.dom, self.label, self.where = rep, dom, label, where
        self.ways = ways

    def bad(self, rule, what, msg):
        self.rep.viol(rule, f"{self.label}: {what}", msg, self.where)

    def complete(self, ev, gens, need, limit=None):
        """Is every node reachable in directions `need` (within `limit` steps) in the generations `gens`?"""
        d = self.dom
        # generations whose emptiness the code did not ask about
        for g in list(gens):
            if g.d is not None and not d.is_empty(g) and g not in d.nonempty:
                if ev.choose([False, True], ("judge", 0)):
                    d.empty.add(g)
                else:
                    d.nonempty.add(g)
        live = [g for g in gens if not d.is_empty(g)]
        for r, total, step in d.ended:
            t = total.terms
            if t == {"n": 1} and step == 1:
                n = r - total.c  # on this path the graph has (at most) n nodes
                count = []
                for g in sorted(live):
                    if all(not d.overlap(g, o) for o in count):
                        count.append(g)
                if len(count) >= n:
                    return None
        known = set(live)
        for g in live:
            if limit is not None:
                l = d.level(g)
                if l is not None and l == limit:
                    continue
            for w in need:
                hs = [h for h in d.gens if h.d == w and g in h.src]
                ok = False
                for h in hs:
                    if h.excl <= known | {e for e in d.gens if d.is_empty(e)} and (d.is_empty(h) or h in known or self.alike(h, known)):
                        ok = True
                if not ok:
                    return f"nodes found ({g!r}) are not followed {'along their out-edges' if w == 'out' else 'along their in-edges' if w == 'in' else 'to their neighbors'}, or what that finds is not in the answer"
        return None

    def alike(self, h, known):
        d = self.dom
        return any(k.d == h.d and k.src >= h.src and k.excl <= h.excl for k in known)

    def reach(self, ev, gens, drop, cutoff=False):
        d, rep = self.dom, self.rep
        gens = dict(gens)
        src = [g for g in d.gens if g.d is None]
        for g in src:
            if drop and g in gens:
                self.bad("reach", "source", "the source is part of the answer")
            if not drop and g not in gens and d.all not in gens:
                self.bad("reach", "source", "the source is missing from the answer")
        full_ = {g: gens.get(g) for g in [*src, *gens]}
        wrong = {g.d for g in gens if g.d is not None and not d.is_empty(g)} - set(self.ways)
        if wrong:
            self.bad("direction", "direction", f"edges are followed {sorted(wrong)} instead of {sorted(self.ways)}")
            return
        if cutoff:
            return self.within(ev, full_)
        why = self.complete(ev, full_, self.ways)
        if why:
            self.bad("reach", "incomplete", why)

    def within(self, ev, gens):
        """Everything up to `cutoff` steps, and nothing beyond."""
        d = self.dom
        why = self.complete(ev, gens, self.ways)
        live = [g for g in gens if not d.is_empty(g)]
        top = max([d.level(g) for g in live if d.level(g) is not None] or [0])
        # nothing beyond: top <= cutoff must follow from the path
        if any(d.level(g) is None for g in live):
            self.rep.unknown["layer not known"] = self.rep.unknown.get("layer not known", 0) + 1
            return
        sure = [g for g in live if g in d.nonempty or g.d is None]
        t = max([d.level(g) for g in sure] or [0])
        if t > 0 and not d.proved(CUT.plus(-t)):
            self.bad("cutoff", "beyond", "nodes more than the given number of steps away may be in the answer")
        if why:
            # incomplete is right only if cutoff <= top
            if not d.proved(Lin({"cutoff": -1}, top)):
                self.bad("cutoff", "short", "nodes within the given number of steps may be missing: " + why)

    def levels(self, gens, scaled):
        d = self.dom
        for g, p in gens.items():
            if d.is_empty(g):
                continue
            l = d.level(g)
            if l is None:
                clean = self.clean(g)
                if not clean:
                    self.bad("layer", "found again", "a node may be reported again with a later number of steps")
                continue
            if p == "?":
                self.bad("layer", "overwritten", "the number of steps of a node found earlier may be overwritten")
            elif isinstance(p, bool) and p is not None and not isinstance(p, str) and l not in (0, 1):
                self.bad("layer", "value", f"nodes {l} steps away are reported as {p}")
            elif isinstance(p, (int, float)) and not isinstance(p, bool):
                if p != l:
                    self.bad("layer", "value", f"nodes {l} steps away are reported as {p} steps away")
            else:
                self.rep.unknown["value not followed"] = self.rep.unknown.get("value not followed", 0) + 1

    def clean(self, g):
        d = self.dom
        before = [o for o in d.gens if o.no < g.no and o.d in (None, g.d) and not d.is_empty(o) and d.level(o) is not None]
        return all(o in g.excl for o in before)


def answer(res):
    """(set, scaled) of a result."""
    if isinstance(res, Answer) and isinstance(res.x, Set) and not res.x.top and res.fill is None:
        return res.x
    return None


def judge(rep, ev, dom, label, where, what, ways, exc, res):
    def unknown(k):
        rep.unknown[k] = rep.unknown.get(k, 0) + 1
    j = Judge(rep, dom, label, where, ways)
    base = what.split("<=")[0]
    cutoff = "<=cutoff" in what
    if base == "path":
        return judge_path(rep, ev, dom, j, exc, res, unknown)
    if base == "target":
        return judge_target(rep, ev, dom, j, exc, res, unknown)
    if exc is not None:
        return unknown("paths ending in an exception")
    if base == "all":
        if isinstance(res, AllFound):
            if not res.positive:
                rep.ob("reach", label)
                return j.bad("reach", "negated", "the answer is the opposite of what was found")
            rep.ob("reach", label)
            return j.reach(ev, res.gens, False)
        return unknown("answers not followed")
    if base in ("reach", "reach-", "graph", "graph-"):
        s = answer(res)
        if s is None:
            return unknown("answers not followed")
        rep.ob("reach" if not cutoff else "cutoff", label)
        return j.reach(ev, s.gens, base.endswith("-"), cutoff)
    if base in ("levels", "pairs"):
        sets = []
        if base == "pairs":
            if not isinstance(res, list):
                return unknown("answers not followed")
            for x in res:
                if not (isinstance(x, tuple) and len(x) == 2 and answer(x[1]) is not None):
                    return unknown("answers not followed")
                sets.append(answer(x[1]))
        else:
            sets = [answer(res)]
        for s in sets:
            if s is None:
                unknown("answers not followed")
                continue
            rep.ob("layer", label)
            j.levels(s.gens, s.scale)
            j.reach(ev, s.gens, False, cutoff)
        return
    if base == "layers":
        if not isinstance(res, list) or any(answer(x) is None for x in res):
            return unknown("answers not followed")
        rep.ob("layer", label)
        allg = {}
        for i, x in enumerate(res):
            live = {g: p for g, p in x.x.gens.items() if not dom.is_empty(g)}
            if not live and i:
                j.bad("layer", "empty", "an empty layer may be reported")
            for g in live:
                l = dom.level(g)
                if l is None:
                    if not j.clean(g):
                        j.bad("layer", "found again", "a node may be reported again in a later layer")
                elif l != i:
                    j.bad("layer", "order", f"nodes {l} steps away are reported as layer {i}")
            allg.update(x.x.gens)
        return j.reach(ev, allg, False)
    if base == "at distance":
        s = answer(res)
        if s is None:
            return unknown("answers not followed")
        rep.ob("layer", label)
        live = {g: p for g, p in s.gens.items() if not dom.is_empty(g)}
        wrong = {g.d for g in live if g.d is not None} - set(ways)
        if wrong:
            return j.bad("direction", "direction", f"edges are followed {sorted(wrong)} instead of {sorted(ways)}")
        D = Lin({"distance": 1}, 0)
        if not live:
            return  # nothing at that distance: right if an earlier layer is empty
        for g in live:
            l = dom.level(g)
            if l is None:
                if not j.clean(g):
                    j.bad("layer", "found again", "nodes found at a smaller distance may be in the answer")
                continue
            if not (dom.proved(D.plus(-l)) and dom.proved(Lin({"distance": -1}, l))):
                j.bad("layer", "distance", f"nodes {l} steps away may be reported for another distance")


def judge_path(rep, ev, dom, j, exc, res, unknown):
    if exc is not None:
        return unknown("paths ending in an exception")
    if dom.same:
        rep.ob("path", j.label)
        if res is False:
            j.bad("path", "trivial", "there is no path from a node to itself")
        return
    if res not in (True, False) or isinstance(res, Abs):
        return unknown("answers not followed")
    rep.ob("path", j.label)
    fwd, back = ("out", "in") if dom.directed else ("any", "any")
    for _, a, b in dom.tests:
        for s in (a, b):
            for g in s.live():
                if g.d is None:
                    continue
                names = {r.name for r in dom.roots(g)}
                want = fwd if names == {"s"} else back if names == {"t"} else None
                if want is None:
                    return unknown("answers not followed")
                if g.d != want:
                    return j.bad("direction", "direction", f"the search from {'the source' if names == {'s'} else 'the target'} follows {g.d}-edges")
    sums = [x for x, _, _ in dom.tests]
    if None in sums:
        return unknown("layers not known")
    if res is True:
        if not dom.met:
            j.bad("path", "unproved", "a path is reported although the two searches did not meet")
        if sums != sorted(sums):
            unknown("order of tests")
        return
    if dom.met:
        return j.bad("path", "met", "no path is reported although the two searches met")
    top = max(sums or [0])
    missing = [k for k in range(1, top + 1) if k not in sums]
    if missing:
        return j.bad("path", "length", f"paths of length {missing[0]} are never looked for")
    for g in dom.gens:
        if dom.is_empty(g) and dom.level(g) is not None:
            # one side is exhausted: everything it found up to there was compared
            return
    if any(dom.is_empty(g) for g in dom.gens):
        return j.bad("path", "exhausted", "no path is reported although neither search has seen every node it can reach")
    for r, total, step in dom.ended:
        # r rounds cover sums up to top; all paths have at most n - 1 edges; total <= r * step
        if total.terms == {"n": 1}:
            n = r * step - total.c  # n is at most this on this path
            if top < n - 1:
                j.bad("path", "short", f"with {n} nodes only paths of up to {top} edges are looked for")
            return
    unknown("answers not followed")


def judge_target(rep, ev, dom, j, exc, res, unknown):
    if isinstance(res, Steps):
        rep.ob("layer", j.label)
        l = dom.level(res.gen)
        if l is None:
            if not j.clean(res.gen):
                j.bad("layer", "found again", "the number of steps may be that of a longer way")
            return
        if res.gen.d not in j.ways:
            j.bad("direction", "direction", f"edges are followed {res.gen.d}")
        if isinstance(res.value, (int, float)) and not isinstance(res.value, bool) and res.value != l:
            j.bad("layer", "value", f"a target {l} steps away is reported as {res.value} steps away")
        elif res.value == "?":
            j.bad("layer", "overwritten", "the number of steps of the target may be overwritten")
        return
    if exc in ("NetworkXNoPath", "NoPath") and getattr(dom, "unfound", None) is not None and dom.target is None:
        s = dom.unfound
        if s.top:
            return unknown("answers not followed")
        rep.ob("reach", j.label)
        why = j.complete(ev, dict(s.gens), j.ways)
        if why:
            j.bad("reach", "incomplete", "no path is reported too early: " + why)
        return
    unknown("answers not followed")


def one(rep, repo, name, kind, args, what, ways, opts, rounds, limit):
    directed = kind == "d"
    if not directed:
        ways = ("any",)
    dom = Search(directed, rounds)
    ev = Mini(repo, dom)
    f = ev.module_name(ev.module("graphblas_algorithms.nxapi"), name)
    if isinstance(f, Unk):
        rep.unknown["functions not found"] = rep.unknown.get("functions not found", 0) + 1
        return
    shown = ["node" if a == S else "target" if a == "t" else "nodes" if a == SL else repr(a).split(" ")[0] for a in args] + [f"{k}={v}" for k, v in opts.items()]
    label = f"{name}({', '.join(['DiGraph' if directed else 'Graph'] + shown)})"
    where = [f"{f.mod.path.relative_to(ev.root)} {name}"] if isinstance(f, MFunc) else []

    def thunk():
        dom.reset()
        dom.unfound = None
        dom.chunk = opts.get("chunk")
        G = dom.graph(ev)
        a = [G] + [Node("s") if x == S else Node("t") if x == "t" else Nodes("s") if x == SL else x for x in args]
        try:
            exc, res = None, ev.call(f, a, {k: v for k, v in opts.items() if k != "chunk"}, None)
        except MRaise as e:
            exc, res = e.exc, None
        except TooDeep:
            rep.unknown["paths not decided"] = rep.unknown.get("paths not decided", 0) + 1
            return
        if ev.tainted:
            rep.unknown["paths not decided"] = rep.unknown.get("paths not decided", 0) + 1
            return
        judge(rep, ev, dom, label, where, what, ways, exc, res)

    for _ in ev.paths(thunk, limit=limit):
        pass
    if ev.truncated:
        rep.unknown["evaluations cut off"] = rep.unknown.get("evaluations cut off", 0) + 1
    rep.functions |= set(ev.funcs)


def run(rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    for name, kinds, args, what, ways, opts in TABLE:
        for kind in kinds:
            one(rep, rep.repo, name, kind, args, what, ways, opts, 4 if thorough else 3, 20000 if thorough else 4000)
    rep.floor("reach", 20)
    rep.floor("layer", 20)
