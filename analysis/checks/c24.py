"""C24: weighted searches relax every improved node until nothing improves; "unbounded" needs a negative cycle as evidence.

The Bellman-Ford functions are evaluated (nothing is executed) for one arbitrary node.  Its history is the list of what each
product `min_plus(frontier @ A)` offers it: nothing, something better than its best length so far, the same, or something
worse; vectors map histories to symbolic values (the initial 0, the k-th offer, truth values), so masks, comparisons and
assignments are followed exactly for every history at once.  Questions (is the frontier empty? did anything improve? how many
rounds?) split the analysis and rule histories out.  Where an answer is given, every history that is still possible must have
its best offer in the answer and must have passed it on to its neighbors; a negative cycle may be reported only if an offer
after n - 1 rounds was an improvement, or a negative self-edge was reached.
"""
from __future__ import annotations

import os

from ..mini import Abs, Ext, MFunc, MInst, Mini, MRaise, Prim, TooDeep, Unk
from .c22 import MaybeVal, Val, full
from .c23 import Answer, Id, Ids as Ids23, Lin, Map, Node, Nodes, Search

MAYBE = "??"  # an entry that may be there
SOME = "?"    # an entry with a value that is not followed
UNORD = "<?>"  # which of two lengths is smaller depends on the weights
Z = ("z",)    # the initial 0


class Vec(Abs):
    """Entries per history of the arbitrary node."""

    def __init__(self, dom, get=None, matrix=False):
        self.dom, self.matrix = dom, matrix
        self.depth = dom.depth
        self.map = {c: (get(c) if get else None) for c in dom.classes}
        self.special = None  # the negative self-edges were assigned to it

    def at(self, c):
        return self.map.get(c[: self.depth], MAYBE)

    def copy(self):
        r = Vec(self.dom, self.at, self.matrix)
        r.special = self.special
        return r

    def become(self, get):
        new = {c: get(c) for c in self.dom.classes}
        self.map, self.depth = new, self.dom.depth
        self.special = None

    # -- writing
    def update(self, ev, x, mask, accum, replace, bad, node):
        if isinstance(x, Pair):
            x = x.result(ev, None)
        if isinstance(x, NegDiag) and mask is None and accum is None and not bad:
            self.become(lambda c: MAYBE)
            self.special = x
            return
        known = isinstance(x, Vec) or isinstance(x, (int, float, bool, Id, Val))
        if bad or not known or mask is not None and not isinstance(mask.parent, Vec):
            return self.become(lambda c: MAYBE)
        d = self.dom
        old = self.copy()

        def get(c):
            e = x.at(c) if isinstance(x, Vec) else value(x)
            o = old.at(c)
            m = True if mask is None else mask.at(c)
            if m is None:
                if e == o:
                    return e
                return MAYBE
            if not m:
                return None if replace else o
            if accum is None:
                return e
            if e is None:
                return o
            if o is None:
                return e
            return d.binary(c, accum, o, e)

        self.become(get)

    def setitem(self, ev, key, val, node):
        if isinstance(key, Mask):
            return self.update(ev, val, key, None, False, False, node)
        if full(key):
            return self.update(ev, val, None, None, False, False, node)
        if isinstance(key, Id) and key.name != "t" and not self.dom.startall:
            return self.become(lambda c, old=self.copy(): value(val) if c[0] == "S" else old.at(c))
        if isinstance(key, tuple) and self.matrix and all(isinstance(k, (Ids, slice)) for k in key):
            return None if isinstance(val, Vec) and self.take(val) else self.become(lambda c: MAYBE)
        self.become(lambda c: MAYBE)

    def take(self, v):
        """M[ids, :] = rows of v in an otherwise empty matrix."""
        if any(self.at(c) is not None for c in self.dom.live()):
            return False
        self.become(v.at)
        return True

    def delitem(self, ev, key, node):
        if isinstance(key, Id) and key.name != "t":
            old = self.copy()
            self.become(lambda c: None if c[0] == "S" else old.at(c))
        else:
            self.become(lambda c: MAYBE)

    def call(self, ev, args, kwargs, node):
        return Target(self, args, kwargs)

    # -- reading
    def attr(self, ev, name, node):
        d = self.dom
        if name == "nvals":
            return Count(self.copy())
        if name == "nrows" and self.matrix and getattr(self, "rows", None) is not None:
            return self.rows
        if name in ("size", "nrows", "ncols"):
            return d.n
        if name in ("S", "V"):
            return Mask(self, name == "S")
        if name in ("dup", "new"):
            def dup(ev, a, k, n):
                if k.get("clear") is True:
                    return Vec(d, None, self.matrix)
                r = self.copy()
                if k.get("mask") is not None:
                    r = Vec(d, None, self.matrix)
                    Target(r, [], {"mask": k["mask"]}).binop(ev, "<<", self, False, n)
                return r
            return Prim(dup)
        if name == "clear":
            return Prim(lambda *a: self.become(lambda c: None))
        if name == "diag":
            def diag(ev, a, k, n):
                old = self.copy()
                return Vec(d, lambda c: old.at(c) if c[0] == "S" else None, True)
            return Prim(diag)
        if name == "get":
            return Prim(lambda ev, a, k, n: d.entry(ev, self, a[0] if a else None, a[1] if len(a) > 1 else k.get("default")))
        if name == "to_coo":
            def coo(ev, a, k, n):
                d.read(ev, self)
                return (Ids(self.copy()), Val())
            return Prim(coo)
        if name in ("reduce", "reduce_scalar"):
            return Prim(lambda ev, a, k, n: Any(self.copy()) if last(a[0] if a else None) in ("lor", "any") else Val())
        if name in ("ewise_mult", "ewise_add", "ewise_union"):
            return Prim(lambda ev, a, k, n: Pair(self, a[0], "&" if name == "ewise_mult" else "|").result(ev, last(a[1]) if len(a) > 1 else None))
        if name == "isequal":
            return Prim(lambda ev, a, k, n: d.same(ev, self, a[0]) if a and isinstance(a[0], Vec) else Val())
        if name in ("vxm", "mxm"):
            return Prim(lambda ev, a, k, n: Product(self, a[0], "out").result(ev, last(a[1]) if len(a) > 1 else None))
        if name == "select":
            return Prim(lambda ev, a, k, n: d.select(ev, {"<=": "valuele", "<": "valuelt"}.get(a[0], last(a[0])), self, a[1] if len(a) > 1 else None))
        if name == "apply":
            return Prim(lambda ev, a, k, n: Vec(d, lambda c: None if self.at(c) is None else True if last(a[0]) == "one" else self.at(c) if self.at(c) == MAYBE else SOME, self.matrix))
        if name in ("dtype", "name", "ss"):
            return Val()
        return Unk(name)

    def setattr(self, ev, name, val, node):
        pass

    def binop(self, ev, op, other, swapped, node):
        if op == "<<":
            if swapped:
                return Unk(op)
            self.update(ev, other, None, None, False, False, node)
            return Val()
        if op == "@":
            if isinstance(other, Adj):
                return Product(self, other, "in" if swapped else "out")
            if isinstance(other, Vec) and (self.special or other.special):
                return Reached(other.copy(), self.special) if self.special else Reached(self.copy(), other.special)
            if isinstance(other, NegDiag):
                return Reached(self.copy(), other)
            return Unk(op)
        if op in ("&", "|") and isinstance(other, (Vec, Edges)):
            return Pair(other, self, op) if swapped else Pair(self, other, op)
        if op in ("*", "/", "+", "-") and not isinstance(other, Vec):
            return self.copy()  # a change of units
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        nm = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}.get(op)
        if isinstance(other, Vec) and nm:
            return Pair(self, other, "&").result(ev, nm)
        return Unk(op)

    def contains(self, ev, item, node):
        return Val()

    def getitem(self, ev, key, node):
        if full(key):
            return self.copy()
        if isinstance(key, Id):
            return Entry(self, key)
        if isinstance(key, tuple) and len(key) == 2 and full(key[1]):
            return self.copy()
        return Unk("[]")

    def truth(self, ev, node):
        return Unk("bool").truth(ev, node)


def value(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float)):
        return Z if x == 0 else SOME
    if isinstance(x, Id):
        return ("id", x.name)
    return SOME


def last(op):
    return op.name.split(".")[-1] if isinstance(op, Ext) else op if isinstance(op, str) else None


class Mask(Abs):
    def __init__(self, parent, structure, comp=False):
        self.parent, self.structure, self.comp = parent, structure, comp

    def at(self, c):
        v = self.parent.at(c)
        if v == MAYBE:
            return None
        if v is None:
            r = False
        elif self.structure:
            r = True
        elif isinstance(v, bool):
            r = v
        elif v == Z:
            r = False
        else:
            return None
        return not r if self.comp else r

    def unop(self, ev, op, node):
        return Mask(self.parent, self.structure, not self.comp) if op == "~" else Unk(op)

    def attr(self, ev, name, node):
        return self.parent if name == "parent" else Unk(name)

    def compare(self, ev, op, other, swapped, node):
        return op in ("is not", "!=") if other is None else Val()

    def truth(self, ev, node):
        return True


class Target(Abs):
    def __init__(self, x, args, kwargs):
        self.x = x
        mask, accum, replace, bad = kwargs.get("mask"), kwargs.get("accum"), kwargs.get("replace", False), False
        for a in args:
            if isinstance(a, Mask):
                mask = a
            elif isinstance(a, Ext) and last(a) == "replace":
                replace = True
            elif isinstance(a, Ext):
                accum = a
            elif a is not None:
                bad = True
        if mask is not None and not isinstance(mask, Mask):
            bad = True
        self.mask, self.accum, self.replace, self.bad = mask, last(accum) if accum is not None else None, replace is True, bad

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            self.x.update(ev, other, self.mask, self.accum, self.replace, self.bad, node)
            return Val()
        return Unk(op)

    def setitem(self, ev, key, val, node):
        if full(key):
            self.x.update(ev, val, self.mask, self.accum, self.replace, self.bad, node)
        else:
            self.x.become(lambda c: MAYBE)


class Pair(Abs):
    """a & b or a | b, waiting for its operator."""

    def __init__(self, a, b, op):
        self.a, self.b, self.op = a, b, op

    def result(self, ev, name):
        a, b = self.a, self.b
        if isinstance(a, Edges) or isinstance(b, Edges):
            e, v, left = (a, b, False) if isinstance(a, Edges) else (b, a, True)
            return e.with_vec(v, left, name) if isinstance(v, Vec) and self.op == "&" else Unk("edges")
        if not isinstance(a, Vec) or not isinstance(b, Vec):
            return Unk("pair")
        d = a.dom
        name = name or ("plus" if self.op == "|" else "times")

        def get(c):
            x, y = a.at(c), b.at(c)
            if x is None and y is None:
                return None
            if x is None or y is None:
                if self.op == "|":
                    return y if x is None else x
                return None
            if x == MAYBE or y == MAYBE:
                return MAYBE
            return d.binary(c, name, x, y)

        return Vec(d, get, a.matrix)

    def attr(self, ev, name, node):
        if name == "new":
            return Prim(lambda ev, a, k, n: self.result(ev, None))
        return Unk(name)


class Product(Abs):
    """frontier @ A, waiting for its semiring."""

    def __init__(self, v, adj, way):
        self.v, self.adj = v, adj
        self.way = adj.way if way == "out" else {"out": "in", "in": "out"}.get(adj.way, adj.way)

    def result(self, ev, name):
        if name == "min_plus":
            return self.v.dom.product(ev, self.v, self.way, self.adj.off)
        return Unk("semiring")


class Adj(Abs):
    def __init__(self, dom, way, off):
        self.dom, self.way, self.off = dom, way, off

    def attr(self, ev, name, node):
        if name == "T":
            return Adj(self.dom, {"out": "in", "in": "out"}.get(self.way, self.way), self.off)
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        if name in ("nrows", "ncols"):
            return self.dom.n
        if name == "shape":
            return (self.dom.n, self.dom.n)
        if name == "nvals":
            return EdgeCount("all")
        if name in ("dtype", "name", "ss"):
            return Val()
        return Unk(name)

    def setattr(self, ev, name, val, node):
        pass

    def binop(self, ev, op, other, swapped, node):
        if op == "@" and isinstance(other, Vec):
            return Product(other, self, "out" if swapped else "in")
        return Unk(op)

    def getitem(self, ev, key, node):
        if isinstance(key, tuple) and len(key) == 2:
            r, c = key
            if isinstance(r, Ids) and isinstance(c, Ids):
                return Edges(self.dom, r.vec, c.vec, self.way, "edges") if isinstance(r.vec, Vec) and isinstance(c.vec, Vec) else Unk("[]")
            if isinstance(r, Id) and isinstance(c, Id):
                return SelfEdge(r.name == c.name)
            if isinstance(r, (Id, Ids)) and full(c) or full(r) and isinstance(c, (Id, Ids)):
                return Row(r if not full(r) else c)
        return Unk("[]")

    def compare(self, ev, op, other, swapped, node):
        return op in ("is not", "!=") if other is None else Val()

    def truth(self, ev, node):
        return True


class Row(Abs):
    def __init__(self, i):
        self.i = i

    def attr(self, ev, name, node):
        if name == "nvals":
            return EdgeCount("row")
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        return Unk(name)


class EdgeCount(Val):
    """The number of edges (at the source): some of it in a graph with only negative edges is evidence."""

    def __init__(self, what):
        self.what = what

    def compare(self, ev, op, other, swapped, node):
        if isinstance(other, int) and (op, other) in ((">", 0), ("!=", 0), (">=", 1)):
            return self.truth(ev, node)
        if isinstance(other, int) and (op, other) in (("==", 0), ("<=", 0), ("<", 1)):
            return not self.truth(ev, node)
        return Val()

    def truth(self, ev, node):
        r = ev.choose([False, True], ("edges", 0))
        if r:
            d = ev.domain
            if d.facts_about.get("iso") and d.facts_about.get("neg+") and not d.directed:
                d.evidence.append("edge")
        return r


class SelfEdge(Val):
    def __init__(self, same):
        self.same = same

    def attr(self, ev, name, node):
        if name in ("get", "new"):
            return Prim(lambda *a: self)
        if name == "value":
            return self
        return Val()

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            r = ev.choose([False, True], ("self edge", 0))
            d = ev.domain
            if r and self.same and d.facts_about.get("iso") and d.facts_about.get("neg+"):
                d.evidence.append("self edge")
            return r == (op in ("is not", "!="))
        if op in ("<", "<=") and other == 0 and not isinstance(other, bool):
            r = ev.choose([False, True], ("self edge", 1))
            if r and self.same and op == "<":
                ev.domain.evidence.append("self edge")
            return r
        return Val()


class Diag(Abs):
    """The self-edges."""

    def __init__(self, dom):
        self.dom = dom

    def attr(self, ev, name, node):
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        if name == "nvals":
            return Val()
        return Unk(name)

    def binop(self, ev, op, other, swapped, node):
        if op == "@" and isinstance(other, Vec):
            return Reached(other.copy(), None)
        return Unk(op)


class NegDiag(Abs):
    """The negative self-edges."""

    def __init__(self, dom, exact=True):
        self.dom, self.exact = dom, exact

    def attr(self, ev, name, node):
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        if name == "nvals":
            return Val()
        if name in ("S", "V"):
            return Unk(name)
        return Unk(name)

    def binop(self, ev, op, other, swapped, node):
        if op == "@" and isinstance(other, Vec):
            return Reached(other.copy(), self)
        return Unk(op)


class Reached(Abs):
    """Is there a negative self-edge at a node of the vector?"""

    def __init__(self, v, diag):
        self.v, self.diag = v, diag

    def attr(self, ev, name, node):
        if name in ("get", "new"):
            return Prim(lambda *a: self)
        if name in ("value", "nvals"):
            return self
        return Val()

    def truth(self, ev, node):
        d = ev.domain
        r = ev.choose([False, True], ("negative self-edge", 0))
        if r and self.diag is not None and self.diag.exact:
            d.evidence.append("negative self-edge")
        if not r and self.diag is not None:
            d.checked.append(self.v)
        return r

    def compare(self, ev, op, other, swapped, node):
        if other is None or isinstance(other, (int, bool)) and other == 0:
            return self.truth(ev, node) == (op in ("!=", "is not", ">"))
        return Val()


class Count(Abs):
    def __init__(self, v):
        self.v = v

    def truth(self, ev, node):
        return ev.domain.some(ev, self.v, lambda x: x is not None)

    def compare(self, ev, op, other, swapped, node):
        if isinstance(other, int) and not isinstance(other, bool):
            z = {("==", 0): True, ("!=", 0): False, (">", 0): False, ("<=", 0): True, ("<", 1): True, (">=", 1): False}.get((op, other))
            if z is not None:
                return self.truth(ev, node) != z
        return Val()

    def binop(self, ev, op, other, swapped, node):
        return Val()

    def attr(self, ev, name, node):
        return Val()


class Any(Abs):
    """The disjunction of a truth-valued vector."""

    def __init__(self, v):
        self.v = v

    def truth(self, ev, node):
        return ev.domain.some(ev, self.v, lambda x: x is True)

    def attr(self, ev, name, node):
        if name in ("get", "new"):
            return Prim(lambda *a: self)
        if name == "value":
            return self
        return Val()

    def compare(self, ev, op, other, swapped, node):
        if other is None or isinstance(other, (int, bool)):
            want = bool(other)
            return (self.truth(ev, node) == want) == (op in ("==", "is"))
        return Val()


class Entry(Val):
    def __init__(self, v, key):
        self.v, self.key = v, key

    def attr(self, ev, name, node):
        if name == "get":
            return Prim(lambda ev, a, k, n: ev.domain.entry(ev, self.v, self.key, a[0] if a else None))
        if name == "value":
            return ev.domain.entry(ev, self.v, self.key, None)
        return Val()


class Length(Val):
    """The length found for the target so far."""

    def __init__(self, v):
        self.v = v

    def truth(self, ev, node):
        vals = {self.v.at(c) for c in ev.domain.live()} - {None}
        if vals <= {True, False}:
            return ev.choose(sorted(vals), ("entry", 0)) if vals else False
        return super().truth(ev, node)


class Ids(Ids23):
    def __init__(self, vec):
        self.vec = vec
        self.s = None

    def attr(self, ev, name, node):
        if name in ("tolist", "copy", "astype"):
            return Prim(lambda *a: Ids(self.vec))
        if name in ("append", "extend", "insert", "pop", "clear", "remove"):
            def changed(ev, a, k, n):
                self.vec = None
                return Val()
            return Prim(changed)
        return Val()

    def length(self, ev, node):
        return Lin({"k": 1}, 0)

    def getitem(self, ev, key, node):
        return self if full(key) else Val()


class Edges(Abs):
    """Part of the adjacency matrix, on its way to telling which frontier node made the best offer."""

    def __init__(self, dom, rows, cols, way, stage, extra=None):
        self.dom, self.rows, self.cols, self.way, self.stage, self.extra = dom, rows, cols, way, stage, extra or {}

    def but(self, stage, **kw):
        return Edges(self.dom, self.rows, self.cols, self.way, stage, {**self.extra, **kw})

    def with_vec(self, v, left, name):
        if self.stage == "edges" and left and name == "plus":
            return self.but("sums", by=v.copy())
        if self.stage == "sums" and not left and name in ("iseq", "eq", "isequal"):
            return self.but("hits", best=v.copy())
        return Unk("edges")

    def attr(self, ev, name, node):
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        if name in ("reduce_columnwise", "reduce_rowwise") and self.stage in ("rows", "cols"):
            x, good = self.extra, (self.stage == "rows") == (name == "reduce_columnwise") and self.stage == "rows"
            if self.stage == "cols" and name == "reduce_rowwise":
                return Unk(name)

            def red(ev, a, k, n):
                ok = self.way in ("out", "any")

                def get(c):
                    b, col = x["best"].at(c), self.cols.at(c)
                    if b is None or col is None:
                        return None
                    if b == MAYBE or col == MAYBE:
                        return MAYBE
                    if not good:
                        return ("bad", "its parent is not the node whose edge was followed")
                    if ok and isinstance(b, tuple) and b[0] == "c":
                        f = self.dom.products[b[1]][1]
                        for q in self.dom.live():
                            have, row = x["by"].at(q), self.rows.at(q)
                            if MAYBE in (have, row) or have == SOME or f.at(q) in (MAYBE, SOME):
                                return SOME
                            if row is not None and have is not None and f.at(q) is not None and self.dom.order(q, have, f.at(q)) == "<":
                                return SOME  # it will offer something better in the next round
                            if f.at(q) is not None and (row is None or have is None) or row is not None and have is not None and f.at(q) != have:
                                return ("bad", "its parent is looked for with other lengths than those passed on")
                        return ("p", b[1])
                    return SOME
                return Vec(self.dom, get)
            return Prim(red)
        return Unk(name)


class Work(Abs):
    """A matrix that holds parts of the adjacency matrix."""

    def __init__(self, dom):
        self.dom, self.x, self.clean = dom, None, True

    def setitem(self, ev, key, val, node):
        if isinstance(val, Edges) and isinstance(key, tuple) and len(key) == 2 and all(isinstance(k, Ids) for k in key) and self.clean:
            self.x, self.clean = val, False
        elif isinstance(val, Vec) and isinstance(key, tuple) and self.clean:
            self.x, self.clean = val, False
        else:
            self.x = Unk("work")

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            if isinstance(other, Pair):
                other = other.result(ev, None)
            self.x = other
            self.clean = False
            return Val()
        if op in ("&", "|"):
            x = self.x if self.x is not None else Unk("work")
            return Pair(other, x, op) if swapped else Pair(x, other, op)
        return Unk(op)

    def attr(self, ev, name, node):
        if name == "clear":
            def clear(*a):
                self.x, self.clean = None, True
            return Prim(clear)
        if name in ("nrows", "ncols"):
            return self.dom.n
        if name in ("dtype", "name"):
            return Val()
        if isinstance(self.x, Abs):
            return self.x.attr(ev, name, node)
        return Unk(name)

    def setattr(self, ev, name, val, node):
        pass

    def call(self, ev, args, kwargs, node):
        self.x = Unk("work")
        return Unk("work")


class Pairs(Answer):
    def attr(self, ev, name, node):
        if name == "items" and self.kind == "NodeNodeMap" and self.x.matrix:
            return Prim(lambda *a: [(Node("every node"), Answer("NodeMap", self.x))])
        return super().attr(ev, name, node)


class Relax(Search):
    startall = False

    def reset(self):
        super().reset()
        self.classes = [("S",), (".",)]
        self.depth = 1
        self.dead = set()
        self.products = []    # (event, frontier, way)
        self.drops = {}       # event -> (vector values, legitimate)
        self.evidence = []
        self.checked = []
        self.facts_about = {}
        self.off = False      # self-edges left out of products
        self.bfs = False
        self.reads = []
        self.startall = False
        self.improved = []    # "some node improved" claims: smallest product they are about

    # -- histories
    def possible(self, c):
        return not any(c[:i] in self.dead for i in range(1, len(c) + 1))

    def live(self):
        return [c for c in self.classes if self.possible(c)]

    def extend(self, outcomes):
        self.classes = [c + (o,) for c in self.live() for o in outcomes(c)]
        self.depth += 1
        if len(self.classes) > 3000:
            raise TooDeep("histories")

    def chain(self, c, upto=None):
        """[best values so far, each better than the one before], {offer: place}."""
        chain = [Z] if c[0] == "S" else []
        place = {Z: (0, "=")} if chain else {}
        for k, (e, _, _) in enumerate(self.products):
            if e >= len(c) or upto is not None and k >= upto:
                break
            out = c[e]
            if self.dropped(c, k):
                continue
            if out == "<":
                chain.append(("c", k))
                place[("c", k)] = (len(chain) - 1, "=")
            elif out == "=":
                place[("c", k)] = (len(chain) - 1, "=")
            elif out == ">":
                place[("c", k)] = (len(chain) - 1, "+")
        return chain, place

    def dropped(self, c, k):
        """The k-th offer was dropped for being beyond a limit, rightly."""
        return any(e < len(c) and c[e] == "d" and ok and v.at(c) == ("c", k) for e, (v, ok) in self.drops.items())

    def order(self, c, a, b):
        chain, place = self.chain(c)
        if a == b:
            return "="
        x, y = place.get(a), place.get(b)
        if x is None or y is None:
            return None
        if x[1] == "=" and y[1] == "=":
            return "=" if x[0] == y[0] else "<" if x[0] > y[0] else ">"
        if x[1] == "+" and y[1] == "=":
            return ">" if y[0] >= x[0] else None
        if x[1] == "=" and y[1] == "+":
            return "<" if x[0] >= y[0] else None
        return None

    def binary(self, c, op, x, y):
        if x == MAYBE or y == MAYBE:
            return MAYBE
        if op in ("second", "any"):
            return y
        if op == "first":
            return x
        if op in ("lor", "land") and isinstance(x, bool) and isinstance(y, bool):
            return (x or y) if op == "lor" else (x and y)
        if op in ("pair", "oneb"):
            return True
        o = self.order(c, x, y)
        if o is None:
            known = all(isinstance(z, tuple) and z[0] in "zc" for z in (x, y))
            return UNORD if known and op in ("lt", "le", "gt", "ge", "islt", "isle", "isgt", "isge") else SOME
        if op in ("min", "max"):
            return x if (o in "<=") == (op == "min") else y
        if op in ("lt", "islt"):
            return o == "<"
        if op in ("le", "isle"):
            return o in "<="
        if op in ("gt", "isgt"):
            return o == ">"
        if op in ("ge", "isge"):
            return o in ">="
        if op in ("eq", "iseq"):
            return o == "="
        if op in ("ne", "isne"):
            return o != "="
        return SOME

    def product(self, ev, v, way, off):
        frontier = v.copy()
        if any(frontier.at(c) == MAYBE for c in self.live()):
            ev.tainted = True
        any_ = any(frontier.at(c) is not None for c in self.live())
        k = len(self.products)
        self.off = self.off or off
        late = self.proved(Lin({"n": -1}, k + 1))  # every node that can be reached was reached in n - 1 rounds

        def outcomes(c):
            if not any_ or self.startall and c[0] == ".":
                return ["-"]
            chain, _ = self.chain(c)
            if late and not chain:
                return ["-"]
            return ["-", "<", "=", ">"] if chain else ["-", "<"]

        e = self.depth
        self.extend(outcomes)
        self.products.append((e, frontier, way))
        return Vec(self, lambda c: None if c[e] == "-" else ("c", k), v.matrix)

    def select(self, ev, op, v, limit):
        if isinstance(v, Work):
            v = v.x
        if isinstance(v, Edges):
            if v.stage == "hits" and (op == "valuene" and limit is False or op == "valueeq" and limit is True):
                return v.but("picked")
            return Unk("select")
        if isinstance(v, Diag):
            if op == "valuelt" and limit == 0:
                return NegDiag(self)
            if op in ("valuele", "valuene") and limit == 0:
                return NegDiag(self, False)
            return Unk("select")
        if not isinstance(v, Vec):
            return Unk("select")
        if isinstance(limit, bool) and op in ("valuene", "valueeq"):
            want = limit == (op == "valueeq")
            return Vec(self, lambda c: v.at(c) if isinstance(v.at(c), bool) and v.at(c) == want else None if v.at(c) is None or isinstance(v.at(c), bool) else MAYBE, v.matrix)
        if op in ("valuele", "valuelt") and isinstance(limit, (Length, Lin)):
            if isinstance(limit, Length):
                legit = self.facts_about.get("neg-") is False and self.facts_about.get("negdiag") is False or self.facts_about.get("neg+") is False
            else:
                legit = op == "valuele"
            e = self.depth
            src = v.copy()
            self.extend(lambda c: ["-"] if src.at(c) is None else ["k", "d"])
            self.drops[e] = (src, legit)
            return Vec(self, lambda c: None if c[e] in "-d" else src.at(c), v.matrix)
        return Unk("select")

    def some(self, ev, v, test):
        live = self.live()
        if any(v.at(c) == MAYBE or v.at(c) == SOME and test(True) and not test(False) for c in live):
            ev.tainted = True
            return ev.choose([False, True], ("some", 0))
        yes = [c for c in live if test(v.at(c))]
        depends = [c for c in live if v.at(c) == UNORD and c not in yes]
        if not yes and not depends:
            return False
        if yes and not self.startall and all(c in yes for c in live if c[0] == "S"):
            return True
        r = ev.choose([False, True], ("some", 0))
        if not r:
            self.dead |= set(yes)
        else:
            self.note_improved(yes + depends)
        return r

    def note_improved(self, yes):
        ks = []
        for c in yes:
            k = max([k for k, (e, _, _) in enumerate(self.products) if e < len(c) and c[e] == "<"], default=None)
            if k is None:
                return
            ks.append(k)
        self.improved.append(min(ks))

    def same(self, ev, a, b):
        live = self.live()
        diff = []
        for c in live:
            x, y = a.at(c), b.at(c)
            if x == y:
                if x in (MAYBE, SOME):
                    ev.tainted = True
                continue
            if x is None or y is None:
                diff.append(c)
                continue
            o = self.order(c, x, y)
            if o is None:
                ev.tainted = True
            elif o != "=":
                diff.append(c)
        if not diff:
            return True
        r = ev.choose([True, False], ("same", 0))
        if r:
            self.dead |= set(diff)
        else:
            self.note_improved(diff)
        return r

    def entry(self, ev, v, idx, default):
        if not isinstance(idx, Id):
            return MaybeVal()
        if idx.name != "t" and not self.startall:
            vals = {v.at(c) for c in self.live() if c[0] == "S"}
            if vals == {None}:
                return default
            return Length(v.copy()) if None not in vals else MaybeVal()
        present = any(v.at(c) is not None for c in self.live())
        absent = any(v.at(c) in (None, MAYBE) for c in self.live())
        opts = ([True] if present else []) + ([False] if absent else [])
        r = ev.choose(opts or [False], ("entry", 0))
        self.last_entry = v.copy()
        return Length(v.copy()) if r else default

    def read(self, ev, v):
        vals = {v.at(c) for c in self.live()}
        if any(isinstance(x, tuple) and x[0] == "p" for x in vals) or ("id", "s") in vals:
            self.reads.append((v.copy(), len(self.products)))
            self.on_parents(ev, v)

    def on_parents(self, ev, v):
        pass

    # -- the graph
    def graph(self, ev):
        g = super().graph(ev)
        if isinstance(g, MInst):
            A = Adj(self, "out" if self.directed else "any", False)
            g.attrs["_A"] = g.attrs["matrix"] = A
        return g

    def about(self, ev, key):
        f = self.facts_about
        if key not in f:
            opts = [False, True]
            if key == "neg+":
                if f.get("neg-") or f.get("negdiag"):
                    opts = [True]
                elif f.get("neg-") is False and f.get("negdiag") is False:
                    opts = [False]
            elif f.get("neg+") is False:
                opts = [False]
            elif f.get("neg+") and f.get("negdiag" if key == "neg-" else "neg-") is False:
                opts = [True]
            f[key] = ev.choose(opts, key)
        return f[key]

    def prop(self, ev, name):
        way = "out" if self.directed else "any"
        if name == "is_iso":
            return self.about(ev, "iso")
        if name == "has_negative_diagonal":
            return self.about(ev, "negdiag")
        if name == "has_negative_edges-":
            return self.about(ev, "neg-")
        if name == "has_negative_edges+":
            return self.about(ev, "neg+")
        if name == "offdiag":
            return Adj(self, way, True)
        if name in ("A", "AT"):
            r = Adj(self, way, False)
            return r if name == "A" else r.attr(ev, "T", None)
        if name == "diag":
            return Diag(self)
        if name.rstrip("+-") in ("degrees", "total_degrees", "row_degrees", "column_degrees"):
            if name.rstrip("+-") in ("degrees", "row_degrees") and self.directed or name.rstrip("+-") == "column_degrees" and self.directed:
                return Unk(name)
            return Vec(self, lambda c: SOME if c[0] == "S" else None)
        return super().prop(ev, name)

    def intercept(self, ev, f, args, kwargs, node):
        if f.name.startswith("_bfs"):
            self.bfs = True  # unit weights: C23
            raise TooDeep("bfs")
        if f.name == "list_to_ids":
            return (Ids(None),)
        if f.name == "get_property" and kwargs.get("mask") is not None:
            return (Unk("masked property"),)
        return super().intercept(ev, f, args, kwargs, node)

    def instantiate(self, ev, cls, args, kwargs, node):
        if cls.name in ("Graph", "DiGraph"):
            x = args[0] if args else None
            return Answer("Graph", x.rows if isinstance(x, Edges) and x.stage == "edges" and x.rows is x.cols else Unk("graph"))
        r = super().instantiate(ev, cls, args, kwargs, node)
        return Pairs(r.kind, r.x, r.fill) if isinstance(r, Answer) and isinstance(r.x, Vec) else r

    def ext_call(self, ev, name, args, kwargs, node):
        parts = name.split(".")
        lst = parts[-1]
        if parts[0] != "graphblas":
            return super().ext_call(ev, name, args, kwargs, node)
        if lst in ("Vector", "Matrix"):
            if lst == "Matrix":
                dims = [a for a in list(args[1:]) + [kwargs.get("nrows"), kwargs.get("ncols")] if a is not None]
                if self.products == [] and not self.work_matrix(args, kwargs):
                    return Vec(self, None, True)
                return Work(self) if len(dims) == 2 and all(isinstance(x, Lin) and x.key() == self.n.key() for x in dims) and self.single else Vec(self, None, True)
            return Vec(self)
        if len(parts) >= 2 and parts[-2] in ("Vector", "Matrix"):
            m = parts[-2] == "Matrix"
            if lst == "from_coo":
                ids = [a for a in args if isinstance(a, Ids)]
                vals = args[2 if m else 1] if len(args) > (2 if m else 1) else kwargs.get("values")
                if ids or args and isinstance(args[0], list) and len(args[0]) == 1 and isinstance(args[0][0], Id):
                    r = Vec(self, lambda c: value(vals) if c[0] == "S" else None, m)
                    r.rows = kwargs.get("nrows")
                    return r
            if lst == "from_scalar" and args:
                return Vec(self, lambda c: value(args[0]), m)
            return Vec(self, lambda c: MAYBE, m)
        x = args[0] if args else None
        if isinstance(x, Work):
            x = x.x
        if isinstance(x, Reached):
            return x
        if isinstance(x, Product):
            return x.result(ev, lst) if "semiring" in parts else Unk(name)
        if isinstance(x, Pair):
            return x.result(ev, lst)
        if "select" in parts:
            return self.select(ev, lst, args[0], args[1] if len(args) > 1 else kwargs.get("thunk"))
        if isinstance(x, Edges):
            return x.but({"rowindex": "rows", "colindex": "cols"}[lst]) if lst in ("rowindex", "colindex") and x.stage == "picked" else Unk(name)
        if isinstance(x, Vec) and len(args) == 1:
            if "unary" in parts:
                if lst == "one":
                    return Vec(self, lambda c: x.at(c) if x.at(c) in (None, MAYBE) else True, x.matrix)
                if lst in ("identity", "lnot"):
                    return x.copy() if lst == "identity" else Vec(self, lambda c: (not x.at(c)) if isinstance(x.at(c), bool) else x.at(c), x.matrix)
                return Vec(self, lambda c: x.at(c) if x.at(c) in (None, MAYBE) else SOME, x.matrix)
        return Unk(name)

    single = True

    def work_matrix(self, args, kwargs):
        return self.single

    def isinstance(self, ev, v, t, node):
        return None


S = "s"
CUT = Lin({"cutoff": 1}, 0)
TABLE = [
    ("single_source_bellman_ford_path_length", [S], "lengths", {}),
    ("bellman_ford_path_length", [S, "t"], "length", {}),
    ("bellman_ford_path", [S, "t"], "path", {}),
    ("all_pairs_bellman_ford_path_length", [], "pairs", {"chunk": None}),
    ("all_pairs_bellman_ford_path_length", [], "pairs", {"chunk": 1}),
    ("all_pairs_bellman_ford_path_length", [], "pairs", {"chunk": 5}),
    ("negative_edge_cycle", [], "cycle", {}),
    ("ego_graph", [S, CUT], "graph", {"distance": "weight"}),
]


class Judge:
    cycle = False  # a cycle may be looked for in either direction

    def __init__(self, rep, dom, label, where):
        self.rep, self.dom, self.label, self.where = rep, dom, label, where

    def bad(self, rule, what, msg):
        self.rep.viol(rule, f"{self.label}: {what}", msg, self.where)

    def done(self, d, lengths=True):
        """Every possible history has its best offer in `d`, and has passed it on."""
        dom = self.dom
        self.rep.ob("relaxed", self.label)
        ways = {w for _, _, w in dom.products}
        want = {"out"} if dom.directed else {"any"}
        if not ways <= want and not (self.cycle and len(ways) == 1):
            return self.bad("direction", "direction", f"edges are followed {sorted(ways - want)}")
        if self.exhausted() and dom.facts_about.get("neg-") is False:
            k = len(dom.products) - 1  # n - 1 rounds are enough

            def passed(c, best):
                return best == ("c", k) or self.passed(c, best)
        else:
            passed = self.passed
        for c in dom.live():
            chain, place = dom.chain(c)
            best = chain[-1] if chain else None
            if d is not None:
                v = d.at(c)
                if v in (MAYBE, SOME):
                    self.rep.unknown["value not followed"] = self.rep.unknown.get("value not followed", 0) + 1
                    return
                if v != best and not (v is not None and best is not None and dom.order(c, v, best) == "="):
                    if best is None:
                        return self.bad("relaxed", "phantom", f"a node that was not reached has a length ({c})")
                    if os.environ.get("VERIF_DEBUG"):
                        print("missed", c, v, best, dom.facts_about, [(r, str(t)) for r, t, _ in dom.ended], dom.drops.keys())
                    return self.bad("relaxed", "missed", "the best length offered to a node is not in the answer")
            if best is not None and not passed(c, best):
                return self.bad("relaxed", "stopped", "the search may stop before a node has passed its best length on to its neighbors")
        if dom.off and self.diag_matters() and not any(all(v.at(c) is not None for c in dom.live() if dom.chain(c)[0]) for v in dom.checked):
            self.bad("unbounded", "self-edges", "negative self-edges of reached nodes are not looked for")

    def diag_matters(self):
        f = self.dom.facts_about
        return f.get("negdiag") is not False and f.get("neg+") is not False

    def passed(self, c, best):
        dom = self.dom
        for e, f, _ in dom.products:
            v = f.at(c)
            if v == best or v is not None and v != MAYBE and v != SOME and dom.order(c, v, best) == "=":
                return True
        return False

    def exhausted(self):
        dom = self.dom
        return any(dom.proved(total_minus(r, total, step)) for r, total, step in dom.ended if total.terms == {"n": 1} and total.c >= -1)

    def unbounded(self):
        dom = self.dom
        self.rep.ob("unbounded", self.label)
        if dom.evidence:
            return
        for k in dom.improved:
            if dom.proved(Lin({"n": -1}, k + 1)):
                return
        if dom.products and any(any(f.at(c) == SOME for c in dom.live()) for _, f, _ in dom.products):
            return
        self.bad("unbounded", "no evidence", "a negative cycle is reported without one having been found")


def total_minus(r, total, step):
    """r * step - total >= 0."""
    return Lin({k: -v for k, v in total.terms.items()}, r * step - total.c)


def vec_of(res):
    if isinstance(res, Answer) and isinstance(res.x, Vec) and res.fill is None:
        return res.x
    return None


def judge(rep, ev, dom, label, where, what, exc, res):
    def unknown(k):
        rep.unknown[k] = rep.unknown.get(k, 0) + 1
    j = Judge(rep, dom, label, where)
    if exc is not None and "Unbounded" in str(exc):
        return j.unbounded()
    if what == "cycle":
        if exc is not None or isinstance(res, Abs) or res not in (True, False):
            return unknown("answers not followed")
        if res is True:
            if dom.facts_about.get("negdiag") and not dom.products:
                rep.ob("unbounded", label)
                return
            return j.unbounded()
        f = dom.facts_about
        if not dom.products:
            rep.ob("relaxed", label)
            if f.get("neg+") is False or f.get("neg-") is False and f.get("negdiag") is False:
                return
            return j.bad("relaxed", "stopped", "no negative cycle is reported without a search")
        for c in dom.live():
            if c[0] == "S" and not any(fr.at(c) is not None for _, fr, _ in dom.products[:1]):
                return j.bad("relaxed", "start", "the search does not begin at every node that has edges")
        j.cycle = True
        return j.done(None)
    if what == "length" and exc in ("NetworkXNoPath", "NoPath"):
        v = getattr(dom, "last_entry", None)
        return j.done(v) if v is not None else unknown("answers not followed")
    if exc is not None:
        return unknown("paths ending in an exception")
    if what == "lengths":
        v = vec_of(res)
        return j.done(v) if v is not None else unknown("answers not followed")
    if what == "length":
        if isinstance(res, Length):
            return j.done(res.v)
        return unknown("answers not followed")
    if what == "pairs":
        if not isinstance(res, list) or not res:
            return unknown("answers not followed")
        for x in res:
            v = vec_of(x[1]) if isinstance(x, tuple) and len(x) == 2 else None
            if v is None:
                unknown("answers not followed")
            else:
                j.done(v)
        return
    if what == "graph":
        v = res.x if isinstance(res, Answer) else None
        return j.done(v) if isinstance(v, Vec) else unknown("answers not followed")
    return unknown("answers not followed")


def judge_parents(rep, ev, dom, j, p):
    """The parents are about to be read: the search must be complete and each node have the parent of its best offer."""
    if ev.tainted:
        return
    j.done(None)
    rep.ob("parents", j.label)
    for c in dom.live():
        chain, place = dom.chain(c)
        if not chain:
            if p.at(c) is not None and p.at(c) not in (MAYBE, SOME):
                return j.bad("parents", "phantom", "a node that was not reached has a parent")
            continue
        v, best = p.at(c), chain[-1]
        if v in (MAYBE, SOME):
            rep.unknown["parent not followed"] = rep.unknown.get("parent not followed", 0) + 1
            return
        if v[0] == "bad" if isinstance(v, tuple) else False:
            return j.bad("parents", "wrong", f"a node was reached, but {v[1]}")
        if v is None:
            return j.bad("parents", "missing", "a node that was reached has no parent")
        if best == Z:
            if v[0] != "id" and not (v[0] == "p" and dom.order(c, ("c", v[1]), Z) == "="):
                return j.bad("parents", "source", "the source has a parent although nothing better was found")
            continue
        if v[0] != "p" or dom.order(c, ("c", v[1]), best) != "=":
            return j.bad("parents", "stale", "a node has the parent of a longer way")
        if ("c", v[1]) != best:
            return j.bad("parents", "tie", "a node takes the parent of a later way of the same length: along edges of weight 0, parents can go round in circles")


def one(rep, repo, name, directed, args, what, opts, rounds, limit):
    dom = Relax(directed, rounds)
    ev = Mini(repo, dom)
    f = ev.module_name(ev.module("graphblas_algorithms.nxapi"), name)
    if isinstance(f, Unk):
        rep.unknown["functions not found"] = rep.unknown.get("functions not found", 0) + 1
        return
    shown = ["node" if a == S else "target" if a == "t" else repr(a).split(" ")[0] for a in args] + [f"{k}={v}" for k, v in opts.items()]
    label = f"{name}({', '.join(['DiGraph' if directed else 'Graph'] + shown)})"
    where = [f"{f.mod.path.relative_to(ev.root)} {name}"] if isinstance(f, MFunc) else []
    dom.single = what in ("path", "length", "lengths")
    if what == "path":
        j = Judge(rep, dom, label, where)
        dom.on_parents = lambda ev, v: judge_parents(rep, ev, dom, j, v)

    def thunk():
        dom.reset()
        dom.startall = what == "cycle"
        dom.last_entry = None
        dom.chunk = opts.get("chunk")
        G = dom.graph(ev)
        a = [G] + [Node("s") if x == S else Node("t") if x == "t" else x for x in args]
        try:
            exc, res = None, ev.call(f, a, {k: v for k, v in opts.items() if k != "chunk"}, None)
        except MRaise as e:
            exc, res = e.exc, None
        except TooDeep:
            k = "unit weights (C23)" if dom.bfs else "paths not decided"
            rep.unknown[k] = rep.unknown.get(k, 0) + 1
            return
        if ev.tainted:
            if what != "path" or not dom.reads:
                rep.unknown["paths not decided"] = rep.unknown.get("paths not decided", 0) + 1
            return
        judge(rep, ev, dom, label, where, what, exc, res)

    for _ in ev.paths(thunk, limit=limit):
        pass
    if ev.truncated:
        rep.unknown["evaluations cut off"] = rep.unknown.get("evaluations cut off", 0) + 1
    rep.functions |= set(ev.funcs)


def run(rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    for name, args, what, opts in TABLE:
        for directed in (True, False):
            one(rep, rep.repo, name, directed, args, what, opts, 4 if thorough else 3, 20000 if thorough else 6000)
    rep.floor("relaxed", 20)
    rep.floor("unbounded", 10)
