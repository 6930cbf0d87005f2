"""C22: per-node answers cover every requested node.

The nxapi functions with per-node answers, the algorithms behind them and the converting helpers are evaluated (nothing
is executed) in a presence domain.  Nodes are abstracted to classes (isolated, sink, source, self-loop only, regular; each
requested or not); a vector is the set of classes for which it surely has, surely lacks, or may have entries, a matrix the
same for its rows and columns; numbers are not followed.  Every path is evaluated, and the keys of each returned map are
compared with the requested nodes.
"""
from __future__ import annotations

import os

from . import c22b
from ..mini import Abs, Domain, Ext, MBound, MClass, MFunc, MInst, Mini, MRaise, Prim, TooDeep, Unk

T, F, N_ = True, False, None


def and3(a, b):
    if a is F or b is F:
        return F
    if a is T and b is T:
        return T
    return None


def or3(a, b):
    if a is T or b is T:
        return T
    if a is F and b is F:
        return F
    return None


def not3(a):
    return None if a is None else not a


def join3(a, b):
    return a if a is b else None


class Val(Abs):
    """A number (or dtype, name, ...) that is not followed; comparing it gives both answers, both possible."""

    def attr(self, ev, name, node):
        return Val()

    def call(self, ev, args, kwargs, node):
        return Val()

    def binop(self, ev, op, other, swapped, node):
        if isinstance(other, (Vec, Mat, Unk)):
            return Unk(op)  # the other operand answers
        return Val()

    def unop(self, ev, op, node):
        return Val()

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        if isinstance(other, (Vec, Mat, Cnt)):
            return Unk(op)
        return Val()

    def contains(self, ev, item, node):
        return Val()

    def getitem(self, ev, key, node):
        return Val()

    def truth(self, ev, node):
        return ev.choose([True, False], ("value", getattr(node, "lineno", 0)))

    def __repr__(self):
        return "value"


class MaybeVal(Val):
    """A value or None."""

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return ev.choose([True, False], ("absent", getattr(node, "lineno", 0)))
        return super().compare(ev, op, other, swapped, node)


class Key(Abs):
    def __init__(self, e):
        self.e = e

    def compare(self, ev, op, other, swapped, node):
        if op in ("==", "!=", "is", "is not"):
            return (isinstance(other, Key) and other.e == self.e) == (op in ("==", "is"))
        return Val()

    def truth(self, ev, node):
        return Val().truth(ev, node)

    def __eq__(self, o):
        return isinstance(o, Key) and o.e == self.e

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return f"node {self.e}"


class Id(Val):
    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Id) and o.e == self.e

    def __hash__(self):
        return hash(("id", self.e))

    def attr(self, ev, name, node):
        if name in ("item", "tolist"):
            return Prim(lambda *a: self)
        return Val()


class Cnt(Abs):
    """The number of classes' nodes in a set with the given presence."""

    def __init__(self, dom, pres):
        self.dom, self.pres = dom, dict(pres)

    def compare(self, ev, op, other, swapped, node):
        if isinstance(other, Cnt):
            a, b = self.pres, other.pres
            lt = any(a[e] is F and b[e] is T for e in a) and all(a[e] is F or b[e] is T for e in a)
            gt = any(b[e] is F and a[e] is T for e in a) and all(b[e] is F or a[e] is T for e in a)
            eq = all(a[e] is b[e] and a[e] is not None for e in a)
            le = all(a[e] is F or b[e] is T for e in a)
            ge = all(b[e] is F or a[e] is T for e in a)
            r = {"<": T if lt else F if ge else None, ">": T if gt else F if le else None, "<=": T if le else F if gt else None,
                 ">=": T if ge else F if lt else None, "==": T if eq else F if lt or gt else None, "!=": F if eq else T if lt or gt else None}.get(op)
            return Val() if r is None else r
        if isinstance(other, int):
            lo = sum(1 for p in self.pres.values() if p is T)
            hi = 0 if all(p is F for p in self.pres.values()) else 10**9
            k = other
            r = {"<": T if hi < k else F if lo >= k else None, ">": T if lo > k else F if hi <= k else None, "<=": T if hi <= k else F if lo > k else None,
                 ">=": T if lo >= k else F if hi < k else None, "==": T if lo == hi == k else F if lo > k or hi < k else None, "!=": F if lo == hi == k else T if lo > k or hi < k else None}.get(op)
            return Val() if r is None else r
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        return Val()

    def binop(self, ev, op, other, swapped, node):
        if isinstance(other, (Vec, Mat)):
            return Unk(op)
        if isinstance(other, int) and other == 0 and op in ("+", "-") and not swapped:
            return self
        return Val()

    def unop(self, ev, op, node):
        return Val()

    def truth(self, ev, node):
        r = self.compare(ev, "!=", 0, False, node)
        return r if isinstance(r, bool) else r.truth(ev, node)

    def attr(self, ev, name, node):
        return Val()


class Mask(Abs):
    def __init__(self, parent, structure=True, comp=False):
        self.parent, self.structure, self.comp = parent, structure, comp

    def attr(self, ev, name, node):
        if name == "parent":
            return self.parent
        if name == "structure":
            return self.structure
        if name == "value":
            return not self.structure
        if name == "complement":
            return self.comp
        if name in ("new", "to_vector", "dup"):
            return Prim(lambda ev, a, k, n: Vec(self.parent.dom, {e: self.at(e) for e in self.parent.pres}) if isinstance(self.parent, Vec) else Val())
        return Val()

    def base(self, p, truthy):
        p = p if self.structure or truthy else and3(p, None)
        return not3(p) if self.comp else p

    def at(self, e):
        return self.base(self.parent.pres[e], self.parent.truthy)

    def row(self, e):
        p = self.parent
        if self.comp:  # the row has a place that is not in the mask
            return None
        return p.row[e] if self.structure else and3(p.row[e], None)

    def col(self, e):
        p = self.parent
        if self.comp:
            return None
        return p.col[e] if self.structure else and3(p.col[e], None)

    def unop(self, ev, op, node):
        if op == "~":
            return Mask(self.parent, self.structure, not self.comp)
        return Unk(op)

    def binop(self, ev, op, other, swapped, node):
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if other is None:
            return op in ("is not", "!=")
        return Val()

    def truth(self, ev, node):
        return True


def split(args, kwargs):
    """mask, accum, replace of x(...)."""
    mask = kwargs.get("mask")
    accum = kwargs.get("accum")
    replace = kwargs.get("replace", False)
    unclear = False
    for a in args:
        if isinstance(a, Mask):
            mask = a
        elif isinstance(a, Ext) and a.name.split(".")[-1] == "replace":
            replace = True
        elif isinstance(a, Ext):
            accum = a
        elif a is None:
            pass
        else:
            unclear = True
    if isinstance(mask, Unk) or mask is not None and not isinstance(mask, Mask):
        unclear = True
    if isinstance(replace, Abs) and not isinstance(replace, Ext):
        unclear = True
    return mask, accum, bool(replace) if not isinstance(replace, Abs) else True, unclear


class Target(Abs):
    """x(mask, accum, replace), waiting for `<<` or `[...] =`."""

    def __init__(self, x, mask, accum, replace, unclear):
        self.x, self.mask, self.accum, self.replace, self.unclear = x, mask, accum, replace, unclear

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            self.x.update(ev, other, self.mask, self.accum, self.replace, self.unclear, node)
            return Val()
        return Unk(op)

    def setitem(self, ev, key, value, node):
        self.x.assign(ev, key, value, self.mask, self.accum, self.replace, self.unclear, node)

    def getitem(self, ev, key, node):
        return Part(self, key)


class Part(Abs):
    def __init__(self, target, key):
        self.target, self.key = target, key

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            self.target.setitem(ev, self.key, other, node)
            return Val()
        return Unk(op)


def full(key):
    return isinstance(key, slice) and key.start is None and key.stop is None and key.step is None or key is Ellipsis


class Vec(Abs):
    def __init__(self, dom, pres, truthy=False):
        self.dom, self.pres, self.truthy = dom, dict(pres), truthy

    # -- changes
    def update(self, ev, x, mask, accum, replace, unclear, node):
        dom = self.dom
        if isinstance(x, Mask):
            x = Vec(dom, {e: x.at(e) for e in self.pres}) if isinstance(x.parent, Vec) else Unk("mask")
        if isinstance(x, Vec):
            new = dict(x.pres)
        elif isinstance(x, (int, float)) or type(x) in (Val, Cnt, Id, Key):
            new = {e: T for e in self.pres}
        else:
            new = {e: None for e in self.pres}
        truthy = self.truthy
        self.truthy = False
        if x is True and mask is None and accum is None:
            self.truthy = True
        if x is True and mask is not None and (truthy or not any(p is not F for p in self.pres.values())):
            self.truthy = True
        if unclear or mask is not None and not isinstance(mask.parent, Vec):
            self.pres = {e: join3(self.pres[e], new[e]) if self.pres[e] is F or new[e] is not F else None for e in self.pres}
            if unclear:
                self.pres = {e: None for e in self.pres}
            return
        if mask is not None and mask.structure and not mask.comp and mask.parent is x:
            accum = accum or "put"  # a new value at every place of the mask
        out = {}
        for e, old in self.pres.items():
            inside = or3(old, new[e]) if accum is not None else new[e]
            outside = F if replace and mask is not None else old
            m = T if mask is None else mask.at(e)
            out[e] = inside if m is T else outside if m is F else join3(inside, outside)
            if accum == "put" and not replace:
                out[e] = or3(old, new[e])
        self.pres = out

    def assign(self, ev, key, value, mask, accum, replace, unclear, node):
        if full(key):
            return self.update(ev, value, mask, accum, replace, unclear, node)
        self.truthy = False
        if isinstance(key, Id) and mask is None and isinstance(value, (int, float, Val)):
            self.pres[key.e] = T if ev.domain.summary(ev) else or3(self.pres[key.e], None)
        elif isinstance(key, Ids) and mask is None and isinstance(value, (int, float, Val)):
            self.pres = {e: or3(self.pres[e], key.pres[e]) for e in self.pres}
        else:
            self.pres = {e: T if self.pres[e] is T and isinstance(value, (int, float, Val)) else None for e in self.pres}

    def setitem(self, ev, key, value, node):
        if isinstance(key, Mask):
            return self.update(ev, value, key, None, False, False, node)
        self.assign(ev, key, value, None, None, False, False, node)

    def delitem(self, ev, key, node):
        if isinstance(key, Id) and key.e in self.pres:
            self.pres[key.e] = and3(self.pres[key.e], None)
        else:
            self.pres = {e: and3(p, None) for e, p in self.pres.items()}

    def call(self, ev, args, kwargs, node):
        return Target(self, *split(args, kwargs))

    # -- reading
    def new(self, pres):
        return Vec(self.dom, pres)

    def masked(self, a, k):
        mask = k.get("mask")
        if mask is None:
            return Vec(self.dom, self.pres, self.truthy)
        if not isinstance(mask, Mask) or not isinstance(mask.parent, Vec):
            return self.new({e: and3(p, None) for e, p in self.pres.items()})
        return self.new({e: and3(p, mask.at(e)) for e, p in self.pres.items()})

    def attr(self, ev, name, node):
        d = self.dom
        if name == "nvals":
            return Cnt(d, self.pres)
        if name in ("size", "nrows"):
            return d.n
        if name == "shape":
            return (d.n,)
        if name == "S":
            return Mask(self, True)
        if name == "V":
            return Mask(self, False)
        if name in ("new",):
            return Prim(lambda ev, a, k, n: self.masked(a, k))
        if name == "dup":
            return Prim(lambda ev, a, k, n: self.new({e: F for e in self.pres}) if k.get("clear") is True else self.masked(a, k))
        if name == "clear":
            def clear(ev, a, k, n):
                self.pres = {e: F for e in self.pres}
            return Prim(clear)
        if name in ("reduce", "isequal", "isclose"):
            return Prim(lambda *a: Val())
        if name == "get":
            return Prim(lambda ev, a, k, n: self.get(ev, a, k))
        if name == "to_coo":
            def to_coo(ev, a, k, n):
                return (Ids(d, self.pres) if k.get("indices", True) is not False else None, Vals(d, self.pres) if k.get("values", True) is not False else None)
            return Prim(to_coo)
        if name == "to_dict":
            return Prim(lambda ev, a, k, n: {Id(e): Val() for e in Ids(d, self.pres).iterate(ev, n)} and {i: Val() for i in Ids(d, self.pres).iterate(ev, n)})
        if name == "diag":
            return Prim(lambda ev, a, k, n: Mat(d, self.pres, self.pres) if not a or a[0] == 0 else Mat.top(d))
        if name == "outer":
            def outer(ev, a, k, n):
                o = a[0]
                if not isinstance(o, Vec):
                    return Mat.top(d)
                return Mat(d, {e: and3(p, some(o.pres)) for e, p in self.pres.items()}, {e: and3(p, some(self.pres)) for e, p in o.pres.items()})
            return Prim(outer)
        if name in ("ewise_mult", "ewise_add", "ewise_union"):
            f = and3 if name == "ewise_mult" else or3
            return Prim(lambda ev, a, k, n: self.ewise(f, a[0] if a else k.get("other")))
        if name == "apply":
            return Prim(lambda *a: self.new(self.pres))
        if name == "select":
            return Prim(lambda *a: self.new({e: and3(p, None) for e, p in self.pres.items()}))
        if name == "vxm":
            return Prim(lambda ev, a, k, n: product(self, a[0]) if a else Unk("vxm"))
        if name in ("dtype", "name", "ss", "inner"):
            return Val()
        return Unk(name)

    def setattr(self, ev, name, value, node):
        pass

    def get(self, ev, a, k):
        i = a[0] if a else k.get("index")
        p = self.pres.get(i.e) if isinstance(i, Id) else None
        default = a[1] if len(a) > 1 else k.get("default")
        return Val() if p is T else default if p is F else MaybeVal() if default is None else Val()

    def ewise(self, f, o):
        if isinstance(o, Vec):
            return self.new({e: f(p, o.pres[e]) for e, p in self.pres.items()})
        if isinstance(o, Mask) and isinstance(o.parent, Vec):
            return self.new({e: f(p, o.at(e)) for e, p in self.pres.items()})
        return self.new({e: None for e in self.pres})

    def binop(self, ev, op, other, swapped, node):
        if op == "<<":
            if swapped:
                return Unk(op)
            self.update(ev, other, None, None, False, False, node)
            return Val()
        if op == "@":
            if isinstance(other, Vec):
                return Val()
            if isinstance(other, Mat):
                return product(other, self) if swapped else product(self, other)
            return Unk(op)
        if isinstance(other, Mat):
            return broadcast(self, other, op, not swapped)
        if isinstance(other, Vec):
            return self.ewise(or3 if op in ("+", "-", "|") else and3, other)
        if isinstance(other, Unk):
            return self.new({e: None for e in self.pres})
        return self.new(self.pres)

    def unop(self, ev, op, node):
        return self.new(self.pres)

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        if isinstance(other, Vec) and op not in ("is", "is not"):
            return self.ewise(and3, other)
        if op in ("is", "is not"):
            return (other is self) == (op == "is")
        return self.new(self.pres)

    def contains(self, ev, item, node):
        p = self.pres.get(item.e) if isinstance(item, Id) else None
        return Val() if p is None else p

    def getitem(self, ev, key, node):
        if full(key):
            return self.new(self.pres)
        if isinstance(key, (Id, Val)):
            return Item(self, key)
        if isinstance(key, Ids) or isinstance(key, list):
            return self.new({e: T if all(p is T for p in self.pres.values()) else F if all(p is F for p in self.pres.values()) else None for e in self.pres})
        return self.new({e: None for e in self.pres})

    def iterate(self, ev, node):
        return Ids(self.dom, self.pres).iterate(ev, node)

    def truth(self, ev, node):
        return Val().truth(ev, node)

    def length(self, ev, node):
        return self.dom.n

    def __repr__(self):
        return f"Vec({self.pres})"


def some(pres):
    """Does the set have an element?"""
    if any(p is T for p in pres.values()):
        return T
    return F if all(p is F for p in pres.values()) else None


class Item(Val):
    def __init__(self, v, key):
        self.v, self.key = v, key

    def attr(self, ev, name, node):
        if name == "get":
            return Prim(lambda ev, a, k, n: self.v.get(ev, [self.key] + list(a), k) if isinstance(self.v, Vec) else MaybeVal())
        if name == "new":
            return Prim(lambda *a: self)
        if name == "value":
            return MaybeVal()
        return Val()


class Mat(Abs):
    def __init__(self, dom, row, col):
        self.dom, self.row, self.col = dom, dict(row), dict(col)

    @classmethod
    def top(cls, dom):
        return cls(dom, {e: None for e in dom.elems}, {e: None for e in dom.elems})

    def weak(self):
        return Mat(self.dom, {e: and3(p, None) for e, p in self.row.items()}, {e: and3(p, None) for e, p in self.col.items()})

    def copy(self):
        return Mat(self.dom, self.row, self.col)

    def update(self, ev, x, mask, accum, replace, unclear, node):
        if isinstance(x, Mat):
            xr, xc = x.row, x.col
        elif isinstance(x, Vec) and accum is None and mask is None:
            xr, xc = {e: None for e in self.row}, {e: None for e in self.col}
        else:
            xr = {e: T if isinstance(x, (int, float)) or type(x) in (Val, Cnt) else None for e in self.row}
            xc = dict(xr)
        scalar = isinstance(x, (int, float)) or type(x) in (Val, Cnt, Id)
        bad = unclear or mask is not None and not isinstance(mask.parent, Mat)
        put_all = not bad and mask is not None and mask.structure and not mask.comp and mask.parent is x

        def one(old, new, m):
            if bad:
                return None
            if mask is None:
                return or3(old, new) if accum is not None else new
            put = and3(new, m) if scalar else and3(and3(new, m), None)
            if put_all:
                return or3(old, new) if not replace else new
            if replace:
                if accum is not None:
                    return F if m is F else F if put is F and old is F else None
                return put
            if accum is not None or scalar:
                return or3(old, put)
            return F if old is F and put is F else None if m is not F else old
        self.row, self.col = (
            {e: one(p, xr[e], T if mask is None or bad else mask.row(e)) for e, p in self.row.items()},
            {e: one(p, xc[e], T if mask is None or bad else mask.col(e)) for e, p in self.col.items()},
        )

    def assign(self, ev, key, value, mask, accum, replace, unclear, node):
        if full(key) or isinstance(key, tuple) and len(key) == 2 and all(full(k) for k in key):
            return self.update(ev, value, mask, accum, replace, unclear, node)
        scalar = isinstance(value, (int, float)) or type(value) in (Val, Cnt)
        keep = scalar and not replace or accum is not None and not replace
        self.row = {e: T if p is T and keep else None for e, p in self.row.items()}
        self.col = {e: T if p is T and keep else None for e, p in self.col.items()}

    def setitem(self, ev, key, value, node):
        if isinstance(key, Mask):
            return self.update(ev, value, key, None, False, False, node)
        self.assign(ev, key, value, None, None, False, False, node)

    def delitem(self, ev, key, node):
        w = self.weak()
        self.row, self.col = w.row, w.col

    def call(self, ev, args, kwargs, node):
        return Target(self, *split(args, kwargs))

    def masked(self, k):
        mask = k.get("mask")
        if mask is None:
            return self.copy()
        if not isinstance(mask, Mask) or not isinstance(mask.parent, Mat):
            return self.weak()
        return Mat(self.dom, {e: and3(and3(p, mask.row(e)), None) for e, p in self.row.items()}, {e: and3(and3(p, mask.col(e)), None) for e, p in self.col.items()})

    def attr(self, ev, name, node):
        d = self.dom
        if name == "nvals":
            return MCnt(self)
        if name in ("nrows", "ncols"):
            return d.n
        if name == "shape":
            return (d.n, d.n)
        if name == "S":
            return Mask(self, True)
        if name == "V":
            return Mask(self, False)
        if name == "T":
            return Mat(d, self.col, self.row)
        if name == "new":
            return Prim(lambda ev, a, k, n: self.masked(k))
        if name == "dup":
            return Prim(lambda ev, a, k, n: Mat(d, {e: F for e in self.row}, {e: F for e in self.col}) if k.get("clear") is True else self.masked(k))
        if name == "clear":
            def clear(ev, a, k, n):
                self.row, self.col = {e: F for e in self.row}, {e: F for e in self.col}
            return Prim(clear)
        if name == "reduce_rowwise":
            return Prim(lambda *a: Vec(d, self.row))
        if name == "reduce_columnwise":
            return Prim(lambda *a: Vec(d, self.col))
        if name in ("reduce_scalar", "isequal", "isclose"):
            return Prim(lambda *a: Val())
        if name == "get":
            return Prim(lambda *a: MaybeVal())
        if name == "diag":
            return Prim(lambda *a: Vec(d, {e: and3(and3(self.row[e], self.col[e]), None) for e in self.row}))
        if name == "to_coo":
            return Prim(lambda ev, a, k, n: (Ids(d, self.row), Ids(d, self.col), Vals(d, self.row)))
        if name == "apply":
            return Prim(lambda *a: self.copy())
        if name == "select":
            return Prim(lambda *a: self.weak())
        if name in ("ewise_mult", "ewise_add", "ewise_union"):
            return Prim(lambda ev, a, k, n: self.ewise(a[0] if a else None, name == "ewise_mult"))
        if name in ("mxv", "mxm"):
            return Prim(lambda ev, a, k, n: product(self, a[0]) if a else Unk(name))
        if name in ("dtype", "name", "ss"):
            return Val()
        return Unk(name)

    def setattr(self, ev, name, value, node):
        pass

    def ewise(self, o, mult):
        if isinstance(o, Vec):
            return broadcast(o, self, "&" if mult else "|", False)
        if not isinstance(o, Mat):
            return Mat.top(self.dom)
        if mult:
            return Mat(self.dom, {e: self.row[e] if o is self else and3(and3(self.row[e], o.row[e]), None) for e in self.row}, {e: self.col[e] if o is self else and3(and3(self.col[e], o.col[e]), None) for e in self.col})
        return Mat(self.dom, {e: or3(self.row[e], o.row[e]) for e in self.row}, {e: or3(self.col[e], o.col[e]) for e in self.col})

    def binop(self, ev, op, other, swapped, node):
        if op == "<<":
            if swapped:
                return Unk(op)
            self.update(ev, other, None, None, False, False, node)
            return Val()
        if op == "@":
            if isinstance(other, (Vec, Mat)):
                return product(other, self) if swapped else product(self, other)
            return Unk(op)
        if isinstance(other, Vec):
            return broadcast(other, self, op, swapped)
        if isinstance(other, Mat):
            return self.ewise(other, op not in ("+", "-", "|"))
        if isinstance(other, Unk):
            return Mat.top(self.dom)
        return self.copy()

    def unop(self, ev, op, node):
        return self.copy()

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        if op in ("is", "is not"):
            return (other is self) == (op == "is")
        return self.weak() if isinstance(other, Mat) else self.copy()

    def getitem(self, ev, key, node):
        if isinstance(key, tuple) and len(key) == 2:
            r, c = key
            if full(r) and full(c):
                return self.copy()
            if full(c) and isinstance(r, (Id, Val, int)):
                return Vec(self.dom, {e: and3(p, None) for e, p in self.col.items()})
            if full(r) and isinstance(c, (Id, Val, int)):
                return Vec(self.dom, {e: and3(p, None) for e, p in self.row.items()})
            if isinstance(r, (Id, Val, int)) and isinstance(c, (Id, Val, int)):
                return Item(self, None)
        return Mat.top(self.dom)

    def contains(self, ev, item, node):
        return Val()

    def truth(self, ev, node):
        return Val().truth(ev, node)


class MCnt(Cnt):
    """The number of entries of a matrix."""

    def __init__(self, m):
        self.m = m
        self.pres = {0: some(m.row)}

    def compare(self, ev, op, other, swapped, node):
        if isinstance(other, int) and other <= 0:
            return super().compare(ev, op, other, swapped, node)
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        return Val()


def product(a, b):
    """Presence in a @ b."""
    d = a.dom
    if isinstance(a, Vec) and isinstance(b, Mat):
        covers = all(a.pres[e] is T or b.row[e] is F for e in b.row)
        return Vec(d, {e: p if covers else F if some(a.pres) is F else and3(p, None) for e, p in b.col.items()})
    if isinstance(a, Mat) and isinstance(b, Vec):
        covers = all(b.pres[e] is T or a.col[e] is F for e in a.col)
        return Vec(d, {e: p if covers else F if some(b.pres) is F else and3(p, None) for e, p in a.row.items()})
    if isinstance(a, Mat) and isinstance(b, Mat):
        covers = all(b.row[e] is T or a.col[e] is F for e in b.row)
        coversc = all(a.col[e] is T or b.row[e] is F for e in b.row)
        return Mat(d, {e: p if covers else and3(p, None) for e, p in a.row.items()}, {e: p if coversc else and3(p, None) for e, p in b.col.items()})
    return Unk("@")


def broadcast(v, m, op, v_left):
    """v & A scales rows; A & v scales columns."""
    d = m.dom
    if op in ("+", "-", "|"):
        return Mat.top(d)
    if v_left:
        covers = all(v.pres[e] is T or m.row[e] is F for e in m.row)
        return Mat(d, {e: and3(p, v.pres[e]) for e, p in m.row.items()}, {e: p if covers else and3(p, None) for e, p in m.col.items()})
    covers = all(v.pres[e] is T or m.col[e] is F for e in m.col)
    return Mat(d, {e: p if covers else and3(p, None) for e, p in m.row.items()}, {e: and3(p, v.pres[e]) for e, p in m.col.items()})


def maybe(ev, e):
    """An entry that is there or not; the answers of such a path are not judged."""
    ev.tainted = True
    return ev.choose([True, False], ("entry", e))


class Ids(Abs):
    """An array of node ids."""

    def __init__(self, dom, pres):
        self.dom, self.pres = dom, dict(pres)

    def iterate(self, ev, node):
        return [Id(e) for e, p in self.pres.items() if p is T or p is None and maybe(ev, e)]

    def attr(self, ev, name, node):
        if name == "size":
            return Cnt(self.dom, self.pres)
        if name in ("tolist", "copy", "astype", "flatten", "ravel"):
            return Prim(lambda *a: self)
        return Val()

    def length(self, ev, node):
        return Cnt(self.dom, self.pres)

    def truth(self, ev, node):
        return Cnt(self.dom, self.pres).truth(ev, node)

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        return Val()

    def binop(self, ev, op, other, swapped, node):
        return Val()

    def getitem(self, ev, key, node):
        if full(key):
            return self
        if isinstance(key, slice):
            return Ids(self.dom, {e: and3(p, None) for e, p in self.pres.items()})
        return Val()


class Vals(Ids):
    def iterate(self, ev, node):
        return [Val() for e, p in self.pres.items() if p is T or p is None and maybe(ev, e)]


class Map(Abs):
    """key -> id (or id -> key) of every node."""

    def __init__(self, dom, to_id):
        self.dom, self.to_id = dom, to_id

    def getitem(self, ev, key, node):
        if self.to_id and isinstance(key, Key):
            return Id(key.e)
        if not self.to_id and isinstance(key, Id):
            return Key(key.e)
        if isinstance(key, Nodes):
            raise MRaise("TypeError", node)
        return Val()

    def contains(self, ev, item, node):
        if isinstance(item, (Key, Id)):
            return isinstance(item, Key) == self.to_id
        if isinstance(item, Nodes):
            raise MRaise("TypeError", node)  # a list is not hashable
        if item is None:
            return False
        return Val()

    def attr(self, ev, name, node):
        if name == "__getitem__":
            return Prim(lambda ev, a, k, n: self.getitem(ev, a[0], n))
        if name == "get":
            return Prim(lambda ev, a, k, n: self.getitem(ev, a[0], n))
        if name == "keys":
            return Prim(lambda ev, a, k, n: self)
        if name == "values":
            return Prim(lambda ev, a, k, n: Map(self.dom, not self.to_id))
        if name == "items":
            return Prim(lambda ev, a, k, n: [(Key(e), Id(e)) if self.to_id else (Id(e), Key(e)) for e in self.dom.elems])
        return Unk(name)

    def iterate(self, ev, node):
        return [Key(e) if self.to_id else Id(e) for e in self.dom.elems]

    def length(self, ev, node):
        return self.dom.n

    def truth(self, ev, node):
        return True

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        return Val()


class Nodes(Abs):
    """The list of requested nodes."""

    def __init__(self, dom):
        self.dom = dom

    def iterate(self, ev, node):
        return [Key(e) for e in self.dom.elems if e[1]]

    def length(self, ev, node):
        return Cnt(self.dom, {e: e[1] for e in self.dom.elems})

    def compare(self, ev, op, other, swapped, node):
        if other is None and op in ("is", "is not", "==", "!="):
            return op in ("is not", "!=")
        return (other is self) == (op in ("is", "=="))

    def contains(self, ev, item, node):
        return item.e[1] if isinstance(item, Key) else Val()

    def truth(self, ev, node):
        return True

    def attr(self, ev, name, node):
        return Unk(name)


class NMap(Abs):
    """A node map that was returned."""

    def __init__(self, kind, x, fill, rows):
        self.kind, self.x, self.fill, self.rows = kind, x, fill, rows

    def pres(self):
        if self.kind == "NodeMap" and isinstance(self.x, Vec):
            if isinstance(self.fill, Unk):
                return None
            return {e: T if self.fill is not None else p for e, p in self.x.pres.items()}
        if self.kind == "VectorNodeMap" and isinstance(self.x, Mat):
            if isinstance(self.rows, Vec):
                return dict(self.rows.pres)
            return dict(self.x.row) if self.rows is None else None
        if self.kind == "NodeNodeMap" and isinstance(self.x, Mat):
            return dict(self.x.row)
        return None

    def attr(self, ev, name, node):
        if name in ("vector", "matrix"):
            return self.x
        if name in ("items", "keys", "values", "__iter__"):
            def f(ev, a, k, n):
                pres = self.pres()
                if pres is None:
                    return Unk(name)
                ks = [Key(e) for e, p in pres.items() if p is T or p is None and maybe(ev, e)]
                return [(x, Val()) for x in ks] if name == "items" else ks if name != "values" else [Val() for _ in ks]
            return Prim(f)
        if name == "get":
            def get(ev, a, k, n):
                p = self.pres()
                r = p.get(a[0].e) if p is not None and a and isinstance(a[0], Key) else None
                return MaybeVal() if r is None else Val() if r is T else a[1] if len(a) > 1 else k.get("default")

            return Prim(get)
        if name == "_fill_value":
            return self.fill
        return Unk(name)

    def setattr(self, ev, name, value, node):
        if name == "_fill_value":
            self.fill = value
        elif name in ("vector", "matrix"):
            self.x = value
        elif name == "_rows":
            self.rows = value

    def iterate(self, ev, node):
        return ev.call(self.attr(ev, "keys", node), [], {}, node)

    def getitem(self, ev, key, node):
        return Val()

    def setitem(self, ev, key, value, node):
        if isinstance(key, Key) and isinstance(self.x, Vec):
            self.x.pres[key.e] = T

    def contains(self, ev, item, node):
        p = self.pres()
        r = p.get(item.e) if p is not None and isinstance(item, Key) else None
        return Val() if r is None else r

    def length(self, ev, node):
        p = self.pres()
        return Cnt(self.x.dom, p) if p is not None else Val()

    def truth(self, ev, node):
        return Val().truth(ev, node)


def rc(cfg, e, offdiag):
    """(row, column) presence of A or of its off-diagonal part for a node of a class."""
    c = e[0]
    if cfg.directed:
        row = {"I": F, "K": F, "S": T, "L": not offdiag, "R": T}[c]
        col = {"I": F, "K": T, "S": F, "L": not offdiag, "R": T}[c]
    else:
        row = col = {"I": F, "L": not offdiag, "R": T}[c]
    return row, col


class Presence(Domain):
    def __init__(self, directed, classes, listed, loops, single=False):
        self.directed, self.loops = directed, loops
        self.elems = [(c, r) for c in classes for r in ((True, False) if listed else (True,))]
        if single:
            self.elems = self.elems[:1]
        self.single = single
        self.n = 1 if single else Cnt(self, {e: T for e in self.elems})

    def summary(self, ev):
        return True

    def matrix(self, off):
        rcs = {e: rc(self, e, off) for e in self.elems}
        return Mat(self, {e: x[0] for e, x in rcs.items()}, {e: x[1] for e, x in rcs.items()})

    # -- the graph
    def graph(self, ev):
        mod = "graphblas_algorithms.classes." + ("digraph" if self.directed else "graph")
        cls = ev.module_name(ev.module(mod), "DiGraph" if self.directed else "Graph")
        if not isinstance(cls, MClass):
            return None
        return MInst(cls, {"_A": self.matrix(False), "matrix": self.matrix(False), "_key_to_id": Map(self, True), "_id_to_key": Map(self, False), "id_to_key": Map(self, False), "_cache": {}, "graph": {}})

    def prop(self, ev, name, mask):
        def vec(pres):
            v = Vec(self, pres)
            return v.masked([], {"mask": mask}) if mask is not None else v
        base, sign = (name[:-1], name[-1]) if name[-1] in "+-" else (name, "")
        off = sign == "-"
        m = self.matrix(off)
        if base in ("A",):
            return self.matrix(False)
        if base == "offdiag":
            return self.matrix(True)
        if base == "AT":
            return self.matrix(False).attr(ev, "T", None)
        if base in ("L", "U"):
            w = self.matrix(True).weak()
            if not off:
                w = self.matrix(False).weak()
            return w
        if base == "diag":
            return vec({e: T if e[0] == "L" else None if e[0] != "I" and self.loops else F for e in self.elems})
        if base in ("degrees", "row_degrees") or base.endswith("_rowwise"):
            return vec(m.row)
        if base in ("column_degrees",) or base.endswith("_columnwise"):
            return vec(m.col)
        if base == "total_degrees":
            return vec({e: or3(m.row[e], m.col[e]) for e in self.elems})
        if base == "recip_degrees":
            return vec({e: and3(and3(m.row[e], m.col[e]), T if e[0] == "L" else None) for e in self.elems})
        if base == "has_self_edges":
            if not self.loops:
                return False
            return True if any(e[0] == "L" for e in self.elems) else Val()
        if base in ("is_iso", "has_negative_edges", "has_negative_diagonal", "has_negative_values", "is_symmetric", "is_undirected"):
            return Val()
        if base == "iso_value":
            return ev.choose([None, Val()], "iso_value")
        if base in ("total_recip", "max_element", "min_element") or base.startswith(("max_", "min_", "total_")):
            return Val()
        return Unk(name)

    # -- hooks
    def intercept(self, ev, f, args, kwargs, node):
        nm = f.name
        if nm in ("to_graph", "to_directed_graph", "to_undirected_graph") and args and isinstance(args[0], MInst):
            return (args[0],)
        if nm in ("get_property", "get_properties") and len(args) >= 1 and isinstance(args[0], MInst):
            names = args[1] if len(args) > 1 else kwargs.get("name", kwargs.get("names"))
            mask = kwargs.get("mask", args[2] if len(args) > 2 else None)
            if isinstance(mask, Unk) or mask is not None and not isinstance(mask, Mask):
                return (Unk("mask"),)
            if isinstance(names, (list, tuple)) and nm == "get_properties":
                names = " ".join(names)
            if not isinstance(names, str):
                return (Unk("property"),)
            if nm == "get_property":
                return (self.prop(ev, names, mask),)
            return ([self.prop(ev, x, mask) for x in names.split()],)
        if nm == "normalize_chunksize":
            c = self.chunk if hasattr(self, "chunk") else None
            return (c,)
        if nm == "partition" and len(args) >= 2:
            return ([args[1]],)
        if nm == "_cacheit":
            return None
        return None

    def instantiate(self, ev, cls, args, kwargs, node):
        if cls.name in ("NodeMap", "VectorNodeMap", "NodeNodeMap"):
            x = args[0] if args else kwargs.get("v", kwargs.get("A"))
            return NMap(cls.name, x, kwargs.get("fill_value"), kwargs.get("rows"))
        if cls.name in ("Graph", "DiGraph"):
            return Unk(cls.name)
        return super().instantiate(ev, cls, args, kwargs, node)

    def ext_getitem(self, ev, name, key, node):
        return Ext(name)

    def ext_call(self, ev, name, args, kwargs, node):
        last = name.split(".")[-1]
        parts = name.split(".")
        if parts[0] == "graphblas":
            if last == "Vector":
                return Vec(self, {e: F for e in self.elems})
            if last == "Matrix":
                return Mat(self, {e: F for e in self.elems}, {e: F for e in self.elems})
            if len(parts) >= 2 and parts[-2] == "Vector":
                return self.make_vector(ev, last, args, kwargs)
            if len(parts) >= 2 and parts[-2] == "Matrix":
                return self.make_matrix(ev, last, args, kwargs)
            if "Scalar" in parts:
                return Val()
            if last == "output_type":
                x = args[0]
                return Ext("graphblas.Vector") if isinstance(x, Vec) else Ext("graphblas.Matrix") if isinstance(x, Mat) else Ext("builtins." + type(x).__name__)
            objs = [a for a in args if isinstance(a, (Vec, Mat))]
            if "select" in parts:
                if not objs:
                    return Unk(name)
                o = objs[0]
                return o.weak() if isinstance(o, Mat) else o.new({e: and3(p, None) for e, p in o.pres.items()})
            if any(p in parts for p in ("unary", "binary", "monoid", "semiring", "indexunary", "agg", "op")):
                if len(args) >= 1 and isinstance(args[0], (Val,)) and not objs:
                    return Val()
                if len(objs) == 2 and ("monoid" in parts or "binary" in parts):
                    return Unk(name)
                if objs and not any(isinstance(a, Unk) for a in args):
                    o = objs[0]
                    if "left_default" in kwargs or "right_default" in kwargs:
                        pass
                    return o.copy() if isinstance(o, Mat) else o.new(o.pres)
            return Unk(name)
        if parts[0] in ("numpy", "np"):
            if last in ("fromiter", "array", "asarray") and args:
                xs = ev.items(args[0], node)
                if xs and all(isinstance(x, Id) for x in xs):
                    got = {x.e for x in xs}
                    return Ids(self, {e: e in got for e in self.elems})
                return Val()
            return Val()
        if parts[0] == "math":
            return Val()
        return Unk(name)

    def make_vector(self, ev, how, args, kwargs):
        if how in ("from_scalar", "from_iso_value"):
            return Vec(self, {e: T for e in self.elems}, (args[0] if args else None) is True)
        if how == "from_coo":
            ids = args[0] if args else kwargs.get("indices")
            if isinstance(ids, Ids):
                pres = dict(ids.pres)
            elif isinstance(ids, (list, tuple)) and all(isinstance(x, Id) for x in ids):
                got = {x.e for x in ids}
                pres = {e: e in got for e in self.elems}
            else:
                pres = {e: None for e in self.elems}
            return Vec(self, pres, (args[1] if len(args) > 1 else kwargs.get("values")) is True)
        if how == "from_dict" and args and isinstance(args[0], dict) and all(isinstance(x, Id) for x in args[0]):
            return Vec(self, {e: Id(e) in args[0] for e in self.elems})
        return Vec(self, {e: None for e in self.elems})

    def make_matrix(self, ev, how, args, kwargs):
        if how == "from_coo" and len(args) >= 2:
            def pres(x):
                if type(x) is Ids:
                    return dict(x.pres)
                if isinstance(x, Val) or isinstance(x, Vals):
                    return {e: None for e in self.elems}
                return {e: None for e in self.elems}
            return Mat(self, pres(args[0]), pres(args[1]))
        return Mat.top(self)

    def length(self, ev, v, node):
        return None

    def isinstance(self, ev, v, t, node):
        ts = t if isinstance(t, tuple) else (t,)
        nm = [x.name.split(".")[-1] if isinstance(x, Ext) else x.name if isinstance(x, (MClass, Prim)) else "?" for x in ts]
        mine = {Vec: "Vector", Mat: "Matrix", Nodes: "list", Mask: "Mask"}.get(type(v))
        if isinstance(v, NMap):
            mine = v.kind
        if mine is not None:
            if mine in nm:
                return True
            if "?" not in nm:
                return False
        return None

    def range(self, ev, args, node):
        if all(isinstance(x, int) for x in args) and len(range(*args)) <= max(3, len(self.elems)):
            return None
        lo = args[0] if len(args) > 1 and isinstance(args[0], int) else 0
        k = ev.choose([1, 2, 0], ("rounds", getattr(node, "lineno", 0)))
        return [lo + i if i == 0 else Val() for i in range(k)]


def configs(directed):
    all_ = ("I", "K", "S", "L", "R") if directed else ("I", "L", "R")
    no_loops = tuple(c for c in all_ if c != "L")
    yield "general", all_, True, False
    yield "no self-edges", no_loops, False, False
    yield "no edges", ("I",), False, False
    yield "one node", ("I",), False, True
    yield "one node with a self-edge", ("L",), True, True


KEEP = {  # function: (kinds, takes nodes, variants of the other arguments)
    "degree_centrality": ("ud", False, [{}]),
    "in_degree_centrality": ("d", False, [{}]),
    "out_degree_centrality": ("d", False, [{}]),
    "eigenvector_centrality": ("ud", False, [{}, {"nstart": "full"}]),
    "katz_centrality": ("ud", False, [{}, {"nstart": "full"}, {"beta": "full"}, {"normalized": False}]),
    "pagerank": ("ud", False, [{}, {"personalization": "part"}, {"dangling": "part"}, {"nstart": "part"}, {"personalization": "part", "dangling": "part"}, {"weight": None}]),
    "hits": ("ud", False, [{}, {"normalized": False}, {"nstart": "part"}]),
    "triangles": ("u", True, [{}]),
    "clustering": ("ud", True, [{}, {"weight": "weight"}]),
    "square_clustering": ("u", True, [{"chunk": None}, {"chunk": 5}]),
    "generalized_degree": ("u", True, [{}]),
    "reciprocity": ("d", "only", [{}]),
    "floyd_warshall": ("ud", False, [{}, {"weight": None}]),
    "floyd_warshall_predecessor_and_distance": ("ud", False, [{}]),
    "all_pairs_shortest_path_length": ("ud", False, [{"chunk": None}, {"chunk": 1}, {"chunk": 5}]),
    "all_pairs_bellman_ford_path_length": ("ud", False, [{"chunk": None}, {"chunk": 1}, {"chunk": 5}]),
}
NAMES = {"I": "an isolated node", "K": "a node without out-edges", "S": "a node without in-edges", "L": "a node with only a self-edge", "R": "a node with neighbors"}


def argument(dom, spec):
    if spec == "full":
        return {Key(e): Val() for e in dom.elems}
    if spec == "part":
        return {Key(e): Val() for e in dom.elems[-1:]}
    return spec


def judge(rep, label, dom, listed, pres, where):
    """pres: {element: presence} of one returned map."""
    for e in dom.elems:
        p = pres.get(e, F)
        what = f"{label}: {NAMES[e[0]]}"
        if p is None:
            rep.unknown["presence of an entry not decided"] = rep.unknown.get("presence of an entry not decided", 0) + 1
            continue
        if not listed:
            rep.check(p is T, "every-node", what, f"{NAMES[e[0]]} has no entry in the answer", where)
        elif e[1]:
            rep.check(p is T, "requested-node", what, f"{NAMES[e[0]]} that was requested has no entry in the answer", where)
        else:
            rep.check(p is F, "no-other-node", what, f"{NAMES[e[0]]} that was not requested has an entry in the answer", where)


def maps(name, res):
    """The presence of keys in each per-node map of a result; None where it is not known."""
    if isinstance(res, NMap):
        return [res.pres()]
    if isinstance(res, tuple):
        if name.endswith("predecessor_and_distance"):
            res = res[1:]  # the first map only promises entries for reached pairs
        return [m for x in res for m in maps("", x)]
    if isinstance(res, dict):
        if all(isinstance(k, Key) for k in res):
            # None stands for "not defined", which only a node without edges is
            return [{k.e: F if v is None and k.e[0] != "I" else T for k, v in res.items()}]
        return [None]
    if isinstance(res, list):
        if all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], Key) for x in res):
            return [{x[0].e: T for x in res}]
        return [None]
    return [None]


def one(rep, repo, name, kind, takes, variant, depth, seen):
    directed = kind == "d"
    for listed in ([True] if takes == "only" else [False, True] if takes else [False]):
        for cname, classes, loops, single in configs(directed):
            dom = Presence(directed, classes, listed, loops, single)
            if "chunk" in variant:
                dom.chunk = variant["chunk"]
            ev = Mini(repo, dom)
            f = ev.module_name(ev.module("graphblas_algorithms.nxapi"), name)
            if isinstance(f, Unk):
                rep.unknown["functions not found"] = rep.unknown.get("functions not found", 0) + 1
                continue
            vtext = ", ".join(f"{k}={v}" for k, v in variant.items())
            label = f"{name}({'DiGraph' if directed else 'Graph'}{', nodes' if listed else ''}{', ' + vtext if vtext else ''}), {cname}"
            where = [f"{f.mod.path.relative_to(ev.root)} {name}"] if isinstance(f, MFunc) else []

            def thunk():
                G = dom.graph(ev)
                try:
                    kw = {k: argument(dom, v) for k, v in variant.items() if k != "chunk"}
                    args = [G] + ([Nodes(dom)] if listed else [])
                    return None, ev.call(f, args, kw, None)
                except MRaise as e:
                    return e.exc, None
                except TooDeep:
                    return "?", None
            for exc, res in ev.paths(thunk, limit=depth):
                if ev.tainted or exc == "?":
                    rep.unknown["paths not decided"] = rep.unknown.get("paths not decided", 0) + 1
                    continue
                if exc is not None:
                    rep.unknown["paths ending in an exception"] = rep.unknown.get("paths ending in an exception", 0) + 1
                    continue
                for pres in maps(name, res):
                    if pres is None:
                        rep.unknown["answers not followed"] = rep.unknown.get("answers not followed", 0) + 1
                    else:
                        rep.ob("answers")
                        seen.add((name, kind, listed, cname))
                        judge(rep, label, dom, listed, pres, where)
            if ev.truncated:
                rep.unknown["evaluations cut off"] = rep.unknown.get("evaluations cut off", 0) + 1
            rep.functions |= set(ev.funcs)


def run(rep):
    repo = rep.repo
    c22b.without_edges(rep)
    depth = 300 if os.environ.get("VERIF_TIER") != "thorough" else 5000
    seen = set()
    for name, (kinds, takes, variants) in KEEP.items():
        for kind in kinds:
            for v in variants:
                one(rep, repo, name, kind, takes, v, depth, seen)
    rep.notes.append(f"{len(seen)} combinations of function, graph kind, node argument and configuration have decided answers")
    rep.floor("answers", 200)
