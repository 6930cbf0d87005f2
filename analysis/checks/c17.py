"""Node maps and node sets behave like mappings and sets.

The methods of the map and set classes are evaluated over a symbolic container: one arbitrary known node `k` and another
arbitrary known node `j` (each stored or not), an arbitrary remainder (empty or not) and symbolic values (any of which
may be falsy).  Programs of one or two operations (with every query before, between and after them, so that lazily built
bookkeeping exists or not) are followed along all paths, and every answer is compared with the one a dict or set with
the same history would give.  The nodes are symbols, so one run stands for all graphs and contents.
"""
from __future__ import annotations

import ast
import os

from ..mini import Abs, Domain, Ext, MBound, MClass, MInst, MIter, Mini, Module, MRaise, Prim, TooDeep, Unk

MIXINS = '''
class Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default
    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True
    def keys(self):
        return [key for key in self]
    def items(self):
        return [(key, self[key]) for key in self]
    def values(self):
        return [self[key] for key in self]

class MutableMapping(Mapping):
    __marker = object()
    def pop(self, key, default=__marker):
        try:
            value = self[key]
        except KeyError:
            if default is self.__marker:
                raise
            return default
        else:
            del self[key]
            return value
    def popitem(self):
        try:
            key = next(iter(self))
        except StopIteration:
            raise KeyError from None
        value = self[key]
        del self[key]
        return key, value
    def clear(self):
        try:
            while True:
                self.popitem()
        except KeyError:
            pass
    def update(self, other=(), /, **kwds):
        if isinstance(other, dict):
            for key in other:
                self[key] = other[key]
        elif hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value
    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default

class Set:
    def __and__(self, other):
        return self._from_iterable(value for value in other if value in self)
    def __rand__(self, other):
        return self._from_iterable(value for value in other if value in self)
    def isdisjoint(self, other):
        for value in other:
            if value in self:
                return False
        return True
    def __or__(self, other):
        chain = (e for s in (self, other) for e in s)
        return self._from_iterable(chain)
    def __ror__(self, other):
        chain = (e for s in (self, other) for e in s)
        return self._from_iterable(chain)
    def __sub__(self, other):
        return self._from_iterable(value for value in self if value not in other)
    def __xor__(self, other):
        return (self - other) | (other - self)

class MutableSet(Set):
    def remove(self, value):
        if value not in self:
            raise KeyError(value)
        self.discard(value)
    def pop(self):
        it = iter(self)
        try:
            value = next(it)
        except StopIteration:
            raise KeyError from None
        self.discard(value)
        return value
    def clear(self):
        try:
            while True:
                self.pop()
        except KeyError:
            pass
    def __ior__(self, it):
        for value in it:
            self.add(value)
        return self
    def __iand__(self, it):
        for value in (self - it):
            self.discard(value)
        return self
    def __isub__(self, it):
        for value in it:
            self.discard(value)
        return self
    def __ixor__(self, it):
        for value in it:
            if value in self:
                self.discard(value)
            else:
                self.add(value)
        return self
'''


class Skip(Exception):
    """A path that another one stands for, or that the model does not follow."""


class Tok(Abs):
    """A node id or a node label: `k`, `j`, or `r` for all of a remainder `of`."""

    table = {}

    def __new__(cls, kind, name, of=None):
        t = cls.table.get((kind, name, of))
        if t is None:
            t = object.__new__(cls)
            t.kind, t.name, t.of = kind, name, of
            cls.table[kind, name, of] = t
        return t

    @property
    def rest(self):
        return self.name == "r"

    def compare(self, ev, op, other, swapped, node):
        if op in ("==", "is", "!=", "is not"):
            if isinstance(other, Tok) and not self.rest and not other.rest:
                if self.kind == other.kind:
                    return (self is other) == (op in ("==", "is"))
                return ev.choose([True, False], ("label", self.name, other.name)) == (op in ("==", "is"))
            if other is None:
                return op in ("!=", "is not")
            return Unk(op)
        return Unk(op)

    def truth(self, ev, node):
        return ev.lazy(("falsy", self.kind, self.name))  # node 0, label ''

    def attr(self, ev, name, node):
        return Unk(name)

    def __repr__(self):
        return f"{self.kind} {self.name}"


class Val(Abs):
    """A stored value; it may be falsy."""

    def __init__(self, name):
        self.name = name

    def truth(self, ev, node):
        return ev.lazy(("truthy", self.name))

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (self is other) == (op == "is")
        if op in ("==", "!="):
            if other is None:
                return op == "!="
            if self is other:
                return op == "=="
            if isinstance(other, (int, float)) and not other:
                return (not self.truth(ev, node)) == (op == "==")
            return ev.lazy((op, self.name, getattr(other, "name", other)))
        return ev.lazy((op, self.name, getattr(other, "name", other)))

    def attr(self, ev, name, node):
        if name in ("item", "get", "new"):
            return Prim(lambda *a: self)
        if name == "value":
            return self
        return Unk(name)

    def binop(self, ev, op, other, swapped, node):
        return Unk(op)

    def __repr__(self):
        return self.name


FILL = Val("fill value")


class Count(Abs):
    """base + c; base is the size of a remainder (0 if None)."""

    def __init__(self, base, c):
        self.base, self.c = base, c

    def truth(self, ev, node):
        if self.base is None:
            return self.c != 0
        if self.c > 0 or self.base == ("all",):
            return True
        return ev.nonempty(self.base)

    def compare(self, ev, op, other, swapped, node):
        if isinstance(other, Count):
            if other.base == self.base:
                return eval(f"a {op} b", {"a": self.c, "b": other.c}) if op in ("==", "!=", "<", "<=", ">", ">=") else Unk(op)
            return ev.lazy(("count", op, self.base, self.c, other.base, other.c))
        if isinstance(other, int):
            if self.base is None:
                return eval(f"a {op} b", {"a": self.c, "b": other})
            if other == 0:
                z = not self.truth(ev, node)
                return {"==": z, "!=": not z, ">": not z, "<=": z, ">=": True, "<": False}.get(op, Unk(op))
            if other == 1 and op in (">=", "<"):
                return self.truth(ev, node) == (op == ">=")
            return ev.lazy(("count", op, self.base, self.c, other))
        return Unk(op)

    def binop(self, ev, op, other, swapped, node):
        if isinstance(other, int) and op in "+-" and not (swapped and op == "-"):
            return Count(self.base, self.c + (other if op == "+" else -other))
        return Unk(op)

    def attr(self, ev, name, node):
        return Unk(name)

    def key(self, ev):
        if self.base is not None and self.base != ("all",) and not ev.nonempty(self.base):
            return (None, self.c)
        return (self.base, self.c)

    def __repr__(self):
        return f"#{self.base}+{self.c}"


NODES = ("k", "j")
ALL = ("all",)


class Vec(Abs):
    """A sparse vector: entries at k and j (value, None when absent, or ('lazy', name)); the remainder's name, or None."""

    def __init__(self, entries, rest, dtype="dtype"):
        self.e, self.rest, self.dtype = dict(entries), rest, dtype

    def copy(self):
        return Vec(self.e, self.rest, self.dtype)

    def at(self, ev, i):
        if not isinstance(i, Tok):
            ev.tainted = True
            return None
        if i.kind != "id":
            raise MRaise("TypeError")
        if i.rest:
            if i.of == self.rest:
                return Val(f"value in {self.rest}")
            ev.tainted = True
            return None
        v = self.e[i.name]
        if isinstance(v, tuple):
            v = self.e[i.name] = v[2] if ev.lazy(v[:2]) else None
        return v

    def present(self, ev):
        return [n for n in NODES if self.at(ev, Tok("id", n)) is not None]

    def has_rest(self, ev):
        return self.rest is not None and (self.rest == ALL or ev.nonempty(self.rest))

    def nonempty(self, ev):
        return bool(self.present(ev)) or self.has_rest(ev)

    def count(self, ev):
        p = len(self.present(ev))
        if self.rest == ALL:
            return Count(ALL, p - len(NODES))
        if not self.has_rest(ev):
            return Count(None, p)
        return Count(self.rest, p)

    def ids(self, ev):
        return [Tok("id", n) for n in self.present(ev)] + ([Tok("id", "r", self.rest)] if self.has_rest(ev) else [])

    def attr(self, ev, name, node):
        if name == "get":
            return Prim(lambda ev, a, k, n: (lambda v: v if v is not None else (a[1] if len(a) > 1 else k.get("default")))(self.at(ev, a[0])))
        if name == "nvals":
            return self.count(ev)
        if name == "size":
            return Count(ALL, 0)
        if name == "dtype":
            return Ext(self.dtype)
        if name in ("S", "V"):
            return Mask(self, name == "S", False)
        if name == "ss":
            return SS(self)
        if name == "dup":
            return Prim(lambda ev, a, k, n: self.copy())
        if name == "new":
            return Prim(lambda ev, a, k, n: self.copy())
        if name == "clear":
            return Prim(lambda ev, a, k, n: self.wipe())
        if name == "to_coo":
            return Prim(self.to_coo)
        if name in ("ndim",):
            return 1
        if name == "_is_scalar":
            return False
        if name == "isequal":
            def iseq(ev, a, k, n):
                ev.tainted = True
                return ev.choose([True, False], "isequal")
            return Prim(iseq)
        if name in ("nrows", "ncols", "vector", "matrix"):
            raise MRaise("AttributeError", node)
        return Unk(name)

    def wipe(self):
        self.e = {n: None for n in NODES}
        self.rest = None

    def to_coo(self, ev, a, k, n):
        i = self.ids(ev) if k.get("indices", True) else None
        v = [self.at(ev, t) for t in i] if i is not None else [self.at(ev, t) for t in self.ids(ev)]
        return (Arr(i) if i is not None else None, Arr(v) if k.get("values", True) else None)

    def contains(self, ev, item, node):
        return self.at(ev, item) is not None

    def iterate(self, ev, node):
        return self.ids(ev)

    def getitem(self, ev, key, node):
        if isinstance(key, slice) and key == slice(None):
            return self
        return Elem(self, key)

    def setitem(self, ev, key, value, node):
        if isinstance(key, slice) and key == slice(None):
            self.fill(ev, value, lambda n: True, True)
            return
        if isinstance(value, Unk) or not isinstance(key, Tok):
            ev.tainted = True
            return
        if key.kind != "id":
            raise MRaise("TypeError", node)
        if value is None:
            raise MRaise("TypeError", node)
        if key.rest:
            raise Skip
        self.e[key.name] = value

    def delitem(self, ev, key, node):
        if not isinstance(key, Tok):
            ev.tainted = True
            return
        if key.kind != "id":
            raise MRaise("TypeError", node)
        if key.rest:
            raise Skip
        self.e[key.name] = None

    def fill(self, ev, value, where, rest):
        for n in NODES:
            if where(n):
                self.e[n] = value
        if rest:
            self.rest = ALL

    def call(self, ev, args, kwargs, node):
        m = args[0] if args else kwargs.get("mask")
        return Update(self, m)

    def length(self, ev, node):
        return Count(ALL, 0)

    def truth(self, ev, node):
        return self.nonempty(ev)

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            Update(self, None).binop(ev, "<<", other, False, node)
            return None
        if op == "@" and isinstance(other, Vec):
            return Inner(self, other)
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (self is other) == (op == "is")
        return Unk(op)


class Inner(Abs):
    def __init__(self, a, b):
        self.a, self.b = a, b


class Elem(Abs):
    def __init__(self, v, i):
        self.v, self.i = v, i

    def attr(self, ev, name, node):
        if name in ("new",):
            return Prim(lambda *a: self)
        if name == "get":
            return Prim(lambda ev, a, k, n: self.v.at(ev, self.i) if self.v.at(ev, self.i) is not None else (a[0] if a else None))
        if name == "value":
            return self.v.at(ev, self.i)
        if name == "is_empty":
            return self.v.at(ev, self.i) is None
        if name == "nvals":
            return 0 if self.v.at(ev, self.i) is None else 1
        return Unk(name)

    def truth(self, ev, node):
        v = self.v.at(ev, self.i)
        return v is not None and ev.truth(v, node)

    def compare(self, ev, op, other, swapped, node):
        v = self.v.at(ev, self.i)
        if op in ("is", "is not"):
            return op == "is not"
        if v is None:
            return op == "!="
        return ev.compare(op, v, other, node)


class Mask(Abs):
    def __init__(self, v, struct, comp):
        self.v, self.struct, self.comp = v, struct, comp

    def unop(self, ev, op, node):
        return Mask(self.v, self.struct, not self.comp)

    def attr(self, ev, name, node):
        return self.v if name == "parent" else Unk(name)


class Update(Abs):
    def __init__(self, v, m):
        self.v, self.m = v, m

    def binop(self, ev, op, other, swapped, node):
        v, m = self.v, self.m
        if op != "<<" or swapped or isinstance(other, (Unk, Vec, Mat)):
            if op == "<<" and m is None and type(other) is type(v):
                v.assign(other)
                return None
            ev.tainted = True
            return Unk(op)
        if m is None:
            v.fill(ev, other, lambda n: True, True)
        elif isinstance(m, Mask) and isinstance(m.v, type(v)):
            v.masked_fill(ev, m, other)
        else:
            ev.tainted = True
        return None

    def setitem(self, ev, key, value, node):
        if isinstance(key, slice) and key == slice(None):
            self.binop(ev, "<<", value, False, node)
        else:
            ev.tainted = True


def _vassign(self, o):
    self.e, self.rest = dict(o.e), o.rest


def _vmasked(self, ev, m, value):
    w = m.v
    if not m.struct:
        ev.tainted = True
        return
    for n in NODES:
        self.at(ev, Tok("id", n))
    inside = {n: (w.at(ev, Tok("id", n)) is not None) != m.comp for n in NODES}
    if w is self or w.rest == self.rest:
        if m.comp:
            if self.rest != ALL:
                self.rest = ALL
        # without complement: entries of the remainder get new values, presence unchanged
    else:
        ev.tainted = True
    for n in NODES:
        if inside[n]:
            self.e[n] = value


Vec.assign = _vassign
Vec.masked_fill = _vmasked


class SS(Abs):
    def __init__(self, v):
        self.v = v

    def attr(self, ev, name, node):
        if name in ("iteritems", "iterkeys", "itervalues"):
            return Prim(lambda ev, a, k, n: Stored(self.v, name))
        return Unk(name)


class Stored(Abs):
    """Iteration over stored entries; the first one is k if k is stored (every stored node is some k)."""

    def __init__(self, v, name):
        self.v, self.name = v, name
        self.left = None

    def all(self, ev):
        ids = self.v.ids(ev)
        vals = [self.v.at(ev, i) for i in ids]
        return {"iteritems": list(zip(ids, vals)), "iterkeys": ids, "itervalues": vals}[self.name]

    def iterate(self, ev, node):
        return self.all(ev)

    def next(self, ev, node):
        if self.left is None:
            self.left = self.all(ev)
        if not self.left:
            raise MRaise("StopIteration", node)
        return self.left.pop(0)

    def truth(self, ev, node):
        return True


class Arr(Abs):
    """An array of ids or values."""

    def __init__(self, items):
        self.items = items

    def attr(self, ev, name, node):
        if name in ("tolist", "copy", "astype"):
            return Prim(lambda *a: list(self.items))
        if name == "size":
            return ev.domain.length(ev, self.items, node)
        return Unk(name)

    def iterate(self, ev, node):
        return list(self.items)

    def getitem(self, ev, key, node):
        return ev.getitem(list(self.items), key, node)

    def length(self, ev, node):
        return ev.domain.length(ev, self.items, node)


class Mat(Abs):
    """A sparse matrix: rows k and j (Vec over columns), and the remaining rows."""

    def __init__(self, rows, rest, dtype="dtype"):
        self.r, self.rest, self.dtype = rows, rest, dtype

    def copy(self):
        return Mat({n: v.copy() for n, v in self.r.items()}, self.rest, self.dtype)

    def attr(self, ev, name, node):
        if name in ("nrows", "ncols"):
            return Count(ALL, 0)
        if name == "shape":
            return (Count(ALL, 0), Count(ALL, 0))
        if name == "dtype":
            return Ext(self.dtype)
        if name in ("S", "V"):
            return Mask(self, name == "S", False)
        if name in ("dup", "new"):
            return Prim(lambda ev, a, k, n: self.copy())
        if name == "clear":
            return Prim(lambda ev, a, k, n: self.wipe())
        if name == "reduce_rowwise":
            return Prim(lambda ev, a, k, n: self.rows(ev))
        if name == "nvals":
            return Nvals(self)
        if name == "isequal":
            def iseq(ev, a, k, n):
                ev.tainted = True
                return ev.choose([True, False], "isequal")
            return Prim(iseq)
        if name in ("size", "vector", "get") and name == "size":
            raise MRaise("AttributeError", node)
        return Unk(name)

    def rows(self, ev):
        return Vec({n: (Val(f"some value of row {n}") if self.r[n].nonempty(ev) else None) for n in NODES}, self.rest if self.rest in (None, ALL) else ("rows", self.rest))

    def wipe(self):
        for n in NODES:
            self.r[n] = Vec({m: None for m in NODES}, None)
        self.rest = None

    def row(self, ev, key):
        if isinstance(key, tuple) and len(key) == 2 and key[1] == slice(None) and isinstance(key[0], Tok):
            i = key[0]
            if i.kind != "id":
                raise MRaise("TypeError")
            if i.rest:
                if i.of in (self.rest, ("rows", self.rest), ALL):
                    return "rest"
            return i.name
        ev.tainted = True
        return None

    def getitem(self, ev, key, node):
        n = self.row(ev, key)
        if n == "rest":
            return Vec({m: ("lazy", f"a remaining row, column {m}", Val(f"value in a remaining row")) for m in NODES}, ("rest of a remaining row",))
        return self.r[n].copy() if n in self.r else Unk("row")

    def setitem(self, ev, key, value, node):
        n = self.row(ev, key)
        if n == "rest":
            raise Skip
        if n is None:
            return
        if isinstance(value, Vec):
            self.r[n] = value.copy()
        elif isinstance(value, (Val, int, float)):
            self.r[n] = Vec({m: value for m in NODES}, ALL)
        else:
            ev.tainted = True

    def delitem(self, ev, key, node):
        n = self.row(ev, key)
        if n == "rest":
            raise Skip
        if n is not None:
            self.r[n] = Vec({m: None for m in NODES}, None)

    def contains(self, ev, item, node):
        if isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], Tok) and item[0].name in self.r:
            return self.r[item[0].name].contains(ev, item[1], node)
        return Unk("in")

    def fill(self, ev, value, where, rest):
        for n in NODES:
            self.r[n] = Vec({m: value for m in NODES}, ALL)
        self.rest = ALL

    def assign(self, o):
        self.r, self.rest = {n: v.copy() for n, v in o.r.items()}, o.rest

    def masked_fill(self, ev, m, value):
        if m.v is not self and m.v.rest != self.rest:
            ev.tainted = True
            return
        for n in NODES:
            self.r[n].masked_fill(ev, Mask(m.v.r[n], m.struct, m.comp), value)
        if m.comp:
            self.rest = ALL

    def call(self, ev, args, kwargs, node):
        return Update(self, args[0] if args else kwargs.get("mask"))

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            Update(self, None).binop(ev, "<<", other, False, node)
            return None
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (self is other) == (op == "is")
        return Unk(op)

    def truth(self, ev, node):
        return True


class Nvals(Abs):
    def __init__(self, m):
        self.m = m

    def truth(self, ev, node):
        m = self.m
        return any(m.r[n].nonempty(ev) for n in NODES) or m.rest is not None and ev.nonempty(m.rest)

    def compare(self, ev, op, other, swapped, node):
        if isinstance(other, int) and other == 0 and op in ("==", "!=", ">"):
            return self.truth(ev, node) == (op != "==")
        return ev.lazy(("nvals", op, repr(other)))


class Keys(Abs):
    """label -> id (or id -> label) for every node of the graph"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def getitem(self, ev, key, node):
        if isinstance(key, Tok):
            if key.kind == self.a:
                return Tok(self.b, key.name, key.of)
            raise MRaise("KeyError", node)
        if isinstance(key, (Unk, Val)):
            ev.tainted = True
            return Unk("label")
        raise MRaise("KeyError", node)

    def contains(self, ev, item, node):
        return isinstance(item, Tok) and item.kind == self.a

    def toks(self):
        return [Tok(self.a, n) for n in NODES] + [Tok(self.a, "r", ALL)]

    def iterate(self, ev, node):
        return self.toks()

    def length(self, ev, node):
        return Count(ALL, 0)

    def attr(self, ev, name, node):
        if name == "items":
            return Prim(lambda ev, a, k, n: [(t, Tok(self.b, t.name, t.of)) for t in self.toks()])
        if name == "keys":
            return Prim(lambda ev, a, k, n: KeyView(self.toks()))
        if name == "values":
            return Prim(lambda ev, a, k, n: [Tok(self.b, t.name, t.of) for t in self.toks()])
        if name in ("__getitem__",):
            return Prim(lambda ev, a, k, n: self.getitem(ev, a[0], n))
        if name == "__contains__":
            return Prim(lambda ev, a, k, n: self.contains(ev, a[0], n))
        if name == "get":
            def get(ev, a, k, n):
                try:
                    return self.getitem(ev, a[0], n)
                except MRaise:
                    return a[1] if len(a) > 1 else None
            return Prim(get)
        if name == "copy":
            return Prim(lambda *a: self)
        return Unk(name)

    def truth(self, ev, node):
        return True

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (self is other) == (op == "is")
        if op in ("==", "!=") and isinstance(other, Keys):
            return ((self.a, self.b) == (other.a, other.b)) == (op == "==")
        return Unk(op)


class KeyView(Abs):
    def __init__(self, t):
        self.t = t

    def iterate(self, ev, node):
        return list(self.t)

    def contains(self, ev, item, node):
        return isinstance(item, Tok) and any(item.name == x.name and item.kind == x.kind for x in self.t)

    def binop(self, ev, op, other, swapped, node):
        if op == "&":
            return {x for x in ev.items(other, node) if self.contains(ev, x, node)}
        return Unk(op)


class Dom(Domain):
    def __init__(self):
        t = ast.parse(MIXINS)
        self.abc = Module("collections.abc", None, t, False)

    def ext_attr(self, ev, base, name, node):
        if base == "collections.abc" and name in self.abc.defs:
            return ev.module_name(self.abc, name)
        return None

    def ext_call(self, ev, name, args, kwargs, node):
        if name == "object.__new__":
            return MInst(args[0]) if isinstance(args[0], MClass) else Unk("new")
        if name == "object":
            return Ext("sentinel")
        if name.endswith("Vector.from_dict"):
            d = args[0]
            v = Vec({n: None for n in NODES}, None)
            for i, x in d.items():
                v.setitem(ev, i, x, node)
            return v
        if name.endswith("Vector.from_coo"):
            v = Vec({n: None for n in NODES}, None)
            x = args[1] if len(args) > 1 else kwargs.get("values", True)
            ids = ev.items(args[0], node)
            xs = ev.items(x, node) if isinstance(x, (list, tuple, Arr)) else [x] * len(ids)
            for i, y in zip(ids, xs):
                if isinstance(i, Tok) and i.kind == "id" and i.rest:
                    v.rest = i.of
                    continue
                v.setitem(ev, i, y, node)
            return v
        if name.endswith(("unify", "lookup_dtype")):
            return Ext("dtype")
        if name.endswith("Vector"):
            return Vec({n: None for n in NODES}, None)
        if name.split(".")[-1] in ("chain", "from_iterable") and "itertools" in name:
            out = []
            for x in args if name.endswith("chain") else ev.items(args[0], node):
                out += ev.items(x, node)
            return out
        return Unk(name)

    def ext_getitem(self, ev, name, key, node):
        return Ext(name)

    def length(self, ev, v, node):
        if isinstance(v, (list, tuple, set, dict)):
            r = [x for x in v if isinstance(x, Tok) and x.rest or isinstance(x, tuple) and x and isinstance(x[0], Tok) and x[0].rest]
            if r:
                t = r[0] if isinstance(r[0], Tok) else r[0][0]
                p = len(v) - 1
                return Count(ALL, p - len(NODES)) if t.of == ALL else Count(t.of, p)
        return None

    def range(self, ev, args, node):
        if len(args) == 1 and isinstance(args[0], Count) and args[0].base == ALL and args[0].c == 0:
            return [Tok("id", n) for n in NODES] + [Tok("id", "r", ALL)]
        return None

    def isinstance(self, ev, v, t, node):
        if isinstance(v, (Vec, Mat)) and isinstance(t, Ext):
            return t.name.endswith("Vector" if isinstance(v, Vec) else "Matrix")
        if isinstance(v, (Vec, Mat)) and isinstance(t, MClass):
            return False
        if isinstance(v, MInst) and isinstance(t, Ext) and t.name.split(".")[-1] in ("Vector", "Matrix", "TransposedMatrix"):
            return False
        return None

    def inst_attr(self, ev, inst, name, node):
        raise MRaise("AttributeError", node)

    def super(self, ev, fr, node):
        f = fr.func
        if f is None or f.cls is None:
            return Unk("super")
        return Super(f.cls, fr.vars.get("self"))


class Super(Abs):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def attr(self, ev, name, node):
        for b in self.cls.bases(ev):
            if isinstance(b, MClass):
                r = b.lookup(ev, name)
                if r is not None:
                    return MBound(self.obj, r)
        return Unk(name)


class Ev(Mini):
    def start(self):
        self.memo = {}

    def lazy(self, q):
        if q not in self.memo:
            self.memo[q] = self.choose([True, False], q)
        return self.memo[q]

    def nonempty(self, rest):
        if rest == ALL:
            return True
        while isinstance(rest, tuple) and rest and rest[0] == "rows":
            rest = rest[1]
        return self.lazy(("nonempty", rest))

    def getitem(self, o, k, node):
        if isinstance(o, dict) and isinstance(k, Tok) and k.rest and k not in o:
            for x in o:
                if isinstance(x, Tok) and x.rest and x.kind == k.kind:
                    v = o[x]
                    return Tok(v.kind, v.name, k.of) if isinstance(v, Tok) and v.rest else v
        return super().getitem(o, k, node)


# ---------------------------------------------------------------------------------------------- the model and the laws


class Absent:
    def __repr__(self):
        return "absent"


ABSENT = Absent()
K, J = Tok("key", "k"), Tok("key", "j")


def same(a, b):
    return a is b or (not isinstance(a, Abs) and not isinstance(b, Abs) and type(a) == type(b) and a == b)


class Law(Exception):
    def __init__(self, what, msg):
        self.what, self.msg = what, msg


class Container:
    """The object under test together with the dict/set it should be."""

    def __init__(self, ev, cls, conf, nodes):
        self.ev, self.cls, self.conf = ev, cls, conf
        self.nodes = nodes  # node name -> key passed to the container
        self.filled = conf.get("fill", False)
        self.vk = conf.get("vk", False)
        self.removed = False

    def key(self, n):
        return self.nodes[n]

    def run(self, f, *args):
        """(value, exception name)"""
        try:
            return f(*args), None
        except MRaise as e:
            return None, e.exc

    def meth(self, name, *args):
        ev = self.ev
        return self.run(lambda: ev.call(ev.getattr(self.obj, name, None), list(args), {}, None))


class MapOf(Container):
    """NodeMap / VectorMap"""

    def __init__(self, ev, cls, conf, ids=False):
        kind = "id" if ids else "key"
        super().__init__(ev, cls, conf, {n: Tok(kind, n) for n in NODES})
        self.kind = kind
        vk = self.vk
        st = {"k": Tok("id", "j") if vk else Val("value of k"), "j": Tok("id", "k") if vk else Val("value of j")}
        seen = {"k": Tok("key", "j") if vk else st["k"], "j": Tok("key", "k") if vk else st["j"]}
        self.vec = Vec({n: ("lazy", f"{n} stored", st[n]) for n in NODES}, ("R",))
        kw = {}
        if not ids:
            kw = {"key_to_id": Keys("key", "id")} if conf.get("keys", True) else {}
            if self.filled:
                kw["fill_value"] = Tok("id", "k") if False else FILL
            if vk:
                kw["values_are_keys"] = True
        self.obj = ev.call(cls, [self.vec], kw, None)
        self.model = {}
        for n in NODES:
            v = self.vec.at(ev, Tok("id", n))
            self.model[n] = seen[n] if v is not None else (FILL if self.filled else ABSENT)
        self.rest = ALL if self.filled else ("R",)
        self.new = Tok("key", "j") if vk else Val("new value")

    def fresh(self):
        return self.new, self.new  # value assigned, value expected back

    def same_value(self, got, want):
        return None if isinstance(got, (Unk, Ext)) else same(got, want)


class RowsOf(Container):
    """VectorNodeMap / NodeNodeMap"""

    def __init__(self, ev, cls, conf, inner, name):
        super().__init__(ev, cls, conf, {n: Tok("key", n) for n in NODES})
        self.inner, self.clsname = inner, name
        vk = self.vk
        rows = {}
        for n in NODES:
            e = {m: ("lazy", f"({n},{m}) stored", Tok("id", "j" if m == "k" else "k") if vk else Val(f"value of ({n},{m})")) for m in NODES[:1]}
            e["j"] = None
            rows[n] = Vec(e, (f"rest of row {n}",))
        self.mat = Mat(rows, ("R",))
        kw = {"key_to_id": Keys("key", "id")} if conf.get("keys", True) else {}
        if self.filled:
            kw["fill_value"] = FILL
        if vk:
            kw["values_are_keys"] = True
        self.obj = ev.call(cls, [self.mat], kw, None)
        self.model = {}
        for n in NODES:
            r = rows[n].copy()
            if self.filled:
                self.model[n] = self.view(r, True)
            else:
                self.model[n] = self.view(r, False) if rows[n].nonempty(ev) else ABSENT
        self.rest = ALL if self.filled else ("R",)

    def view(self, vec, filled):
        """What a row reads as: (value at k or ABSENT, remainder)"""
        ev = self.ev
        v = vec.at(ev, Tok("id", "k"))
        if self.vk and isinstance(v, Tok):
            v = Tok("key", v.name)
        if v is None:
            v = FILL if filled else ABSENT
        return ("row", v, ALL if filled else vec.rest if vec.has_rest(ev) else None)

    def fresh(self):
        e = {"k": ("lazy", "new row has k", Tok("id", "j") if self.vk else Val("new value")), "j": None}
        v = Vec(e, ("rest of new row",))
        kw = {} if self.inner.name == "VectorMap" or not self.conf.get("keys", True) else {"key_to_id": Keys("key", "id"), "values_are_keys": self.vk}
        x = self.ev.call(self.inner, [v], kw, None)
        if self.filled and self.removed:
            raise Skip  # whether rows assigned from now on are filled up is not specified
        if self.filled:
            return x, self.view(v.copy(), True)
        return x, (self.view(v.copy(), False) if v.nonempty(self.ev) else ABSENT)

    def same_value(self, got, want):
        if not isinstance(got, MInst):
            return False if not isinstance(got, Unk) else None
        ev = self.ev
        key = Tok("id" if got.cls.name == "VectorMap" else self.nodes["k"].kind, "k")
        _, v, rest = want
        has = ev.truth(ev.compare("in", key, got, None))
        if has != (v is not ABSENT):
            return False
        if has:
            x = ev.getitem(got, key, None)
            if isinstance(x, (Unk, Ext)):
                return None
            if not same(x, v):
                return False
        n = ev.call(ev.lookup("len", ev.mod_frame(ev.module(MODS[0]))), [got], {}, None)
        c = (1 if has else 0)
        want_n = Count(ALL, 0) if rest == ALL else Count(rest, c) if rest is not None else Count(None, c)
        if isinstance(n, int):
            n = Count(None, n)
        return n.key(ev) == want_n.key(ev) if isinstance(n, Count) else None


MODS = ("graphblas_algorithms.classes.nodemap", "graphblas_algorithms.classes.nodeset")


class SetOf(Container):
    def __init__(self, ev, cls, conf, tag=""):
        super().__init__(ev, cls, conf, {n: Tok("key", n) for n in NODES})
        self.vec = Vec({n: ("lazy", f"{n} in set{tag}", Val(f"flag{tag}")) for n in NODES}, ("R" + tag,))
        kw = {"key_to_id": Keys("key", "id")} if conf.get("keys", True) else {}
        self.obj = ev.call(cls, [self.vec], kw, None)
        self.model = {n: (True if self.vec.at(ev, Tok("id", n)) is not None else ABSENT) for n in NODES}
        self.rest = ("R" + tag,)


def observe(c, what):
    """Every query agrees with the model."""
    ev = c.ev
    is_set = isinstance(c, SetOf)
    if not c.conf.get("keys", True):
        pass
    for n in NODES:
        want = c.model[n]
        key = c.key(n)
        r, e = c.run(lambda: ev.truth(ev.compare("in", key, c.obj, None)))
        if e:
            raise Law(what, f"`in` raises {e}")
        if r != (want is not ABSENT):
            raise Law(what, f"{n} {'is' if want is not ABSENT else 'is not'} a member, but `in` says {r}")
        if is_set:
            continue
        r, e = c.run(lambda: ev.getitem(c.obj, key, None))
        if want is ABSENT:
            if e != "KeyError":
                raise Law(what, f"item access of the absent {n} " + (f"raises {e}" if e else f"gives {r!r}"))
        else:
            if e:
                raise Law(what, f"item access of {n} raises {e}")
            if c.same_value(r, want) is False:
                raise Law(what, f"item access of {n} gives {show(r)} instead of {show(want)}")
        d = Val("the default")
        for args, dflt in (((key, d), d), ((key,), None)):
            r, e = c.meth("get", *args)
            if e:
                raise Law(what, f"get raises {e}")
            if want is ABSENT:
                if r is not dflt and not isinstance(r, Unk):
                    raise Law(what, f"get of the absent {n} gives {show(r)} instead of the default")
            elif c.same_value(r, want) is False:
                raise Law(what, f"get of {n} gives {show(r)} instead of {show(want)}")
    from ..mini import BUILTINS

    members = [n for n in NODES if c.model[n] is not ABSENT]
    full = c.rest == ALL
    want_n = Count(ALL, len(members) - len(NODES)) if full else Count(c.rest, len(members)) if c.rest else Count(None, len(members))
    r, e = c.run(lambda: BUILTINS["len"].call(ev, [c.obj], {}, None))
    if e:
        raise Law(what, f"len raises {e}")
    if isinstance(r, int):
        r = Count(None, r)
    if isinstance(r, Count):
        a, b = norm(ev, r), norm(ev, want_n)
        if a != b:
            raise Law(what, f"len is {r!r} instead of {want_n!r}")
    r, e = c.run(lambda: list(ev.items(c.obj, None)))
    if e:
        raise Law(what, f"iteration raises {e}")
    if ev.tainted:
        return
    if all(isinstance(x, Tok) for x in r):
        kind = next(iter(c.nodes.values())).kind
        got = sorted((x.kind, x.name) for x in r)
        rest_in = full or (c.rest is not None and ev.nonempty(c.rest))
        want_i = sorted([(kind, n) for n in members] + ([(kind, "r")] if rest_in else []))
        if got != want_i:
            raise Law(what, f"iteration gives {names(got)} instead of {names(want_i)}")
        for x in r:
            if x.rest and (x.of == ALL) != full:
                raise Law(what, f"iteration gives {'all' if x.of == ALL else 'only the stored'} other nodes")
    elif not any(isinstance(x, Unk) for x in r):
        raise Law(what, f"iteration gives {[show(x) for x in r]} instead of nodes")


def norm(ev, c):
    base = c.base
    while isinstance(base, tuple) and base and base[0] == "rows":
        base = base[1]
    if base is not None and base != ALL and not ev.nonempty(base):
        base = None
    return (base, c.c)


def names(xs):
    return "{" + ", ".join({"r": "the others"}.get(n, f"{k} {n}") for k, n in xs) + "}"


def show(x):
    if isinstance(x, MInst):
        return f"a {x.cls.name}"
    return repr(x)


def op_setitem(c):
    v, want = c.fresh()
    _, e = c.run(lambda: c.obj.setitem(c.ev, c.key("k"), v, None))
    if e:
        raise Law("assignment", f"raises {e}")
    c.model["k"] = want


def op_setdict(c):
    """assignment of a dict as a row"""
    ev = c.ev
    if c.filled and c.removed:
        raise Skip
    val = Tok("key", "j") if c.vk else Val("new value")
    key = Tok("id" if c.inner.name == "VectorMap" else c.nodes["k"].kind, "k")
    d = {key: val} if ev.lazy("dict row has k") else {}
    _, e = c.run(lambda: c.obj.setitem(ev, c.key("k"), d, None))
    if e:
        raise Law("assignment of a dict", f"raises {e}")
    c.model["k"] = ("row", val if d else (FILL if c.filled else ABSENT), ALL if c.filled else None) if d or c.filled else ABSENT


def op_delitem(c):
    _, e = c.run(lambda: c.obj.delitem(c.ev, c.key("k"), None))
    expect_gone(c, "deletion", e)


def expect_gone(c, what, e):
    if c.model["k"] is ABSENT:
        if e != "KeyError":
            raise Law(what, f"of an absent node {'raises ' + e if e else 'is silently accepted'}")
    else:
        if e:
            raise Law(what, f"raises {e}")
        c.model["k"] = ABSENT
        c.removed = True


def op_pop(c):
    r, e = c.meth("pop", c.key("k"))
    was = c.model["k"]
    expect_gone(c, "pop", e)
    if was is not ABSENT and c.same_value(r, was) is False:
        raise Law("pop", f"gives {show(r)} instead of {show(was)}")


def op_popdefault(c):
    d = Val("the default")
    r, e = c.meth("pop", c.key("k"), d)
    was = c.model["k"]
    if e:
        raise Law("pop", f"with a default raises {e}")
    if was is ABSENT:
        if r is not d:
            raise Law("pop", f"of an absent node gives {show(r)} instead of the default")
    elif c.same_value(r, was) is False:
        raise Law("pop", f"gives {show(r)} instead of {show(was)}")
    c.model["k"] = ABSENT
    c.removed = True


def op_popitem(c):
    r, e = c.meth("popitem")
    ev = c.ev
    if e:
        if e != "KeyError":
            raise Law("popitem", f"raises {e}")
        if any(v is not ABSENT for v in c.model.values()) or c.rest == ALL or (c.rest and ev.nonempty(c.rest)):
            raise Law("popitem", "raises KeyError although the map is not empty")
        return
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Law("popitem", f"gives {show(r)}")
    if isinstance(r[0], Unk):
        raise Skip
    if not isinstance(r[0], Tok) or r[0].rest:
        raise Skip
    n = r[0].name
    if r[0] is not c.key(n):
        raise Law("popitem", f"gives {r[0]!r} instead of a node")
    if c.model[n] is ABSENT:
        raise Law("popitem", "gives a node that is not a member")
    if c.same_value(r[1], c.model[n]) is False:
        raise Law("popitem", f"gives {show(r[1])} instead of {show(c.model[n])}")
    c.model[n] = ABSENT
    c.removed = True


def op_clear(c):
    r, e = c.meth("clear")
    if e:
        raise Law("clear", f"raises {e}")
    c.model = {n: ABSENT for n in NODES}
    c.rest = None
    c.filled = False


def op_setdefault(c):
    v, want = c.fresh()
    if want is ABSENT:
        raise Skip
    r, e = c.meth("setdefault", c.key("k"), v)
    if e:
        raise Law("setdefault", f"raises {e}")
    if c.model["k"] is not ABSENT:
        if c.same_value(r, c.model["k"]) is False:
            raise Law("setdefault", f"of a member gives {show(r)} instead of {show(c.model['k'])}")
    else:
        if r is not v and c.same_value(r, want) is False:
            raise Law("setdefault", f"gives {show(r)} instead of the default")
        c.model["k"] = want


def op_update(c):
    v, want = c.fresh()
    r, e = c.meth("update", {c.key("k"): v})
    if e:
        raise Law("update", f"raises {e}")
    c.model["k"] = want


def op_add(c):
    r, e = c.meth("add", c.key("k"))
    if e:
        raise Law("add", f"raises {e}")
    c.model["k"] = True


def op_discard(c):
    r, e = c.meth("discard", c.key("k"))
    if e:
        raise Law("discard", f"raises {e}")
    c.model["k"] = ABSENT


def op_remove(c):
    r, e = c.meth("remove", c.key("k"))
    expect_gone(c, "remove", e)


def op_spop(c):
    r, e = c.meth("pop")
    ev = c.ev
    if e:
        if e != "KeyError":
            raise Law("pop", f"raises {e}")
        if any(v is not ABSENT for v in c.model.values()) or (c.rest and ev.nonempty(c.rest)):
            raise Law("pop", "raises KeyError although the set is not empty")
        return
    if isinstance(r, Unk) or isinstance(r, Tok) and r.rest:
        raise Skip
    if not isinstance(r, Tok) or r is not c.key(r.name):
        raise Law("pop", f"gives {show(r)} instead of a node")
    if c.model[r.name] is ABSENT:
        raise Law("pop", "gives a node that is not a member")
    c.model[r.name] = ABSENT


def op_copy(c):
    r, e = c.meth("copy")
    if e:
        raise Law("copy", f"raises {e}")
    if not isinstance(r, MInst):
        raise Skip
    keep, model = c.obj, dict(c.model)
    c.obj = r
    observe(c, "copy")
    # edits of the copy do not reach the original
    c.run(lambda: c.ev.call(c.ev.getattr(r, "discard", None), [c.key("k")], {}, None))
    c.run(lambda: c.ev.call(c.ev.getattr(r, "add", None), [c.key("j")], {}, None))
    c.obj, c.model = keep, model


def setop(sym, f):
    def op(c):
        ev = c.ev
        other = SetOf(ev, c.cls, c.conf, " (other)")
        if sym == "union":
            r, e = c.meth("union", other.obj)
        else:
            r, e = c.run(lambda: ev.binop(sym, c.obj, other.obj, None))
        if e:
            raise Law(sym, f"raises {e}")
        for n in NODES:
            want = f(c.model[n] is not ABSENT, other.model[n] is not ABSENT)
            if isinstance(r, set):
                got = c.key(n) in r
            elif isinstance(r, MInst):
                got, e = c.run(lambda: ev.truth(ev.compare("in", c.key(n), r, None)))
                if e:
                    raise Law(sym, f"membership in the result raises {e}")
            else:
                raise Skip
            if got != want:
                raise Law(sym, f"the result {'has' if got else 'lacks'} a node that is {'a' if want else 'not a'} member")
        observe(other, f"{sym}: the other operand")

    op.__name__ = "op_" + sym
    return op


def op_isdisjoint(c):
    ev = c.ev
    other = SetOf(ev, c.cls, c.conf, " (other)")
    r, e = c.meth("isdisjoint", other.obj)
    if e:
        raise Law("isdisjoint", f"raises {e}")
    if isinstance(r, Unk):
        raise Skip
    both = any(c.model[n] is not ABSENT and other.model[n] is not ABSENT for n in NODES)
    if both and r is True:
        raise Law("isdisjoint", "sets with a common node are reported disjoint")
    if r is False and not both and not (ev.nonempty(c.rest) and ev.nonempty(other.rest)) and not ev.tainted:
        raise Law("isdisjoint", "sets without a common node are not reported disjoint")


MAP_OPS = [op_setitem, op_delitem, op_pop, op_popdefault, op_popitem, op_clear, op_setdefault, op_update]
SET_OPS = [op_add, op_discard, op_remove, op_spop, op_clear, op_copy]
SET_BIN = [setop("&", lambda a, b: a and b), setop("|", lambda a, b: a or b), setop("-", lambda a, b: a and not b), setop("^", lambda a, b: a != b), setop("union", lambda a, b: a or b), op_isdisjoint]


def op_none(c):
    pass


def unknown_key(c):
    """An unknown node is not in the map."""
    ev = c.ev
    x = "not a node"
    r, e = c.run(lambda: ev.getitem(c.obj, x, None))
    if e != "KeyError":
        raise Law("unknown node", f"item access of an unknown node " + (f"raises {e}" if e else f"gives {show(r)}"))


def run(rep):
    rep.explanation = (
        "The methods of NodeMap, VectorMap, VectorNodeMap, NodeNodeMap and NodeSet are evaluated over a symbolic container (two arbitrary known "
        "nodes, stored or not, an arbitrary remainder, values that may be falsy, every fill/label configuration) along all paths of programs of up "
        "to two edits (three in the thorough tier) with queries before, between and after; every answer is compared with that of a dict/set with the same history."
    )
    rep.assumptions += [
        "python-graphblas vectors and matrices: get/in/[]/del/assign/reduce_rowwise/to_coo/ss.iter* have their documented meaning",
        "the order of iteration is not constrained; the entry popitem meets first is an arbitrary stored one",
        "paths on which an unmodelled value decides a branch are not judged",
    ]
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    ev = Ev(rep.repo, Dom())
    total = {"paths": 0, "skipped": 0}
    classes = {}
    for m in MODS:
        mod = ev.module(m)
        if mod is None:
            return
        for n, d in mod.defs.items():
            if isinstance(d, ast.ClassDef):
                classes[n] = ev.module_name(mod, n)
    T, F = True, False
    plans = []
    for conf in ({}, {"fill": T}, {"vk": T}, {"keys": F}):
        plans.append(("NodeMap", conf, lambda cf: MapOf(ev, classes["NodeMap"], cf, ids=not cf.get("keys", True)) if cf.get("keys", True) else IdMap(ev, classes["NodeMap"], cf)))
    plans.append(("VectorMap", {}, lambda cf: MapOf(ev, classes["VectorMap"], cf, ids=True)))
    for conf in ({}, {"keys": F}):
        plans.append(("VectorNodeMap", conf, lambda cf: rows(ev, classes["VectorNodeMap"], cf, classes["VectorMap"], "VectorNodeMap")))
    for conf in ({}, {"fill": T}, {"vk": T}, {"keys": F}):
        plans.append(("NodeNodeMap", conf, lambda cf: rows(ev, classes["NodeNodeMap"], cf, classes["NodeMap"], "NodeNodeMap")))
    plans.append(("NodeSet", {}, lambda cf: SetOf(ev, classes["NodeSet"], cf)))
    rich = (op_setitem, op_delitem, op_popitem, op_clear, op_setdict)
    for name, conf, make in plans:
        if name not in classes:
            continue
        ops = SET_OPS if name == "NodeSet" else list(MAP_OPS)
        if name in ("VectorNodeMap", "NodeNodeMap"):
            ops = ops + [op_setdict]
        progs = [()] + [(a,) for a in ops]
        if name == "NodeSet":
            progs += [(a,) for a in SET_BIN] + [(a, b) for a in SET_OPS for b in SET_BIN]
        big = name in ("VectorNodeMap", "NodeNodeMap")
        pairs = [(a, b) for a in ops for b in ops if thorough or not big or a in rich and b in rich]
        if conf.get("keys", True):
            progs += pairs
        if thorough and conf.get("keys", True):
            progs += [(a, b, c) for a in ops for b in ops for c in ops if not big or a in rich and b in rich and c in rich and not conf]
        for look in (False, True):
            for prog in progs:
                if big and len(prog) > 1 and not thorough and (look or conf.get("vk")):
                    continue
                decide(rep, ev, name, conf, make, prog, look, total)
    rep.functions |= ev.funcs
    rep.notes.append(f"{total['paths']} abstract paths judged, {total['skipped']} not judged")
    rep.floor("program", 300)


class IdMap(MapOf):
    """Without key_to_id, node i is labelled i."""

    def __init__(self, ev, cls, conf):
        super().__init__(ev, cls, {**conf, "keys": False}, ids=True)


def rows(ev, cls, conf, inner, name):
    c = RowsOf(ev, cls, conf, inner, name)
    if not conf.get("keys", True):
        c.nodes = {n: Tok("id", n) for n in NODES}
        c.idmap = True
    return c


def decide(rep, ev, name, conf, make, prog, look, total):
    tag = ", ".join(t for f, t in (("fill", "fill value"), ("vk", "label values")) if conf.get(f)) or ("ids as labels" if not conf.get("keys", True) else "plain")
    steps = [o.__name__[3:] for o in prog]
    bad = {}
    judged = 0

    def thunk():
        ev.start()
        what = "construction"
        try:
            try:
                c = make(conf)
            except MRaise as e:
                return Law("construction", f"raises {e.exc}")
            if not conf.get("keys", True) and isinstance(c, RowsOf) and c.inner.name != "VectorMap":
                # rows of an id-labelled map are labelled by the same ids
                pass
            what = "queries"
            if look:
                observe(c, "queries")
            for o in prog:
                what = o.__name__[3:]
                o(c)
                if look:
                    observe(c, "after " + what)
            observe(c, ("after " + what) if prog else "queries")
            unknown_key(c) if name != "NodeSet" and name != "VectorMap" and not prog else None
        except Law as l:
            return l
        except Skip:
            return "skip"
        except TooDeep:
            return "skip"
        except MRaise as e:
            return Law(what, f"a query raises {e.exc}")
        except (AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError) as e:
            rep.unknown[f"not followed: {type(e).__name__}"] = rep.unknown.get(f"not followed: {type(e).__name__}", 0) + 1
            return "skip"
        return None

    for r in ev.paths(thunk, 3000):
        total["paths"] += 1
        if ev.tainted or r == "skip":
            total["skipped"] += 1
            continue
        judged += 1
        if isinstance(r, Law):
            c = f"{name} ({tag}): {r.what}"
            if c not in bad:
                bad[c] = r.msg
    rep.ob("program", f"{name} ({tag}): {'; '.join(steps) or 'queries'}", n=1 if judged else 0)
    rep.ob("path", n=judged)
    for c, m in bad.items():
        rep.viol("map-law", c, m + (f" [history: {'queries; ' if look else ''}{'; '.join(steps)}]" if prog else ""), [f"classes/{'nodeset' if name == 'NodeSet' else 'nodemap'}.py {name}"])
