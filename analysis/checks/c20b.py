"""C20, part 2: every chunking route of a function reports the same thing.

Each function with a `chunksize` parameter is evaluated once per route (everything at once, one node at a time, in
pieces).  Graphs, node lists and results are symbolic; a split list is one arbitrary piece, its elements one arbitrary
element at an arbitrary position.  What a route reports for a node is (algorithm, node whose row is read, arguments).
"""
from __future__ import annotations

import ast
import os

from ..mini import BUILTINS, Abs, Domain, Ext, MFunc, Mini, MRaise, Prim, TooDeep, Unk, _Break, _Continue

FAMILY = {
    "all_pairs_shortest_path_length": "shortest_path_length",
    "single_source_shortest_path_length": "shortest_path_length",
    "single_target_shortest_path_length": "shortest_path_length to",
    "bellman_ford_path_lengths": "bellman_ford_path_length",
    "single_source_bellman_ford_path_length": "bellman_ford_path_length",
    "square_clustering": "square_clustering",
    "single_square_clustering": "square_clustering",
}
NODES = ("nodes", "node_ids")
ONE = ("source", "target", "idx", "node")


def tk(v):
    """Structural key of a value, None if unknown."""
    if isinstance(v, Unk):
        return None
    if isinstance(v, Ext):
        return ("ext", v.name)
    if isinstance(v, Abs):
        return v.key() if hasattr(v, "key") else None
    if isinstance(v, (list, tuple)):
        ks = [tk(x) for x in v]
        return None if None in ks else (type(v).__name__,) + tuple(ks)
    if isinstance(v, dict):
        ks = [(k, tk(x)) for k, x in v.items() if k != "name"]
        return None if any(x is None for _, x in ks) else ("dict",) + tuple(sorted(ks, key=repr))
    if isinstance(v, slice):
        return ("slice", tk(v.start), tk(v.stop), tk(v.step))
    return ("c", repr(v))


class T(Abs):
    """A term: equal terms are equal values."""

    def __init__(self, *k):
        self.k = k

    def key(self):
        return self.k

    def mk(self, *parts):
        ks = [tk(p) for p in parts]
        return Unk("term") if None in ks else T(*ks)

    def attr(self, ev, name, node):
        return T("attr", self.key(), name)

    def call(self, ev, args, kwargs, node):
        return self.mk("call", self, list(args), dict(kwargs))

    def getitem(self, ev, key, node):
        return self.mk("item", self, key)

    def binop(self, ev, op, other, swapped, node):
        return self.mk(op, other, self) if swapped else self.mk(op, self, other)

    def unop(self, ev, op, node):
        return T(op, self.key())

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not") and other is None:
            return op == "is not"
        r = self.mk(op, self, other)
        return r if isinstance(r, Unk) else ev.cond(r.k)

    def contains(self, ev, item, node):
        return self.mk("in", item, self)

    def truth(self, ev, node):
        return ev.cond(self.k)

    def length(self, ev, node):
        return T("len", self.key())

    def iterate(self, ev, node):
        return None

    def __repr__(self):
        return "term"


class Chunk(T):
    """A chunk size of at least 2, smaller than the number of nodes."""

    def __init__(self):
        super().__init__("chunksize")

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (op == "is not") == (other is not self)
        if isinstance(other, (int, float)) and not isinstance(other, bool) and other <= 2:
            if other < 2 or op in (">=", "<"):
                return op in (">", ">=", "!=")
        if isinstance(other, (int, float)) and other == 1 and op in ("<=", "=="):
            return False
        return Unk(op)

    def truth(self, ev, node):
        return True


class Coll(T):
    """A sequence of nodes (or ids)."""

    def __init__(self, *k, of=None, left_out=False):
        super().__init__("seq", *k)
        self.of = of  # the collection it is a piece of
        self.left_out = left_out  # some elements of that collection are surely not in it

    def iterate(self, ev, node):
        return [Elem(self)]

    def getitem(self, ev, key, node):
        if isinstance(key, Pos) and not key.d and key.c.key() == self.key():
            return Elem(self)
        if isinstance(key, slice) and all(x is None or isinstance(x, int) and not isinstance(x, bool) for x in (key.start, key.stop, key.step)):
            a, b, c = key.start, key.stop, key.step
            if not a and b is None and c in (None, 1):
                return self
            if a is None and b is None and c == -1:
                return self.reordered("backwards")
            if c in (None, 1) and (a and b is None or not a and b is not None and b < 0):
                return Coll("part", self.key(), repr(key), of=self, left_out=True)
        return super().getitem(ev, key, node)

    def reordered(self, how):
        return Coll("reordered", how, self.key(), of=self)

    def base(self):
        """The collection this one is a rearrangement of."""
        c = self
        while c.k[1:2] == ("reordered",):
            c = c.of
        return c

    def attr(self, ev, name, node):
        if name in ("copy", "tolist"):
            return Prim(lambda *a: self)
        return super().attr(ev, name, node)

    def __repr__(self):
        return "piece" if self.of is not None else "nodes"


class Elem(T):
    def __init__(self, c):
        super().__init__("elem", c.key())
        self.c = c

    def __repr__(self):
        return f"an element of the {self.c!r}"


class Pos(T):
    def __init__(self, c, d=0):
        super().__init__("pos", c.key(), d)
        self.c, self.d = c, d

    def binop(self, ev, op, other, swapped, node):
        if op in "+-" and isinstance(other, int) and not (swapped and op == "-"):
            return Pos(self.c, self.d + (other if op == "+" else -other))
        return super().binop(ev, op, other, swapped, node)

    def __repr__(self):
        return f"its position {'' if not self.d else '%+d ' % self.d}in the {self.c!r}"


class Pieces(Abs):
    def __init__(self, c):
        self.c = c

    def iterate(self, ev, node):
        return None


class Graph(T):
    def attr(self, ev, name, node):
        def nodemap(ev, a, k, n):
            return Report(a[0], dict(k, **({"mask": a[1]} if len(a) > 1 else {})))

        if name == "vector_to_nodemap":
            return Prim(nodemap)
        if name == "matrix_to_nodenodemap":
            return Prim(lambda ev, a, k, n: MatMap(self, a[0], k))
        if name in ("__iter__", "nodes"):
            return Prim(lambda *a: self.all()) if name == "__iter__" else self.all()
        if name == "list_to_ids":
            return Prim(lambda ev, a, k, n: Coll("ids", tk(a[0])) if tk(a[0]) else Unk("ids"))
        if name == "_keys" or name == "id_to_key":
            return T("keys")
        return T("attr", self.key(), name)

    def all(self):
        return Coll("all", self.key())

    def iterate(self, ev, node):
        return [Elem(self.all())]


class Rows(T):
    """Result of an algorithm."""

    def __init__(self, fn, args):
        self.fn, self.args = fn, args

    def key(self):
        k = tk(self.args)
        return None if k is None else ("result", self.fn, k)

    def attr(self, ev, name, node):
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        return T("attr", self.key(), name) if self.key() else Unk(name)

    def getitem(self, ev, key, node):
        if isinstance(key, tuple) and len(key) == 2 and key[1] == slice(None):
            return Row(self, key[0])
        return Unk("part")

    def binop(self, ev, op, other, swapped, node):
        if op == "|":
            return Union([self, other])
        if op == "&":
            return Inter()
        return Unk(op)

    def iterate(self, ev, node):
        return None


class Row(T):
    def __init__(self, rows, i):
        self.rows, self.i = rows, i

    def key(self):
        a, b = self.rows.key(), tk(self.i)
        return None if a is None or b is None else ("row", a, b)

    def attr(self, ev, name, node):
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        return Unk(name)


class Union(Abs):
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            self.parts += p.parts if isinstance(p, Union) else [p.content] if isinstance(p, Vec) and not isinstance(p.content, Union) else p.content.parts if isinstance(p, Vec) else [p]

    def attr(self, ev, name, node):
        if name in ("new", "dup"):
            return Prim(lambda *a: Vec(self))
        return Unk(name)

    def binop(self, ev, op, other, swapped, node):
        return Union([self, other]) if op == "|" else Unk(op)


class Inter(Abs):
    def attr(self, ev, name, node):
        if name in ("new", "dup"):
            return Prim(lambda *a: Vec(self))
        return Unk(name)


class Empty(Abs):
    pass


class Prev(Abs):
    """What the earlier iterations left."""


class Tiled(T):
    """Results for every piece of a collection."""

    def __init__(self, rows, c):
        self.rows, self.c = rows, c

    def key(self):
        a = self.rows.key()
        return None if a is None else ("tiled", a)


class Vec(Abs):
    """A vector object that is assigned to."""

    def __init__(self, content):
        self.content = content

    def attr(self, ev, name, node):
        if name == "update":
            return Prim(lambda ev, a, k, n: self.set(a[0]))
        if name == "ewise_add":
            return Prim(lambda ev, a, k, n: Union([self, a[0]]))
        if name == "ewise_mult":
            return Prim(lambda ev, a, k, n: Inter())
        if name in ("new", "dup"):
            return Prim(lambda *a: Vec(self.content))
        return Unk(name)

    def set(self, v):
        if isinstance(v, Vec):
            v = v.content
        self.content = v if isinstance(v, (Rows, Row, Union, Inter, Tiled)) else Unk("assigned")
        return None

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            return self.set(other)
        if op == "|":
            return Union([self, other])
        if op == "&":
            return Inter()
        return Unk(op)

    def call(self, ev, args, kwargs, node):
        return Accum(self, args, kwargs)

    def setitem(self, ev, key, value, node):
        self.content = Unk("setitem")


class Accum(Abs):
    """v(accum)"""

    def __init__(self, v, args, kwargs):
        self.v, self.args, self.kwargs = v, args, kwargs

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            if len(self.args) == 1 and not self.kwargs and isinstance(self.args[0], T) and "binary" in repr(self.args[0].k) + "accum" and any(w in repr(self.args[0].k) for w in ("binary", "monoid")):
                return self.v.set(Union([self.v, other]))
            self.v.content = Unk("accum")
            return None
        return Unk(op)

    def setitem(self, ev, key, value, node):
        self.v.content = Unk("accum")


class MatMap(Abs):
    def __init__(self, g, rows, k):
        self.g, self.rows, self.k = g, rows, k

    def attr(self, ev, name, node):
        if name == "items":
            e = Elem(self.g.all())
            return Prim(lambda *a: [(e, Report(Row(self.rows, e) if isinstance(self.rows, Rows) else Unk("rows"), self.k))])
        if name == "keys":
            return Prim(lambda *a: [Elem(self.g.all())])
        return Unk(name)

    def getitem(self, ev, key, node):
        return Report(Row(self.rows, key), self.k)

    def iterate(self, ev, node):
        return [Elem(self.g.all())]


class Report(Abs):
    """vector_to_nodemap(v, **kw)"""

    def __init__(self, v, kw):
        self.v, self.kw = v, kw


class Ev(Mini):
    def cond(self, k):
        if k in self.conds:
            return self.conds[k]
        r = self.choose([True, False], ("cond", repr(k)))
        self.conds[k] = r
        return r

    def stmt(self, s, fr):
        if isinstance(s, ast.For):
            it = self.eval(s.iter, fr)
            if isinstance(it, Pieces):
                return self.pieces(s, it, fr)
            for x in self.items(it, s.iter):
                self.assign(s.target, x, fr)
                try:
                    self.exec(s.body, fr)
                except _Break:
                    if isinstance(it, T):
                        self.early.append(s.lineno)
                    return
                except _Continue:
                    continue
            self.exec(s.orelse, fr)
            return
        return super().stmt(s, fr)

    def pieces(self, s, it, fr):
        c = Coll("piece", it.c.key(), of=it.c)
        self.assign(s.target, c, fr)
        vecs = {x: v for x, v in fr.vars.items() if isinstance(v, Vec)}
        first = {x: v.content for x, v in vecs.items()}
        prev = {x: Prev() for x in vecs}
        for x, v in vecs.items():
            v.content = prev[x]
        before = dict(fr.vars)
        self.loop_pieces.append(c)
        try:
            self.exec(s.body, fr)
        except _Break:
            self.early.append(s.lineno)
        except _Continue:
            pass
        for x, v in vecs.items():
            now = fr.vars.get(x)
            now = now if isinstance(now, Vec) else now
            content = now.content if isinstance(now, Vec) else now
            if content is prev[x]:
                v.content = first[x]
                continue
            if isinstance(content, (Rows, Inter)) and not isinstance(first[x], Unk):
                what = "keeps only what both have" if isinstance(content, Inter) else "replaces what the earlier pieces gave"
                self.problems.append((f"line {s.lineno}: each piece {what} in {x}", s.lineno))
                v.content = Unk("lost")
                self.lost = True
                fr.vars[x] = v
                continue
            if isinstance(content, Union) and any(p is prev[x] for p in content.parts) and isinstance(first[x], Empty):
                rest = [p for p in content.parts if p is not prev[x]]
                if len(rest) == 1 and isinstance(rest[0], Rows):
                    v.content = Tiled(rest[0], it.c)
                    fr.vars[x] = v
                    continue
            v.content = Unk("loop")
            fr.vars[x] = v
        for x, v in before.items():
            if x not in vecs and fr.vars.get(x) is not v and not isinstance(fr.vars.get(x), Coll):
                if isinstance(v, Abs) and not isinstance(v, Unk):
                    fr.vars[x] = Unk("loop")
        self.exec(s.orelse, fr)


class Dom(Domain):
    def __init__(self, splitters):
        self.splitters = splitters

    def ext_attr(self, ev, base, name, node):
        return None

    def ext_call(self, ev, name, args, kwargs, node):
        last = name.split(".")[-1]
        if last in ("Vector",) or name.endswith("Vector.new"):
            return Vec(Empty())
        if "monoid" in name.split(".") and args and isinstance(args[0], (Union, Inter)):
            return args[0]
        if "binary" in name.split(".") and args and isinstance(args[0], (Union, Inter)):
            return args[0]
        ks = tk(list(args)), tk(dict(kwargs))
        if None in ks:
            return Unk(name)
        return T("ext", name, *ks)

    def ext_getitem(self, ev, name, key, node):
        k = tk(key)
        return T("extitem", name, k) if k else Unk(name)

    def intercept(self, ev, f, args, kwargs, node):
        mod, name = f.mod.name, f.name
        if name in self.splitters and ".nxapi" in mod:
            for x in list(args) + list(kwargs.values()):
                if isinstance(x, Coll):
                    return (Pieces(x),)
                if isinstance(x, (T, Unk)) and not isinstance(x, Chunk):
                    return (Unk("pieces"),)
            return (Unk("pieces"),)
        if name == "normalize_chunksize":
            return (ev.route,)
        if name.startswith("to_") and ".classes." in mod:
            k = tk(list(args)), tk(dict(kwargs))
            return (Graph("graph", name, *k),) if None not in k else (Unk(name),)
        if ".algorithms" in mod and mod.split(".")[1:2] == ["algorithms"]:
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            b = dict(zip(names, args))
            b.update(kwargs)
            dfl = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
            dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, f.kwdefaults)})
            for n, d in dfl.items():
                if n in b and tk(b[n]) == tk(d):
                    del b[n]
            b.pop("name", None)
            return (Rows(name, b),)
        return None

    def decorate(self, ev, f, dec, fr):
        return f

    def length(self, ev, v, node):
        return None

    def range(self, ev, args, node):
        if len(args) == 1 and isinstance(args[0], T) and args[0].k[:1] == ("len",):
            c = [x for x in ev.seen if x.key() == args[0].k[1]]
            if c:
                return [Pos(c[0])]
        return None


def elems(x):
    return x.iterate(None, None) if isinstance(x, (Coll, Graph)) else None


def _enum(ev, a, k, n):
    if isinstance(a[0], Graph):
        a = [a[0].all()] + list(a[1:])
    if isinstance(a[0], Coll):
        d = a[1] if len(a) > 1 else k.get("start", 0)
        return [(Pos(a[0], d), Elem(a[0]))] if isinstance(d, int) else Unk("enumerate")
    return list(enumerate(ev.items(a[0], n), *(a[1:] or ())))


def _list(ev, a, k, n):
    if a and isinstance(a[0], Graph):
        return a[0].all()
    if a and isinstance(a[0], Coll):
        return a[0]
    if a and isinstance(a[0], Pieces):
        return a[0]
    return BASE["list"].f(ev, a, k, n)


def _reorder(name):
    def f(ev, a, k, n):
        c = a[0] if a else None
        if isinstance(c, Graph):
            c = c.all()
        if isinstance(c, Coll):
            return c.reordered(name if not k else f"{name} {sorted((x, repr(y)) for x, y in k.items())}")
        return BASE[name].f(ev, a, k, n) if name in BASE else Unk(name)

    return f


def _len(ev, a, k, n):
    if a and isinstance(a[0], Coll):
        ev.seen.append(a[0])
        return T("len", a[0].key())
    if a and isinstance(a[0], Graph):
        return T("len", a[0].key())
    return BASE["len"].f(ev, a, k, n)


BASE = {}


def denote(ev, item, problems, where):
    """(key, map) pair -> (family, other arguments, report options), or None"""
    x, rep = item
    if not isinstance(rep, Report):
        return None
    kw = tk(rep.kw)
    r = rep.v
    if kw is None or not isinstance(r, (Row, Rows)):
        return None
    rows = r.rows if isinstance(r, Row) else r
    if not isinstance(rows, Rows) or rows.fn not in FAMILY:
        return None
    args = dict(rows.args)
    g = args.pop("G", None)
    nodes = [args.pop(n, None) for n in NODES]
    nodes = next((n for n in nodes if n is not None), None)
    ones = [args.pop(n, None) for n in ONE]
    one = next((n for n in ones if n is not None), None)
    expand = args.pop("expand_output", False)
    if not isinstance(x, Elem) or not isinstance(g, Graph):
        return None
    src = None
    if one is not None:
        if isinstance(r, Row):
            return None
        src = one
    elif isinstance(r, Row):
        if nodes is None or expand is True:
            src = r.i  # rows are numbered like the nodes
            if isinstance(src, Pos) and not src.d and src.c.k[1:2] == ("all",):
                src = Elem(src.c)
        elif isinstance(nodes, Coll):
            if isinstance(r.i, Pos) and not r.i.d and r.i.c.key() == nodes.key():
                src = Elem(nodes)
            elif isinstance(r.i, Pos) and not r.i.d and r.i.c.base().key() == nodes.base().key():
                problems.append((f"line {where}: the rows are in one order of the {nodes.base()!r}, read in another", where))
                return "bad"
            elif isinstance(r.i, (Pos, Elem)):
                src = r.i
            else:
                return None
        else:
            return None
    if not isinstance(src, T):
        return None
    if src.key() != x.key():
        problems.append((f"line {where}: the row of {src!r} is reported under {x!r}", where))
        return "bad"
    # what the elements range over
    c = x.c
    while c.of is not None:
        if c.left_out:
            problems.append((f"line {where}: some elements of the {c.of!r} are not reported", where))
            return "bad"
        c = c.of
    if c.k[1:2] != ("all",):
        return None
    a = tk(args)
    return None if a is None else (FAMILY[rows.fn], g.key(), a, kw)


def cover(ev, rep):
    """A single map: (family, nodes computed, other arguments, options)"""
    kw = tk(rep.kw)
    v = rep.v
    if isinstance(v, Vec):
        v = v.content
    part = None
    if isinstance(v, Tiled):
        part, v = v.c, v.rows
    if not isinstance(v, Rows) or v.fn not in FAMILY or kw is None:
        return None
    args = dict(v.args)
    g = args.pop("G", None)
    nodes = [args.pop(n, None) for n in NODES]
    nodes = next((n for n in nodes if n is not None), None)
    ones = [args.pop(n, None) for n in ONE]
    one = next((n for n in ones if n is not None), None)
    a = tk(args)
    if a is None or not isinstance(g, Graph):
        return None
    if part is not None:
        if nodes is None or isinstance(nodes, Coll) and nodes.key() == part.key():
            return ("bad", "every piece computes everything")
        if not isinstance(nodes, Coll) or nodes.of is None or nodes.of.key() != part.key():
            return None
        nodes = part
    if one is not None:
        over = ("one", tk(one))
    elif nodes is None:
        over = ("all",)
    elif isinstance(nodes, Coll):
        over = nodes.key()
        if nodes.k[1:2] == ("all",) or nonempty(nodes.k, g):
            over = ("all",)
    else:
        over = tk(nodes)
        if over is None or nonempty(over, g):
            over = ("all",) if over is not None else None
    if over is None:
        return None
    return (FAMILY[v.fn], g.key(), over, a, kw)


def nonempty(k, g):
    """The ids of the rows that have entries: the others contribute nothing."""
    s = repr(k)
    return "reduce_rowwise" in s and "to_coo" in s or "reduce_columnwise" in s and "to_coo" in s and "undirected" in repr(g.key())


def functions(ev):
    out = []
    for path in sorted((ev.root / "graphblas_algorithms" / "nxapi").rglob("*.py")):
        if "tests" in path.parts:
            continue
        rel = path.relative_to(ev.root).with_suffix("")
        name = ".".join(rel.parts)
        m = ev.module(name[: -len(".__init__")] if name.endswith(".__init__") else name)
        if m is None:
            continue
        for d in m.tree.body:
            if isinstance(d, ast.FunctionDef) and not d.name.startswith("_") and d.name != "normalize_chunksize":
                ps = [a.arg for a in d.args.posonlyargs + d.args.args + d.args.kwonlyargs]
                if "chunksize" in ps and "G" in ps:
                    out.append((m, d, ps))
    return out


def to_coo_fix(ev):
    """`ids, values = X.to_coo()` unpacks into a collection of ids and the values."""


class CooT(T):
    pass


def _t_call(self, ev, args, kwargs, node):
    k = self.key()
    if k[0] == "attr" and k[2] == "to_coo":
        r = self.mk("call", self, list(args), dict(kwargs))
        if isinstance(r, Unk):
            return r
        return (Coll("coo", r.k), T("coo values", r.k))
    return self.mk("call", self, list(args), dict(kwargs))


T.call = _t_call


def evaluate(ev, f, ps, nodesval):
    ev.conds, ev.problems, ev.early, ev.loop_pieces, ev.seen, ev.lost = {}, [], [], [], [], False
    args = {}
    for p in ps:
        args[p] = T("param", p)
    if "nodes" in ps:
        args["nodes"] = nodesval
    try:
        return ev.call(f, [], args, None)
    except MRaise as e:
        return ("raise", e.exc)
    except TooDeep:
        ev.tainted = True
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError):
        if os.environ.get("C20_DEBUG"):
            raise
        ev.tainted = True
    return None


def run(rep, names):
    BASE.update({k: BUILTINS[k] for k in ("list", "len", "enumerate", "tuple", "sorted", "set", "reversed") if k in BUILTINS})
    saved = dict(BUILTINS)
    BUILTINS.update(list=Prim(_list, "list"), tuple=Prim(_list, "tuple"), len=Prim(_len), enumerate=Prim(_enum), **{x: Prim(_reorder(x), x) for x in ("sorted", "set", "reversed", "frozenset")})
    try:
        ev = Ev(rep.repo, Dom(names))
        for m, d, ps in functions(ev):
            function(rep, ev, m, d, ps)
    finally:
        BUILTINS.clear()
        BUILTINS.update(saved)
    rep.floor("chunked", 1)


def function(rep, ev, m, d, ps):
    f = ev.module_name(m, d.name)
    if not isinstance(f, MFunc):
        return
    rep.functions.add((m.name, d.name))
    rep.ob("chunked", f"{m.name}.{d.name}")
    where = [f"{m.path.name}:{d.lineno} in {d.name}"]
    gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(d))
    for nodesval in ([None, T("param", "nodes")] if "nodes" in ps else [None]):
        outs = []
        for rn, route in (("all at once", None), ("one at a time", 1), ("in chunks", Chunk())):
            ev.route = route
            for res in ev.paths(lambda: evaluate(ev, f, ps, nodesval), 400):
                if ev.tainted and not ev.lost:
                    rep.notes.append(f"{d.name} {rn}: a path is not decided")
                    continue
                for msg, line in ev.problems:
                    rep.viol("accumulate", f"{d.name} {msg.split(': ', 1)[-1]}", msg, where)
                if ev.lost or isinstance(res, tuple) and res[:1] == ("raise",) or ev.early:
                    continue
                probs = []
                den = None
                if isinstance(res, list) and gen:
                    if len(res) == 1 and isinstance(res[0], tuple) and len(res[0]) == 2:
                        den = denote(ev, res[0], probs, d.lineno)
                elif isinstance(res, Report):
                    den = cover(ev, res)
                    if den is not None and den[0] == "bad":
                        probs.append((den[1], d.lineno))
                        den = "bad"
                for msg, line in probs:
                    rep.viol("row", f"{d.name} {rn}: {msg.split(': ', 1)[-1]}", f"{d.name} {rn}: {msg}", where)
                if den == "bad":
                    continue
                if den is not None:
                    rep.ob("route", f"{d.name}({'nodes' if nodesval is not None else ''}) {rn}")
                    outs.append((rn, dict(ev.conds), den))
        for i, (r1, c1, d1) in enumerate(outs):
            for r2, c2, d2 in outs[i + 1:]:
                if r1 == r2 or any(c2.get(k, v) != v for k, v in c1.items()):
                    continue
                diff = [n for n, x, y in zip(("algorithm", "graph", "nodes", "arguments", "options") if len(d1) == 5 else ("algorithm", "graph", "arguments", "options"), d1, d2) if x != y]
                rep.check(not diff, "same-answer", f"{d.name}: {r1} / {r2}", f"{d.name}: computed {r1} and {r2} differ in {', '.join(diff)}: {[x for x, y in zip(d1, d2) if x != y]} vs {[y for x, y in zip(d1, d2) if x != y]}", where)
