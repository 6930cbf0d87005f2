"""C21: conversions keep every node and edge or refuse.

The conversion functions are evaluated (nothing is executed) on abstract graphs.  Sequences are abstracted to a first and
a later element, entry sets to one entry per region (below, on, above the diagonal), keys, values and attribute names are
symbols.  Every combination of the preservation options is one evaluation; its outcome (exception, or class, nodes, edge
attribute and graph attributes of the result) is judged against the specification.
"""
from __future__ import annotations

from ..mini import Abs, Domain, Ext, Keys, MClass, MInst, Mini, MRaise, Prim, TooDeep, Unk

KINDS = {"Graph": (False, False), "DiGraph": (True, False), "MultiGraph": (False, True), "MultiDiGraph": (True, True)}
SUPER = {"Graph": {"Graph"}, "DiGraph": {"Graph", "DiGraph"}, "MultiGraph": {"Graph", "MultiGraph"}, "MultiDiGraph": {"Graph", "DiGraph", "MultiGraph", "MultiDiGraph"}}
REFUSALS = {"NotImplementedError", "TypeError", "NetworkXNotImplemented"}
IO = "graphblas.io."


class Sym(Abs):
    """An opaque value; different symbols are different values."""

    def __init__(self, name, eq_int=None):
        self.name = name

    def compare(self, ev, op, other, swapped, node):
        if op in ("==", "is", "!=", "is not") and not isinstance(other, Unk):
            return (other is self) == (op in ("==", "is"))
        return Unk(op)

    def truth(self, ev, node):
        return True

    def attr(self, ev, name, node):
        if name in ("item", "tolist"):
            return Prim(lambda *a: self)
        return Unk(name)

    def __repr__(self):
        return self.name


class View(list):
    pass


class Seq(Abs):
    """A re-iterable view (dict view, mapping) with given elements; callable forms give variants."""

    def __init__(self, elems, attrs=None, called=None, get=None):
        self.elems, self.attrs, self.called, self.get = elems, attrs or {}, called, get

    def iterate(self, ev, node):
        return list(self.elems)

    def length(self, ev, node):
        return len(self.elems)

    def truth(self, ev, node):
        return bool(self.elems)

    def contains(self, ev, item, node):
        return item in self.elems

    def call(self, ev, args, kwargs, node):
        if self.called is None:
            return Unk("call")
        return self.called(args, kwargs)

    def attr(self, ev, name, node):
        if name in self.attrs:
            v = self.attrs[name]
            return v if isinstance(v, Abs) else Prim(lambda *a: v())
        return Unk(name)

    def getitem(self, ev, key, node):
        if self.get is not None and key in self.get:
            return self.get[key]
        return Unk("[]")


def mapping(d):
    return Seq(list(d), {"keys": lambda: Keys(d), "values": lambda: list(d.values()), "items": lambda: Keys(d.items())}, None, dict(d))


class NX(Abs):
    """A NetworkX graph; n nodes (its first and a later one), edge and node attribute names spread over its parts."""

    def __init__(self, kind, edge_names=(), node_names=(), n=2):
        self.kind = kind
        self.nodes = [Sym(f"node {i}") for i in range(n)]
        en = list(edge_names)
        nd = list(node_names)
        # the names appear late: in the last node's, the last neighbour's, the last parallel edge's data
        data = {}
        self.edge_data = []
        for i, u in enumerate(self.nodes):
            row = {}
            for j, v in enumerate(self.nodes):
                last = i == j == n - 1
                first = {en[0]: Sym("val")} if len(en) > 1 else {}
                later = {x: Sym("val") for x in en[-1:]} if last else first
                if KINDS.get(kind, (0, 0))[1]:
                    row[v] = mapping({0: first, 1: later})
                    self.edge_data += [(u, v, 0, first), (u, v, 1, later)]
                else:
                    row[v] = later
                    self.edge_data.append((u, v, None, later))
            data[u] = mapping(row)
        self.adj = mapping(data)
        nodedata = {u: ({x: Sym("val") for x in nd[-1:]} if i == n - 1 else {x: Sym("val") for x in nd[:-1]}) for i, u in enumerate(self.nodes)}
        self.node_view = mapping(nodedata)
        pairs = [(u, d) for u, d in nodedata.items()]
        self.node_view.called = lambda a, k: Seq(pairs) if (a and a[0] is True) or k.get("data") is True else Unk("nodes") if a or k else Seq(self.nodes)
        self.node_view.attrs["data"] = Prim(lambda ev, a, k, n: Seq(pairs))
        multi = KINDS.get(kind, (0, 0))[1]

        def edges(a, k):
            dat = k.get("data", a[0] if a and isinstance(a[0], bool) else None)
            keys = k.get("keys", False) and multi
            if dat not in (True, False, None) or isinstance(dat, Abs):
                return Unk("edges")
            return Seq([(u, v) + ((e,) if keys else ()) + ((d,) if dat is True else ()) for u, v, e, d in self.edge_data])

        self.edge_view = Seq([(u, v) for u, v, _, _ in self.edge_data], {"data": Prim(lambda ev, a, k, n: edges([True], k))}, edges)
        self.gattr = Gattr()

    def iterate(self, ev, node):
        return list(self.nodes)

    def length(self, ev, node):
        return len(self.nodes)

    def truth(self, ev, node):
        return bool(self.nodes)

    def contains(self, ev, item, node):
        return item in self.nodes

    def attr(self, ev, name, node):
        if name in ("_adj", "adj", "_succ", "succ"):
            return self.adj
        if name in ("nodes", "_node"):
            return self.node_view
        if name == "edges":
            return self.edge_view
        if name == "adjacency":
            return Prim(lambda ev, a, k, n: [(u, self.adj.get[u]) for u in self.nodes])
        if name == "graph":
            return self.gattr
        if name in ("is_directed", "is_multigraph"):
            if self.kind not in KINDS:
                raise MRaise("AttributeError", node)
            v = KINDS[self.kind][name == "is_multigraph"]
            return Prim(lambda *a: v)
        if name in ("number_of_nodes", "order", "__len__"):
            return Prim(lambda *a: len(self.nodes))
        return Unk(name)

    def getitem(self, ev, key, node):
        return self.adj.getitem(ev, key, node)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not", "==", "!="):
            return (other is self) == (op in ("is", "=="))
        return Unk(op)


class Gattr(Abs):
    """The graph attribute dictionary of the source."""

    def attr(self, ev, name, node):
        if name in ("copy", "items"):
            return Prim(lambda *a: self)
        return Unk(name)

    def truth(self, ev, node):
        return True


class GDict(Abs):
    """The graph attribute dictionary of a result."""

    def __init__(self):
        self.got = []

    def attr(self, ev, name, node):
        if name in ("update", "__ior__"):
            return Prim(lambda ev, a, k, n: self.got.extend(a))
        return Unk(name)

    def binop(self, ev, op, other, swapped, node):
        if op == "|" and not swapped:
            self.got.append(other)
            return self
        return Unk(op)

    def setitem(self, ev, key, value, node):
        pass

    def truth(self, ev, node):
        return bool(self.got)

    def length(self, ev, node):
        return len(self.got)


class NXMat(Abs):
    """The matrix of a NetworkX graph: which nodes in which order, which attribute, which dtype."""

    def __init__(self, g, order, weight, dtype):
        self.g, self.order, self.weight, self.dtype = g, order, weight, dtype

    def attr(self, ev, name, node):
        if name in ("nrows", "ncols"):
            return len(self.order) if self.order is not None else Unk(name)
        if name == "shape":
            return (len(self.order),) * 2 if self.order is not None else Unk(name)
        return Unk(name)


class Mat(Abs):
    """The adjacency matrix of a repository graph: {(row, column): value}."""

    def __init__(self, entries, n):
        self.entries, self.n = entries, n

    def attr(self, ev, name, node):
        if name in ("nrows", "ncols"):
            return self.n
        if name == "nvals":
            return len(self.entries)
        if name == "T":
            return Mat({(j, i): v for (i, j), v in self.entries.items()}, self.n)
        if name in ("new", "dup"):
            return Prim(lambda *a: self)
        if name == "to_coo":
            return Prim(self.to_coo)
        if name in ("to_edgelist",):
            return Unk(name)
        return Unk(name)

    def to_coo(self, ev, args, k, node):
        names = ["rows", "columns", "values"]
        for n, v in zip(names[:0], args):
            k = dict(k, **{n: v})
        items = list(self.entries.items())
        pick = {"rows": [i for (i, j), _ in items], "columns": [j for (i, j), _ in items], "values": [v for _, v in items]}
        return tuple(Arr(pick[n]) if k.get(n, True) is True else None for n in names)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (other is self) == (op == "is")
        return Unk(op)


class Arr(Abs):
    def __init__(self, xs):
        self.xs = xs

    def iterate(self, ev, node):
        return list(self.xs)

    def length(self, ev, node):
        return len(self.xs)

    def attr(self, ev, name, node):
        if name == "tolist":
            return Prim(lambda *a: list(self.xs))
        if name in ("size",):
            return len(self.xs)
        if name in ("copy", "astype"):
            return Prim(lambda *a: self)
        return Unk(name)

    def getitem(self, ev, key, node):
        if isinstance(key, int) and -len(self.xs) <= key < len(self.xs):
            return self.xs[key]
        return Unk("[]")


class Out(Abs):
    """A NetworkX graph being built."""

    def __init__(self, kind):
        self.kind, self.nodes, self.edges, self.unclear = kind, [], [], None
        self.gattr = GDict()

    def truth(self, ev, node):
        return bool(self.nodes)

    def attr(self, ev, name, node):
        if name == "graph":
            return self.gattr
        f = getattr(self, "do_" + name, None)
        if f is not None:
            return Prim(f)
        self.unclear = name
        return Unk(name)

    def node(self, x):
        if isinstance(x, (list, tuple)):
            x = x[0]
        if x not in self.nodes:
            self.nodes.append(x)

    def edge(self, u, v, data):
        for x in (u, v):
            self.node(x)
        self.edges.append((u, v, data))

    def do_add_node(self, ev, a, k, n):
        self.node(a[0])

    def do_add_nodes_from(self, ev, a, k, n):
        for x in ev.items(a[0], n):
            self.node(x)

    def do_add_edge(self, ev, a, k, n):
        self.edge(a[0], a[1], dict(k))

    def do_add_edges_from(self, ev, a, k, n):
        for e in ev.items(a[0], n):
            if not isinstance(e, tuple) or len(e) < 2:
                self.unclear = "edges"
                continue
            d = dict(k)
            if len(e) > 2:
                if isinstance(e[-1], dict):
                    d.update(e[-1])
                else:
                    self.unclear = "edge data"
            self.edge(e[0], e[1], d)

    def do_add_weighted_edges_from(self, ev, a, k, n):
        w = k.get("weight", a[1] if len(a) > 1 else "weight")
        for e in ev.items(a[0], n):
            if not isinstance(e, tuple) or len(e) != 3 or isinstance(w, Abs) and not isinstance(w, Sym):
                self.unclear = "weighted edges"
                continue
            self.edge(e[0], e[1], {w: e[2]})


REGION = {"A": "LDU", "AT": "LDU", "L+": "LD", "L-": "L", "U+": "DU", "U-": "U", "offdiag": "LU"}


def region(i, j):
    return "D" if i == j else "L" if i > j else "U"


class D(Domain):
    def ext_attr(self, ev, base, name, node):
        return None

    def ext_call(self, ev, name, args, kwargs, node):
        short = name.split(".")[-1]
        if name.startswith("networkx.") and short in KINDS and not args and not kwargs:
            return Out(short)
        if name in ("networkx.to_scipy_sparse_array", "networkx.to_scipy_sparse_matrix", "networkx.adjacency_matrix", "networkx.to_numpy_array", IO + "from_networkx", "gb.io.from_networkx"):
            names = ["G", "nodelist", "dtype", "weight"]
            k = dict(zip(names, args), **{x: v for x, v in kwargs.items()})
            g = k.get("G")
            if not isinstance(g, NX):
                return Unk(short)
            order = k.get("nodelist")
            order = list(g.nodes) if order is None else ev.items(order, node)
            return NXMat(g, order, k.get("weight", "weight"), k.get("dtype"))
        if short in ("from_scipy_sparse", "from_dense", "from_numpy") and args and isinstance(args[0], NXMat):
            return args[0]
        if short == "ensure_type":
            if isinstance(args[0], (NX, MInst)):
                raise MRaise("TypeError", node)
            return args[0]
        if short in ("tril", "triu", "offdiag", "diag") and "select" in name and args and isinstance(args[0], Mat):
            th = args[1] if len(args) > 1 else kwargs.get("thunk", 0)
            if not isinstance(th, int):
                return Unk(name)
            m = args[0]
            f = {"tril": lambda i, j: j - i <= th, "triu": lambda i, j: j - i >= th, "diag": lambda i, j: j - i == th, "offdiag": lambda i, j: j - i != th}[short]
            return Mat({(i, j): v for (i, j), v in m.entries.items() if f(i, j)}, m.n)
        if short in ("to_scipy_sparse",) and args:
            return Conv("sparse", args[0], None)
        if short == "to_numpy" and args:
            return Conv("dense", args[0], None)
        if name == "graphblas.Matrix":
            return NXMat(None, [], None, args[0] if args else None)
        if short in ("deepcopy", "copy") and args:
            return args[0]
        return Unk(name)

    def isinstance(self, ev, v, t, node):
        if isinstance(v, (NX, MInst, Mat, RMat, Other)):
            out = []
            for x in t if isinstance(t, tuple) else (t,):
                if isinstance(v, MInst):
                    out.append(x.name in v.cls.mro_names(ev) if isinstance(x, MClass) else False)
                elif isinstance(x, MClass):
                    out.append(False)
                elif isinstance(x, Ext):
                    s = x.name.split(".")
                    if isinstance(v, NX):
                        out.append(s[0] == "networkx" and s[-1] in SUPER.get(v.kind, ()))
                    elif isinstance(v, Other):
                        out.append(False)
                    else:
                        out.append(x.name in ("graphblas.Matrix", "graphblas.core.matrix.Matrix"))
                else:
                    return None
            return any(out)
        return None

    def intercept(self, ev, f, args, kwargs, node):
        if f.name == "get_property" and len(args) >= 2 and isinstance(args[0], MInst) and isinstance(args[0].attrs.get("_A"), Mat):
            if args[1] in REGION:
                m = args[0].attrs["_A"]
                if args[1] == "AT":
                    m = Mat({(j, i): v for (i, j), v in m.entries.items()}, m.n)
                return (Mat({k: v for k, v in m.entries.items() if region(*k) in REGION[args[1]]}, m.n),)
            return (Unk("property"),)
        if f.name == "get_properties" and len(args) >= 2 and isinstance(args[0], MInst) and isinstance(args[0].attrs.get("_A"), Mat):
            names = args[1].replace(",", " ").split() if isinstance(args[1], str) else list(args[1])
            return ([self.intercept(ev, type("F", (), {"name": "get_property"}), [args[0], x], {}, node)[0] for x in names],)
        return None

    def unknown_order(self, ev, xs):
        """sorted(): some order, not that of the source."""
        return list(reversed(xs))

    def instantiate(self, ev, cls, args, kwargs, node):
        i = super().instantiate(ev, cls, args, kwargs, node)
        if isinstance(i.attrs.get("graph"), dict) and not i.attrs["graph"]:
            i.attrs["graph"] = GDict()
        return i


class Conv(Abs):
    def __init__(self, how, src, fill):
        self.how, self.src, self.fill = how, src, fill


class RMat(Abs):
    """A matrix result."""

    def attr(self, ev, name, node):
        if name == "to_dense":
            return Prim(lambda ev, a, k, n: Conv("dense", self, a[0] if a else k.get("fill_value")))
        if name in ("dup", "new"):
            return Prim(lambda *a: self)
        if name in ("nvals", "nrows", "ncols"):
            return Unk(name)
        return Unk(name)


class Other(Abs):
    """A result that is neither a graph nor a matrix."""

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (other is self) == (op == "is")
        return Unk(op)


class Ev(Mini):
    pass


SPARSE = ("adjacency_matrix", "bethe_hessian_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "tournament_matrix")
DENSE = ("directed_modularity_matrix", "floyd_warshall_numpy", "google_matrix", "modularity_matrix")


def run(rep):
    rep.explanation = "Abstract evaluation of the conversion functions, one evaluation per graph kind and option combination; outcome (refusal, or class/nodes/attribute/graph attributes/edges) compared with the specification."
    rep.assumptions += ["graphblas.io.from_networkx(G, nodelist, weight, dtype) and networkx.to_scipy_sparse_array follow their documentation", "graph properties mean what property C03 establishes"]
    ev = Ev(rep.repo, D())
    from_nx(rep, ev)
    graphs(rep, ev)
    to_nx(rep, ev)
    results(rep, ev)
    rep.functions |= ev.funcs
    if ev.unknown:
        rep.unknown["values not modelled"] = ev.unknown
    rep.floor("convert-from", 60)
    rep.floor("to-graph", 8)
    rep.floor("convert-to", 4)
    rep.floor("result", 4)


def static(ev, name):
    cls = ev.module_name(ev.module("graphblas_algorithms.interface"), "Dispatcher")
    f = cls.attr(ev, name, None)
    return f


def outcomes(ev, thunk):
    """Every path's (exception or None, result, tainted)."""
    def one():
        try:
            return None, thunk(), ev.tainted
        except MRaise as e:
            return e.exc, None, ev.tainted
        except (TooDeep, RecursionError):
            return None, None, True

    yield from ev.paths(one, limit=200)


W = object()


def options():
    """(label, kwargs, edge names, node names, expected weight or None, refusal required, conversion required)"""
    one, two = {"a": None}, {"a": None, "b": None}
    out = []
    edge = [("no edge options", {}, (), None, False, True)]
    for e in ((), ("a",), ("a", "b")):
        edge.append((f"preserve_edge_attrs with {len(e)} attribute(s)", {"preserve_edge_attrs": True}, e, e[0] if len(e) == 1 else None if not e else W, len(e) > 1, len(e) < 2))
    for d in (None, 1, 1.0):
        edge.append((f"edge_attrs={{'w': {d}}}", {"edge_attrs": {"w": d}}, (), "w", False, True))
    for d in (0, 0.0, 2, -1, "x", Sym("default"), False):
        edge.append((f"edge_attrs={{'w': {d!r}}}", {"edge_attrs": {"w": d}}, (), W, True, False))
    edge.append(("two edge_attrs", {"edge_attrs": dict(two)}, (), W, True, False))
    edge.append(("two edge_attrs, weight", {"edge_attrs": dict(two), "weight": "w"}, (), W, True, False))
    edge.append(("weight='w'", {"weight": "w"}, (), "w", False, True))
    edge.append(("edge_attrs and weight", {"edge_attrs": {"w": None}, "weight": "v"}, (), W, True, False))
    edge.append(("empty edge_attrs", {"edge_attrs": {}}, (), None, False, True))
    edge.append(("empty edge_attrs, weight='w'", {"edge_attrs": {}, "weight": "w"}, (), "w", False, True))
    node = [("", {}, (), False), ("node_attrs={'c': None}", {"node_attrs": {"c": None}}, (), True), ("node_attrs={'c': 0}", {"node_attrs": {"c": 0}}, ("c",), True), ("preserve_node_attrs, none there", {"preserve_node_attrs": True}, (), False), ("preserve_node_attrs", {"preserve_node_attrs": True}, ("c",), True), ("unrequested node attributes", {}, ("c",), False)]
    for el, ek, en, w, er, em in edge:
        for nl, nk, nn, nr in node:
            for ga in (False, True):
                if ga and nl and el != "no edge options":
                    continue
                k = dict(ek, **nk)
                if ga:
                    k["preserve_graph_attrs"] = True
                out.append((", ".join(x for x in (el, nl, "preserve_graph_attrs" if ga else "") if x), k, en, nn, w, er or nr, em and not nr, ga))
    # attributes that are there but not asked for
    out.append(("unrequested edge attributes", {}, ("a", "b"), (), None, False, True, False))
    out.append(("unrequested attribute named weight", {}, ("weight",), (), None, False, True, False))
    out.append(("names given", {"name": "f", "graph_name": "G", "weight": "w"}, (), (), "w", False, True, False))
    return out


def judge(rep, rule, label, kind, g, res, weight, dtype=None):
    """A converted graph: class, nodes, attribute."""
    base = f"{label}, {kind}"
    if isinstance(res, Unk) or res is None and False:
        return False
    if not isinstance(res, MInst):
        rep.viol(rule, f"{base}: result", f"a {kind} is converted to {res!r}", ["interface.py / classes"])
        return True
    if res.cls.name != kind:
        rep.viol(rule, f"{base}: class", f"a NetworkX {kind} becomes a {res.cls.name}", ["interface.py / classes"])
    ids = res.attrs.get("_key_to_id")
    A = res.attrs.get("_A")
    if not isinstance(ids, dict):
        return False
    if list(ids.items()) != list(zip(g.nodes, range(len(g.nodes)))):
        rep.viol(rule, f"{base}: nodes", f"nodes and numbers {ids} are not the nodes of the source in order", ["classes/_utils.py"])
    if isinstance(A, NXMat) and A.g is None:
        if g.nodes:
            rep.viol(rule, f"{base}: edges", "the edges are not converted", ["classes/_utils.py"])
        return True
    if not isinstance(A, NXMat):
        return False
    if A.g is not g:
        return False
    if A.order is not None and A.order != g.nodes:
        rep.viol(rule, f"{base}: order", "rows of the matrix are not in the order of the nodes", ["classes/_utils.py"])
    if isinstance(A.weight, Unk):
        return False
    if A.weight != weight:
        rep.viol(rule, f"{base}: attribute", f"edges carry the attribute {A.weight!r}, requested was {weight!r}", ["interface.py / classes"])
    if dtype is not None and not isinstance(A.dtype, Unk) and A.dtype is not dtype:
        rep.viol(rule, f"{base}: dtype", f"dtype {A.dtype!r} instead of the requested one", ["classes"])
    return True


def from_nx(rep, ev):
    f = static(ev, "convert_from_nx")
    for label, kw, en, nn, weight, refuse, must, ga in options():
        for kind in list(KINDS) + ["other"]:
            for n in (2, 0):
                if n == 0 and (en or nn):
                    continue
                g = None

                def thunk():
                    nonlocal g
                    g = NX(kind, en, nn, n)
                    k = {a: (dict(v) if isinstance(v, dict) else v) for a, v in kw.items()}
                    return ev.call(f, [g], k, None)

                for exc, res, tainted in outcomes(ev, thunk):
                    if tainted:
                        rep.unknown["paths not decided"] = rep.unknown.get("paths not decided", 0) + 1
                        continue
                    base = f"{label}, {kind}"
                    where = ["graphblas_algorithms/interface.py convert_from_nx"]
                    if exc is not None:
                        rep.ob("convert-from", f"{base}: {exc}")
                        if exc not in REFUSALS and not (kind == "other" and exc == "AttributeError"):
                            rep.viol("convert-from", f"{base}: error", f"neither converted nor refused: {exc}", where)
                        elif must and kind != "other":
                            rep.viol("convert-from", f"{base}: refused", f"conversion refused ({exc}) although nothing unsupported is asked for", where)
                        continue
                    if kind == "other" or refuse and not (n == 0 and ("preserve" in label)):
                        rep.ob("convert-from", base)
                        what = "an object that is no NetworkX graph is converted" if kind == "other" else "neither honoured nor refused"
                        rep.viol("convert-from", f"{base}: option", what, where)
                        continue
                    if judge(rep, "convert-from", label, kind, g, res, weight if weight is not W else None):
                        rep.ob("convert-from", base)
                    if ga and isinstance(res, MInst):
                        d = res.attrs.get("graph")
                        if isinstance(d, GDict):
                            rep.check(g.gattr in d.got, "convert-from", f"{base}: graph attributes", "graph attributes are not preserved", where)


def graphs(rep, ev):
    dm, gm = "graphblas_algorithms.classes.digraph", "graphblas_algorithms.classes.graph"
    wt, dt = Sym("weight name"), Sym("dtype")
    for mod, name, wants in ((dm, "to_graph", (False, True)), (dm, "to_directed_graph", (True,)), (gm, "to_undirected_graph", (False,))):
        m = ev.module(mod)
        f = ev.module_name(m, name) if m is not None else Unk(name)
        for kind in list(KINDS) + ["other"]:
            for kw in ({}, {"weight": wt}, {"weight": wt, "dtype": dt}, {"dtype": dt}):
                for n in (2, 0):
                    g = NX(kind, (), (), n)
                    label = f"{name}({', '.join(kw)})"
                    for exc, res, tainted in outcomes(ev, lambda: ev.call(f, [g], dict(kw), None)):
                        if tainted:
                            rep.unknown["paths not decided"] = rep.unknown.get("paths not decided", 0) + 1
                            continue
                        ok = kind in KINDS and KINDS[kind][0] in wants
                        where = [f"{mod.replace('.', '/')}.py {name}"]
                        if exc is not None:
                            rep.check(not ok and exc in REFUSALS, "to-graph", f"{label}, {kind}: {exc}", f"{exc} for a NetworkX {kind}", where)
                        elif not ok:
                            rep.ob("to-graph", f"{label}, {kind}")
                            rep.viol("to-graph", f"{label}, {kind}: accepted", f"a NetworkX {kind} is accepted", where)
                        elif judge(rep, "to-graph", label, kind, g, res, kw.get("weight"), kw.get("dtype") if n else None):
                            rep.ob("to-graph", f"{label}, {kind}")
        # repository graphs
        for kind in KINDS:
            G = instance(ev, kind)[0]
            for exc, res, tainted in outcomes(ev, lambda: ev.call(f, [G], {"weight": wt}, None)):
                if tainted or isinstance(G, Unk):
                    continue
                ok = KINDS[kind][0] in wants
                where = [f"{mod.replace('.', '/')}.py {name}"]
                if exc is not None:
                    rep.check(not ok and exc in REFUSALS, "to-graph", f"{name}, own {kind}: {exc}", f"{exc} for a {kind}", where)
                elif not ok:
                    rep.ob("to-graph", f"{name}, own {kind}")
                    rep.viol("to-graph", f"{name}, own {kind}: accepted", f"a {kind} is accepted", where)
                else:
                    rep.check(res is G, "to-graph", f"{name}, own {kind}", f"a {kind} is not returned as it is", where)


def instance(ev, kind):
    """A repository graph: nodes 0..3, an entry in every region, an isolated node; returns (graph, keys, edges)."""
    cls = ev.module_name(ev.module("graphblas_algorithms.classes"), kind)
    if not isinstance(cls, MClass):
        return Unk(kind), None, None
    keys = [Sym(f"key {i}") for i in range(4)]
    a, b, loop = Sym("value of (0, 1)"), Sym("value of (1, 0)"), Sym("value of the self-edge")
    c = Sym("value of (2, 1)")
    if KINDS[kind][0]:
        entries = {(0, 1): a, (1, 0): b, (2, 2): loop, (2, 1): c}
    else:
        entries = {(0, 1): a, (1, 0): a, (2, 2): loop, (1, 2): c, (2, 1): c}
    G = MInst(cls, {"_A": Mat(entries, 4), "_key_to_id": {k: i for i, k in enumerate(keys)}, "_id_to_key": None, "_cache": {}, "graph": GDict()})
    return G, keys, {(keys[i], keys[j], v) for (i, j), v in entries.items()}


def to_nx(rep, ev):
    f = static(ev, "convert_to_nx")
    for kind in KINDS:
        directed, multi = KINDS[kind]
        for label, attr in (("convert_to_nx", "weight"), ("to_networkx()", "weight"), ("to_networkx(None)", None), ("to_networkx(name)", Sym("attribute name"))):
            box = {}

            def thunk():
                G, keys, edges = instance(ev, kind)
                box.update(keys=keys, edges=edges)
                if label == "convert_to_nx":
                    return ev.call(f, [G], {"name": "anything"}, None)
                m = ev.getattr(G, "to_networkx", None)
                return ev.call(m, [], {} if label.endswith("()") else {"edge_attribute": attr}, None)

            for exc, res, tainted in outcomes(ev, thunk):
                where = ["graphblas_algorithms/classes/_utils.py to_networkx"]
                base = f"{label}, {kind}"
                if tainted:
                    rep.unknown["paths not decided"] = rep.unknown.get("paths not decided", 0) + 1
                    continue
                if exc is not None:
                    rep.check(exc in REFUSALS, "convert-to", f"{base}: {exc}", f"{exc}", where)
                    continue
                if isinstance(res, MInst):
                    rep.viol("convert-to", f"{base}: kept", "a graph is not converted", where)
                    continue
                if not isinstance(res, Out) or res.unclear:
                    rep.unknown["result not followed"] = rep.unknown.get("result not followed", 0) + 1
                    continue
                rep.ob("convert-to", base)
                keys, edges = box["keys"], box["edges"]
                if KINDS[res.kind][0] != directed:
                    rep.viol("convert-to", f"{base}: class", f"a {kind} becomes a NetworkX {res.kind}", where)
                if [k for k in keys if k not in res.nodes]:
                    rep.viol("convert-to", f"{base}: nodes", "an isolated node is missing", where)
                if [x for x in res.nodes if x not in keys]:
                    rep.viol("convert-to", f"{base}: keys", f"nodes {[x for x in res.nodes if x not in keys]} are not the graph's", where)
                und = not KINDS[res.kind][0]

                def norm(u, v, w):
                    return (frozenset((u, v)) if und else (u, v), w)

                got = []
                for u, v, d in res.edges:
                    if attr is None:
                        got.append(norm(u, v, None))
                        if d:
                            rep.viol("convert-to", f"{base}: attribute", "edges carry an attribute", where)
                    else:
                        if list(d) != [attr]:
                            rep.viol("convert-to", f"{base}: attribute", f"edges carry {list(d)} instead of {attr!r}", where)
                        got.append(norm(u, v, list(d.values())[0] if d else None))
                want = {norm(u, v, None if attr is None else w) for u, v, w in edges}
                if want - set(got):
                    miss = sorted(str(x) for x in want - set(got))
                    rep.viol("convert-to", f"{base}: edges", f"not converted with its value and direction: {miss[:3]}", where)
                if set(got) - want:
                    rep.viol("convert-to", f"{base}: extra", f"edges that are not the graph's: {sorted(str(x) for x in set(got) - want)[:3]}", where)
                if KINDS[res.kind][1] and len(got) != len(want):
                    rep.viol("convert-to", f"{base}: once", "an edge is there more than once", where)


def results(rep, ev):
    f = static(ev, "convert_to_nx")
    where = ["graphblas_algorithms/interface.py convert_to_nx"]
    for name in SPARSE + DENSE:
        m = RMat()
        for exc, res, tainted in outcomes(ev, lambda: ev.call(f, [m], {"name": name}, None)):
            if tainted:
                continue
            if exc is not None:
                rep.check(False, "result", f"{name}: {exc}", f"the result of {name} is not converted: {exc}", where)
            elif isinstance(res, Conv) and res.src is m:
                want = "sparse" if name in SPARSE else "dense"
                rep.check(res.how == want, "result", f"{name}", f"converted to a {res.how} array, NetworkX returns a {want} one", where)
                if want == "dense":
                    inf = isinstance(res.fill, float) and res.fill == float("inf") or isinstance(res.fill, Ext) and res.fill.name.split(".")[-1] in ("inf", "Inf")
                    known = not isinstance(res.fill, (Unk,))
                    if known:
                        rep.check(inf if name == "floyd_warshall_numpy" else res.fill == 0 and res.fill is not None, "result", f"{name}: absent entries", f"absent entries become {res.fill!r}", where)
            elif res is m:
                rep.check(False, "result", f"{name}: kept", f"the result of {name} is not converted", where)
            else:
                rep.unknown["result not followed"] = rep.unknown.get("result not followed", 0) + 1
    for x, nm in ((Other(), "a node map"), (3, "a number"), ([1], "a list"), (True, "a truth value"), (None, "None")):
        for exc, res, tainted in outcomes(ev, lambda: ev.call(f, [x], {"name": "pagerank"}, None)):
            if not tainted:
                rep.check(exc is None and res is x, "result", f"{nm} is returned as it is", f"{nm} is not returned as it is: {exc or res!r}", where)
