"""Entry points and argument contexts of the general analysis."""
from __future__ import annotations

import itertools

from .core import *
from .interp import Budget, PathEnd
from .machine import Interp

PKG = "graphblas_algorithms"
KINDS = ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph")


def load(repo):
    I = Interp(repo)
    for m in (PKG, PKG + ".interface", "_nx_graphblas"):
        I.load(m)
    return I


def root_labels(root):
    return frozenset({f"{root}.struct"})


def adjacency(I, st, root, directed, owner=True, tag="A"):
    sp = ("n", root)
    c = Content(p=frozenset({f"{root}.struct"}), v=frozenset({f"{root}.vals"}), rs=sp, cs=sp, orient="N" if directed else "S", sym=None if directed else True, tok=("A", root))
    n = V(I.dim_of_space(sp, root_labels(root)))
    return I.tensor(st, None, "M", c, (n, n), owner=frozenset({f"arg:{root}"}) if owner else NO, tag=(tag, root))


def numbering(I, st, root):
    sp = ("n", root)
    d = root_labels(root)
    return V(I.new(st, None, HObj("dict", entries={}, k=V(Sym("key", d, space=sp, tag="member")), v=V(Sym("idx", d, space=sp)), deps=d, segs=((sp, (), (str(sp),)),), seq=("nodes", root), owner=frozenset({f"arg:{root}"}), length=V(I.dim_of_space(sp, d))), tag=("k2i", root)))


def make_graph(I, st, kind, root):
    """kind: Graph, DiGraph, ..., nx:Graph, ..., Matrix"""
    saved, I.callpath = I.callpath, (("root", root),)
    try:
        return _make_graph(I, st, kind, root)
    finally:
        I.callpath = saved


def _make_graph(I, st, kind, root):
    if kind == "Matrix":
        return adjacency(I, st, root, True)
    if kind.startswith("nx:"):
        k = kind[3:]
        return V(I.new(st, None, HObj("nxgraph", root=root, directed="Di" in k, multi="Multi" in k, owner=frozenset({f"arg:{root}"}), log=()), tag=("nx", root)))
    directed = "Di" in kind
    cls = I.load(PKG)[kind]
    A = adjacency(I, st, root, directed)
    k2i = numbering(I, st, root)
    g = I.instantiate(cls[0], [A], {"key_to_id": k2i}, st, None)
    own = frozenset({f"arg:{root}"})
    o = st.heap[g[0].oid]
    at = dict(o.f["attrs"])
    for nm in ("graph", "_cache"):
        for a in at.get(nm, ()):
            if isinstance(a, Ref):
                h = st.heap[a.oid]
                st.heap[a.oid] = h.set(owner=own, **({"cacheof": root} if nm == "_cache" else {}))
    st.heap[g[0].oid] = o.set(owner=own, root=root)
    return g


def key(I, name, root, member=True):
    return V(Sym("key", frozenset({"param:" + name}), space=("n", root) if member else None, name=("param", name), tag="member" if member else "absent"))


def coll(I, st, name, root, kind="list"):
    d = frozenset({"param:" + name})
    k = V(Sym("key", d, space=("n", root), tag="member"))
    return V(I.new(st, None, HObj(kind, elts=None, elem=k, deps=d, seq=("param", name), unord=kind == "set", owner=frozenset({"arg:" + name})), tag=("coll", name)))


def mapping(I, st, name, root):
    d = frozenset({"param:" + name})
    return V(I.new(st, None, HObj("dict", entries={}, k=V(Sym("key", d, space=("n", root), tag="member")), v=V(Sym("num", d)), deps=d, seq=("param", name), owner=frozenset({"arg:" + name})), tag=("map", name)))


NODE_PARAMS = {"source", "target", "node", "s", "t", "u", "v", "node1", "node2", "n", "sources_"}
GRAPH_PARAMS = {"G", "H", "G1", "G2", "A", "graph"}
COLL_PARAMS = {"S", "T", "nbunch", "nbunch1", "nbunch2", "sources", "pairs"}
MAP_PARAMS = {"personalization", "nstart", "dangling"}


def node_mask(I, st, name, root):
    """A structural mask over the nodes."""
    v = I.tensor(st, None, "V", Content(p=frozenset({"param:" + name}), rs=("n", root), tok=("maskvec", name)), owner=frozenset({"arg:" + name}), tag=("mask", name))
    return I.getattr_(v, "S", st, None)


def labelled(name, v, kind=None):
    return V(Sym(kind, frozenset({"param:" + name}))) if kind else const(v, frozenset({"param:" + name}))


def variants(I, name, func, default, root, fqual):
    """[(variant tag, builder(st))] for one parameter; the first is the plain one."""
    P = frozenset({"param:" + name})
    isnone = default is not None and len(default) == 1 and isinstance(default[0], Const) and default[0].val is None
    none = ("none", lambda st: V(Const(None)))
    if name in ("weight", "distance"):
        return [none, ("attr", lambda st: const("weight", P))] if isnone or default is None else [("attr", lambda st: const("weight", P)), none]
    if name in NODE_PARAMS:
        r = [("node", lambda st: key(I, name, root))]
        return [none] + r if isnone else r
    if name in ("nodes",):
        return [none, ("node", lambda st: key(I, name, root)), ("list", lambda st: coll(I, st, name, root))]
    if name in ("nodelist",):
        return [none, ("list", lambda st: coll(I, st, name, root))]
    if name in ("nbunch", "sources") and fqual in ("bfs_layers",):
        return [("node", lambda st: key(I, name, root)), ("list", lambda st: coll(I, st, name, root))]
    if name in COLL_PARAMS or name in ("nbunch",):
        r = [("list", lambda st: coll(I, st, name, root)), ("set", lambda st: coll(I, st, name, root, "set"))]
        return [none] + r if isnone else r
    if name in MAP_PARAMS:
        return [none, ("dict", lambda st: mapping(I, st, name, root))]
    if name == "mask":
        return [none, ("mask", lambda st: node_mask(I, st, name, root))]
    if name == "beta" and fqual.startswith("katz"):
        return [("num", lambda st: V(Sym("float", P))), ("dict", lambda st: mapping(I, st, name, root))]
    if name == "beta":
        return [("num", lambda st: V(Sym("float", P)))]
    if name == "chunksize":
        return [("size", lambda st: V(Sym("int", P))), none]
    if name == "data":
        return [("false", lambda st: const(False, P)), ("true", lambda st: const(True, P)), ("attr", lambda st: const("weight", P))]
    if name == "rename":
        return [("none", lambda st: default), ("pair", lambda st: V(I.new(st, None, HObj("tuple", elts=[const("a", P), const("b", P)], deps=NO), tag="rename")))]
    if name == "keys":
        return [("false", lambda st: const(False, P)), ("true", lambda st: const(True, P))]
    if name == "method":
        return [("default", lambda st: default)] + [(m, lambda st, m=m: const(m, P)) for m in ("bellman-ford",) if default != const(m)]
    if name in ("dtype", "name"):
        return [("default", lambda st: default)]
    if name in ("preserve_edge_attrs", "preserve_node_attrs", "preserve_graph_attrs"):
        return [("default", lambda st: default)]
    if default is not None and len(default) == 1 and isinstance(default[0], Const):
        v = default[0].val
        if isinstance(v, bool):
            return [("sym", lambda st: V(Sym("bool", P)))]
        if isinstance(v, int):
            return [("sym", lambda st: V(Sym("int", P)))]
        if isinstance(v, float):
            return [("sym", lambda st: V(Sym("float", P)))]
        if isinstance(v, str):
            return [("default", lambda st: default)]
        if v is None:
            return [none, ("sym", lambda st: V(Sym("num", P)))]
    if default is not None:
        return [("default", lambda st: default)]
    return [("sym", lambda st: V(Sym("num" if name not in ("distance", "k", "radius", "max_iter") else "int", P)))]


class Run:
    __slots__ = ("func", "kind", "tags", "value", "st", "raises", "events", "unknown", "error", "funcs", "yields", "node", "name", "inner")

    def labels(self, I):
        """Labels of everything that may have decided the returned or yielded values."""
        d = NO
        gen = False
        for a in self.value or ():
            o = self.st.heap.get(a.oid) if isinstance(a, Ref) else None
            if o is not None and o.kind == "gen":
                gen = True
                continue
            d |= I.deep_deps((a,), self.st)
        for y in self.yields:
            d |= I.deep_deps(y, self.st)
        return d


def target_func(v):
    for a in v:
        if isinstance(a, Func):
            return a
        if isinstance(a, Ref):
            return a
        if isinstance(a, Bound) and isinstance(a.func, Func):
            return a.func
    return None


def inner_func(I, v):
    """The FunctionDef behind decorators."""
    for a in v:
        while isinstance(a, Ref):
            o = I.base_heap.get(a.oid)
            if o is None or o.kind != "nif" or not o.get("inner"):
                break
            a = o.f["inner"][0]
        if isinstance(a, Func):
            return a
    return None


def fresh_state(I):
    return State({}, dict(I.base_heap))


def reset(I):
    I.events = []
    I.unknown = {}
    I.steps = 0
    I.stack = []
    I.callpath = ()
    I.iterpath = ()
    I.collectors = [[]]
    I.try_depth = 0
    I.cur_exc = []
    I.trace_funcs = set()
    I.module_mode = False


def drain(I, v, st, depth=0, seen=None, out=None):
    """Exhaust returned generators so that lazily raised errors and late work are seen; returns what they yield."""
    if seen is None:
        seen = set()
    if out is None:
        out = []
    for a in v:
        if isinstance(a, Ref) and a.oid not in seen:
            seen.add(a.oid)
            o = st.heap.get(a.oid)
            if o is None:
                continue
            if o.kind == "gen":
                info = I.iterate((a,), st, None)
                for e in info.elts if info.elts is not None else [info.elem]:
                    out.append(e)
                    drain(I, e, st, depth + 1, seen, out)
            elif o.kind in ("list", "tuple", "iter") and depth < 3:
                for e in o.get("elts") or [o.get("elem") or ()]:
                    drain(I, e, st, depth + 1, seen, out)
    return out


def run(I, fv, kind, args, kwargs, st, tags=()):
    r = Run()
    r.func, r.kind, r.tags = fv, kind, tags
    r.error = None
    r.value = None
    r.yields = []
    r.st = st
    try:
        r.value = I.call(fv, args, kwargs, st, None)
        r.yields = drain(I, r.value, st)
    except PathEnd:
        pass
    except Budget as e:
        r.error = f"budget exceeded in {e}"
    except Exception as e:  # code the analysis has no model for: no verdict from this run
        import os
        import traceback

        if os.environ.get("VERIF_DEBUG"):
            raise
        fr = traceback.extract_tb(e.__traceback__)[-1]
        r.error = f"internal: {type(e).__name__}: {e} at {os.path.basename(fr.filename)}:{fr.lineno}"
    r.raises = I.collectors[0]
    r.events = I.events
    r.unknown = dict(I.unknown)
    r.funcs = set(I.trace_funcs)
    return r


def contexts(I, fv, kind, limit=64, override=None, nroots=("G", "H"), kind2=None):
    """Yield (tags, args, state) for a function: cross product of parameter variants, capped."""
    f = inner_func(I, fv)
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(f.defaults)
    defaults = {p: f.defaults[i - (len(pos) - nd)] for i, p in enumerate(pos) if i >= len(pos) - nd}
    defaults.update(f.kwdefaults)
    names = pos + [x.arg for x in a.kwonlyargs]
    roots = {}
    for i, n in enumerate(names):
        if n in GRAPH_PARAMS or i == 0:
            roots[n] = nroots[len(roots)] if len(roots) < len(nroots) else f"G{len(roots)}"
    first = next(iter(roots.values()))
    axes = []
    for n in names:
        if n in roots:
            k = kind if kind2 is None or roots[n] == first else kind2
            axes.append([("", lambda st, n=n, k=k: make_graph(I, st, k, roots[n]))])
        elif override and n in override:
            axes.append(override[n])
        else:
            axes.append(variants(I, n, f, defaults.get(n), first, f.qual))
    combos = list(itertools.product(*[range(len(x)) for x in axes]))
    combos.sort(key=lambda c: (sum(1 for x in c if x), c))
    for c in combos[:limit]:
        reset(I)
        st = fresh_state(I)
        vals = {}
        tags = {}
        for n, ax, i in zip(names, axes, c):
            tag, b = ax[i]
            tags[n] = tag
            vals[n] = b(st)
        yield tags, vals, st, len(pos), names


def run_all(I, fv, kind, limit=64, override=None, kind2=None):
    for tags, vals, st, npos, names in contexts(I, fv, kind, limit, override, kind2=kind2):
        args = [vals[n] for n in names[:npos]]
        kw = {n: vals[n] for n in names[npos:]}
        yield run(I, fv, kind, args, kw, st, tags)
