"""Shared by C01 and C02: entry points beyond the dispatched functions, and reachability of storage."""
from .common import *

SKIP_METHODS = {
    # internal wrappers: their purpose is to adopt the vector or matrix handed to them
    "vector_to_nodemap", "vector_to_nodeset", "vector_to_dict", "vector_to_list", "vector_to_set", "matrix_to_nodenodemap", "matrix_to_vectornodemap", "matrix_to_dicts",
    "dict_to_vector", "list_to_vector", "list_to_mask", "list_to_ids", "list_to_keys", "set_to_vector", "renumber_key_to_id", "get_property", "get_properties",
    "is_multigraph", "is_directed", "to_directed_class", "to_undirected_class", "number_of_nodes", "order", "from_networkx",
}


def bools(name):
    P = frozenset({"param:" + name})
    return [("false", lambda st: const(False, P)), ("true", lambda st: const(True, P))]


def graph_methods(I, kind):
    """{name: Func} of the public methods of a graph class."""
    cls = I.load(PKG)[kind][0]
    out = {}
    for k in cls.mro():
        if not isinstance(k, Cls):
            continue
        for n, v in k.attrs.items():
            if n in out or n.startswith("_") or n in SKIP_METHODS:
                continue
            if any(isinstance(a, Func) for a in v):
                out[n] = v
    return out


def conversions(I):
    d = dispatcher(I)
    return {n: d.attrs[n] for n in ("convert_from_nx", "convert_to_nx") if n in d.attrs}


def runs(I, rep, kinds=("Graph", "DiGraph", "Matrix"), limit=64):
    """Every dispatched function, graph method and conversion, with its argument shapes: (label, run)."""
    over = {"copy": bools("copy"), "reciprocal": bools("reciprocal"), "as_view": bools("as_view")}
    for name, fv in dispatched(I).items():
        for kind in kinds:
            for r in E.run_all(I, fv, kind, limit, over):
                r.name, r.inner = name, E.inner_func(I, fv)
                yield name, r
    for kind in ("Graph", "DiGraph"):
        for name, fv in graph_methods(I, kind).items():
            for r in E.run_all(I, fv, kind, limit, over):
                r.name, r.inner = name, E.inner_func(I, fv)
                yield f"{kind}.{name}", r
    nxk = ("nx:Graph", "nx:DiGraph", "nx:MultiGraph", "nx:MultiDiGraph")
    for name, fv in conversions(I).items():
        for kind in nxk + ("Graph", "DiGraph") if name == "convert_from_nx" else ("Graph", "DiGraph", "Matrix"):
            for r in E.run_all(I, fv, kind, limit, {x: bools(x) for x in ("preserve_edge_attrs", "preserve_node_attrs", "preserve_graph_attrs")}):
                r.name, r.inner = name, E.inner_func(I, fv)
                yield name, r


CORE = (PKG + ".algorithms", PKG + ".linalg", PKG + ".generators")


def core_functions(I):
    """{dotted name: value} of the functions the core modules export."""
    out, seen = {}, set()
    for m in sorted(I.modules):
        if not any(m == c or m.startswith(c + ".") for c in CORE) or "__all__" not in I.modules[m]:
            continue
        for n in I.module_exports(m):
            for a in I.modules[m].get(n, ()):
                f = E.inner_func(I, (a,))
                if f is not None and f.mod == m and id(f.node) not in seen:
                    seen.add(id(f.node))
                    out[f"{m[len(PKG) + 1:]}.{n}"] = (a,)
    return out


def core_runs(I, kinds=("Graph", "DiGraph"), limit=24):
    """The exported core functions called directly, as users of the package without NetworkX do."""
    over = {"copy": bools("copy")}
    for name, fv in core_functions(I).items():
        for kind in kinds:
            for r in E.run_all(I, fv, kind, limit, over):
                r.name, r.inner = name, E.inner_func(I, fv)
                yield name, r


OPS = ("count", "min", "plus")


def property_names(I, kind):
    """Everything get_property answers: the declared table, aliases, and reductions built on demand."""
    cls = I.load(PKG)[kind][0]
    names = []
    for attr in ("_get_property", "_cache_aliases"):
        for a in cls.lookup(attr) or ():
            o = I.base_heap.get(a.oid) if isinstance(a, Ref) else None
            if o is not None:
                names += [k for k in o.get("entries") or {} if isinstance(k, str)]
    names += [f"{op}_{how}{s}" for op in OPS for how in ("rowwise", "columnwise", "element") for s in "+-"] + [f"{op}_diagonal" for op in OPS]
    return list(dict.fromkeys(names))


def getter_runs(I):
    """Every property getter executed with its own code, on a graph with an unknown history: (name, masked, run)."""
    I.intercept = False
    try:
        for kind in ("Graph", "DiGraph"):
            f = I.load(PKG)[kind][0].lookup("get_property")
            for n in property_names(I, kind):
                for masked in (False, True):
                    E.reset(I)
                    st = E.fresh_state(I)
                    g = E.make_graph(I, st, kind, "G")
                    kw = {}
                    if masked:
                        v = I.tensor(st, None, "V", Content(p=frozenset({"param:mask"}), rs=("n", "G"), tok=("mask",)), owner=frozenset({"arg:mask"}), tag="mask")
                        kw["mask"] = I.getattr_(v, "S", st, None)
                    r = E.run(I, f, kind, [g, const(n)], kw, st, {"name": n})
                    yield n, masked, r
    finally:
        I.intercept = True


def storage(I, v, st, path="result", seen=None, out=None):
    """Owned mutable objects reachable from a value: (path, oid, object)."""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    for a in v:
        if not isinstance(a, Ref) or a.oid in seen:
            continue
        seen.add(a.oid)
        o = st.heap.get(a.oid)
        if o is None:
            continue
        if o.get("owner"):
            out.append((path, a.oid, o))
        if o.kind == "inst":
            for k, x in o.f["attrs"].items():
                if k not in ("_cache", "_key_to_id", "_id_to_key", "graph"):
                    storage(I, x, st, path + "." + k, seen, out)
                elif k in ("_cache", "graph") and not o.get("owner"):
                    # a new graph has its own store of derived data and its own attributes
                    for b in x:
                        c = st.heap.get(b.oid) if isinstance(b, Ref) else None
                        if c is not None and c.get("owner") and b.oid not in seen:
                            out.append((f"{path}.{k}", b.oid, c))
            continue
        for k in ("k", "v", "elem"):
            if o.get(k):
                storage(I, o.f[k], st, f"{path}[{k}]", seen, out)
        for i, x in enumerate(o.get("elts") or ()):
            storage(I, x, st, f"{path}[{i}]", seen, out)
        for i, x in (o.get("entries") or {}).items():
            storage(I, x, st, f"{path}[{i!r}]", seen, out)
        for k in ("base", "parent"):
            if isinstance(o.get(k), int):
                storage(I, (Ref(o.f[k]),), st, f"{path}.{k}", seen, out)
    return out
