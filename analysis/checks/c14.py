"""C14: undirected results are symmetric."""
import itertools

from ..gbmodel import asy
from .c10 import graphs
from .common import *
from .own import bools, core_functions, core_runs, graph_methods, runs

# matrices that are symmetric by definition for undirected graphs: {function: positions in the result}
MATRICES = {
    "adjacency_matrix": (),
    "laplacian_matrix": (),
    "normalized_laplacian_matrix": (),
    "modularity_matrix": (),
    "bethe_hessian_matrix": (),
    "floyd_warshall": (),
    "floyd_warshall_numpy": (),
    "floyd_warshall_predecessor_and_distance": (1,),
    "all_pairs_bellman_ford_path_length": (),
    "all_pairs_shortest_path_length": (),
}


def mixed(I):
    """Functions of two graphs with an undirected and a directed one."""
    over = {"copy": bools("copy")}
    fs = [(n, fv, E.inner_func(I, fv)) for n, fv in itertools.chain(dispatched(I).items(), core_functions(I).items())]
    for name, fv, f in fs:
        a = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if sum(x in E.GRAPH_PARAMS for x in a) < 2:
            continue
        for k1, k2 in (("Graph", "DiGraph"), ("DiGraph", "Graph")):
            for r in E.run_all(I, fv, k1, 16, over, kind2=k2):
                r.name, r.inner = name, f
                r.kind = f"{k1}+{k2}"
                yield name, r


def matrices(v, st, path, out, seen):
    """Matrices in a returned value, with where they are."""
    for a in v or ():
        if not isinstance(a, Ref) or (a.oid, path) in seen:
            continue
        seen.add((a.oid, path))
        o = st.heap.get(a.oid)
        if o is None:
            continue
        if o.kind in ("tensor", "expr", "tview"):
            if o.kind == "tview" or o.f.get("tk") == "M":
                out.append((path, a))
            continue
        if o.kind == "inst":
            for k, y in o.f["attrs"].items():
                if k in ("_A", "matrix"):
                    matrices(y, st, path + ("." + k,), out, seen)
        if o.kind == "tuple":
            for j, y in enumerate(o.get("elts") or ()):
                matrices(y, st, path + (j,), out, seen)


def run(rep):
    rep.explanation = (
        "Symmetry analysis: each matrix is symmetric (proved), certainly not symmetric (one triangle kept, only one off-diagonal block written, rows scaled but columns not, edges of a directed graph, the two directions of an edge "
        "combined by an operator that keeps either), or unknown. The fact is followed through selections, masks, transposes, products, assignments and helper functions to the adjacency of every returned undirected graph and to every matrix that is symmetric by definition."
    )
    rep.assumptions = ["adjacency matrices of undirected input graphs are symmetric", "where symmetry is lost sight of nothing is reported; the evidence counts those as unknown"]
    I = program(rep)
    accepts = set()  # functions that take directed graphs; the others' core functions are not meant for them
    refuses = set()
    for label, r in itertools.chain(runs(I, rep, kinds=("Graph", "DiGraph")), core_runs(I, ("Graph", "DiGraph")), mixed(I)):
        rep.absorb(r)
        if "." not in label and r.kind == "DiGraph":
            (refuses if r.value is None else accepts).add(label)
        if r.value is None or r.kind == "DiGraph" and short(label) in refuses - accepts:
            continue
        tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
        ctx = f"{label}({r.kind},{tags})"
        for v in [r.value] + list(r.yields):
            for a, o in graphs(v, r.st):
                if undirected(I, a, o, r.st) is not True:
                    continue
                for x in o.f["attrs"].get("_A", ()):
                    judge(rep, I, r, label, ctx, "graph", "the adjacency of the returned undirected graph", x)
        name = short(label)
        if name in MATRICES and r.kind in ("Graph", "Graph+Graph"):
            got = []
            matrices(r.value, r.st, (), got, set())
            for path, x in got:
                if tuple(path[:len(MATRICES[name])]) == MATRICES[name]:
                    judge(rep, I, r, label, ctx, "matrix", "the returned matrix", x)
    rep.floor("graph", 60)
    rep.floor("matrix", 30)


def undirected(I, a, o, st):
    k = I.graph_kind(a, st)
    return None if k is None or k == "matrix" else not k[0]


def judge(rep, I, r, label, ctx, rule, what, x):
    if not isinstance(x, Ref):
        return
    c = I.content(x, r.st)
    if c is None:
        return
    why = asy(c)
    rep.ob(rule, label)
    if c.sym:
        rep.ob(rule + "-proved", label)
    elif why is None:
        rep.ob(rule + "-unknown", label)
    else:
        rep.viol(rule, f"{label}|{why[0]}", f"{ctx}: {what} is not symmetric: {text(why)}", [where(I, r.inner)])


def text(why):
    if why[0] == "bc":
        return f"only its {'rows' if why[1] == 'row' else 'columns'} are scaled ({why[3]})"
    if why[0] == "blk":
        return "an off-diagonal block is written without its mirror image"
    return why[1]
