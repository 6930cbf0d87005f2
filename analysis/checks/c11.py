"""C11: answers about structure ignore edge weights."""
from .common import *

# structural whatever the arguments
ALWAYS = """node_boundary degree_centrality in_degree_centrality out_degree_centrality generalized_degree square_clustering transitivity triangles
inter_community_edges intra_community_edges is_connected node_connected_component is_weakly_connected boundary_expansion node_expansion
ancestors descendants is_dominating_set efficiency is_isolate isolates number_of_isolates fast_could_be_isomorphic faster_could_be_isomorphic
lowest_common_ancestor overall_reciprocity reciprocity is_k_regular is_regular has_path all_pairs_shortest_path_length
single_source_shortest_path_length single_target_shortest_path_length is_simple_path s_metric is_tournament score_sequence bfs_layers
descendants_at_distance is_triad""".split()
# structural when this argument does not ask for weights
WHEN = {
    "edge_boundary": {"data": "false"}, "average_clustering": {"weight": "none"}, "clustering": {"weight": "none"}, "conductance": {"weight": "none"},
    "cut_size": {"weight": "none"}, "edge_expansion": {"weight": "none"}, "mixing_expansion": {"weight": "none"}, "normalized_cut_size": {"weight": "none"},
    "volume": {"weight": "none"}, "adjacency_matrix": {"weight": "none"}, "laplacian_matrix": {"weight": "none"}, "normalized_laplacian_matrix": {"weight": "none"},
    "directed_modularity_matrix": {"weight": "none"}, "modularity_matrix": {"weight": "none"}, "floyd_warshall": {"weight": "none"}, "floyd_warshall_numpy": {"weight": "none"},
    "floyd_warshall_predecessor_and_distance": {"weight": "none"},
}
# which nodes and edges the returned graph has (its edge values may be carried over)
EDGES = {"k_truss": {}, "ego_graph": {"distance": "none"}, "compose": {}, "difference": {}, "disjoint_union": {}, "full_join": {}, "intersection": {}, "symmetric_difference": {}, "union": {}, "complement": {}, "reverse": {}}


def vals(d):
    return sorted(x for x in d if x.endswith(".vals") and not x.startswith("?"))


def graph_structure(I, v, st):
    """Labels of which edges a returned graph has and of its numbering; None if it is not a graph object."""
    d, found = NO, False
    for a in v:
        o = st.heap.get(a.oid) if isinstance(a, Ref) else None
        if o is None:
            d |= a.deps
            continue
        if o.kind != "inst" or "_A" not in o.f["attrs"]:
            if o.kind in ("tensor", "tview", "expr"):
                c = I.content(a, st)
                if c is not None:
                    d |= c.p
                    found = True
            continue
        found = True
        d |= o.get("deps") or NO
        for x in o.f["attrs"]["_A"]:
            d |= x.deps
            t = st.heap.get(x.oid) if isinstance(x, Ref) else None
            if t is not None and t.get("c") is not None:
                d |= t.f["c"].p
        d |= I.deep_deps(o.f["attrs"].get("_key_to_id", ()), st)
    return d if found else None


def run(rep):
    rep.explanation = (
        "Information-flow analysis: labels follow edge existence (struct) and edge values (vals) separately through every GraphBLAS operation, mask, Python value, branch condition and loop condition of every path. "
        "The answer of a function defined on structure must not carry the vals label of any input graph; for graph-returning functions the same holds for which edges and nodes the result has. "
        "Also no exception of such a function is decided by edge values."
    )
    rep.assumptions = [
        "the table of structural functions and arguments in this file (from NetworkX's definitions)",
        "the model of which python-graphblas operators read values (pair/one/any-of-iso do not; first/second read one side; V-masks and reductions do); dtype-only dependence is not value dependence",
    ]
    I = program(rep)
    for name, fv in dispatched(I).items():
        cond = {} if name in ALWAYS else WHEN.get(name, EDGES.get(name))
        if cond is None:
            continue
        f = E.inner_func(I, fv)
        for kind in ("Graph", "DiGraph"):
            for r in E.run_all(I, fv, kind, 200):
                if any(r.tags.get(k) != v for k, v in cond.items()):
                    continue
                if "weight" in cond and r.tags.get("distance") == "attr":
                    continue
                rep.absorb(r)
                tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
                for x in r.raises:
                    bad = vals(x.pc)
                    if isinstance(x.exc, Ext) and x.exc.name.startswith("networkx"):
                        rep.check(not bad, "failure-by-weight", f"{name}|{x.exc}", f"{name}({kind},{tags}): whether it fails depends on edge values", [site(x.site)])
                if r.value is None:
                    continue
                if name in EDGES:
                    d = graph_structure(I, r.value, r.st)
                    if d is None:
                        continue
                    bad = vals(d)
                    rep.check(not bad, "edges-by-weight", f"{name}", f"{name}({kind},{tags}): which nodes or edges the result has depends on the edge values of {', '.join(bad)}", [where(I, f)])
                else:
                    bad = vals(r.labels(I))
                    rep.check(not bad, "answer-by-weight", f"{name}", f"{name}({kind},{tags}): the answer depends on the edge values {', '.join(bad)}", [where(I, f)] + origin(I, r))
    rep.floor("answer-by-weight", 150)
    rep.floor("edges-by-weight", 12)


def origin(I, r):
    return []
