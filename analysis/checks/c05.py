"""C05: failures surface as the documented NetworkX exceptions."""
from .common import *

EXC = PKG + ".algorithms.exceptions."
# how each private failure is reported (any subclass relation is resolved from the source); None: swallowing it is an answer, not an error
MEANS = {
    "NoPath": {"networkx.NetworkXNoPath"},
    "Unbounded": {"networkx.NetworkXUnbounded"},
    "PointlessConcept": {"networkx.NetworkXPointlessConcept"},
    "ConvergenceFailure": {"networkx.PowerIterationFailedConvergence", "scipy.sparse.linalg.ArpackNoConvergence"},
    "EmptyGraphError": {"networkx.NetworkXError"},
    "GraphBlasAlgorithmException": {"networkx.NetworkXError"},
}
# failures NetworkX documents for the function: each must be reachable, and as exactly that class
NF, NE, NP, UB, PC, PF, AR = (
    "networkx.NodeNotFound", "networkx.NetworkXError", "networkx.NetworkXNoPath", "networkx.NetworkXUnbounded", "networkx.NetworkXPointlessConcept",
    "networkx.PowerIterationFailedConvergence", "scipy.sparse.linalg.ArpackNoConvergence",
)
REQUIRED = {
    "eigenvector_centrality": {PF, PC, NE},
    "katz_centrality": {PF, NE},
    "pagerank": {PF},
    "hits": {AR},
    "is_connected": {PC},
    "is_weakly_connected": {PC},
    "difference": {NE},
    "symmetric_difference": {NE},
    "union": {NE},
    "full_join": {NE},
    "reciprocity": {NE},
    "overall_reciprocity": {NE},
    "reverse": {NE},
    "lowest_common_ancestor": {NE},
    "floyd_warshall_numpy": {NE},
    "all_pairs_bellman_ford_path_length": {UB},
    "single_source_bellman_ford_path_length": {UB},
    "bellman_ford_path": {UB, NP},
    "bellman_ford_path_length": {UB, NP},
}
# ... and for one form of an argument
REQUIRED_WHEN = {
    ("reciprocity", "nodes", "node"): {NE},
    ("reciprocity", "nodes", "none"): {NE},
    ("katz_centrality", "beta", "dict"): {NE},
    ("floyd_warshall_numpy", "nodelist", "list"): {NE},
}
# a node named by this parameter that is not in the graph is reported as ...
UNKNOWN = {
    "ancestors": ({"source"}, {NE}),
    "descendants": ({"source"}, {NE}),
    "has_path": ({"source", "target"}, {NF}),
    "single_source_shortest_path_length": ({"source"}, {NF}),
    "single_target_shortest_path_length": ({"target"}, {NF}),
    "single_source_bellman_ford_path_length": ({"source"}, {NF}),
    "bellman_ford_path": ({"source", "target"}, {NF}),
    "bellman_ford_path_length": ({"source", "target"}, {NF}),
    "efficiency": ({"u", "v"}, {NF}),
    "ego_graph": ({"n"}, {NF}),
    "lowest_common_ancestor": ({"node1", "node2"}, {NF}),
    "is_isolate": ({"n"}, {NE}),
    "bfs_layers": ({"sources"}, {NE}),
    "descendants_at_distance": ({"source"}, {NE}),
}

# on a graph without nodes / with nodes but no edges, this is reported as ...
EMPTY = {
    ("is_connected", "Graph", "nodes"): {PC},
    ("is_weakly_connected", "DiGraph", "nodes"): {PC},
    ("eigenvector_centrality", "Graph", "nodes"): {PC},
    ("eigenvector_centrality", "DiGraph", "nodes"): {PC},
    ("overall_reciprocity", "DiGraph", "nodes"): {NE},
    ("overall_reciprocity", "DiGraph", "edges"): {NE},
    ("reciprocity", "DiGraph", "nodes"): {NE},
    ("reciprocity", "DiGraph", "edges"): {NE},
}
# NetworkX answers these for a graph without nodes (edges): no division by the number of nodes (edges) there
DEFINED_WITHOUT = {
    "nodes": set(
        "degree_centrality katz_centrality clustering generalized_degree square_clustering transitivity triangles k_truss isolates number_of_isolates "
        "fast_could_be_isomorphic faster_could_be_isomorphic hits google_matrix pagerank compose difference disjoint_union full_join intersection "
        "symmetric_difference union complement is_k_regular floyd_warshall floyd_warshall_numpy floyd_warshall_predecessor_and_distance "
        "all_pairs_shortest_path_length all_pairs_bellman_ford_path_length negative_edge_cycle s_metric is_triad in_degree_centrality "
        "out_degree_centrality reverse is_tournament score_sequence".split()
    ),
    "edges": set(
        "degree_centrality katz_centrality clustering average_clustering generalized_degree square_clustering transitivity triangles k_truss isolates number_of_isolates "
        "is_connected is_weakly_connected is_regular is_k_regular fast_could_be_isomorphic faster_could_be_isomorphic pagerank google_matrix compose difference "
        "disjoint_union full_join intersection symmetric_difference union complement floyd_warshall floyd_warshall_numpy all_pairs_shortest_path_length "
        "all_pairs_bellman_ford_path_length negative_edge_cycle s_metric in_degree_centrality out_degree_centrality reverse is_tournament score_sequence efficiency".split()
    ),
}


def name_of(c):
    return c.name if isinstance(c, Ext) else c.qual if isinstance(c, Cls) and hasattr(c, "qual") else str(c)


def mean_names(c):
    """Names of the private classes a raised class is or derives from, nearest first."""
    out = []
    for k in c.mro():
        if isinstance(k, Cls):
            out.append(k.name if hasattr(k, "name") else name_of(k).rsplit(".", 1)[-1])
    return out


def ok_class(I, exc, allowed):
    """Is a raised class one of the allowed ones or a subclass?"""
    if not isinstance(exc, Ext):
        return False
    return any(I.norm_exc(exc.name) == I.norm_exc(x) or I.ext_sub(exc.name, x) for x in allowed)


def first_asked(I, runs):
    """Each run with its own record of the vectors whose number of entries was asked for."""
    while True:
        I.counts = set()
        r = next(runs, None)
        I.counts = None
        if r is None:
            return
        yield r


def run(rep):
    rep.explanation = (
        "Exception-flow analysis: exceptions raised on every path of every dispatched function (generators drained) are propagated through try/except, else, re-raise and call boundaries. "
        "No package-private class may reach the caller; a handler that translates a private failure must raise the NetworkX class with that meaning; documented failures must be reachable; "
        "a call naming a node that is not in the graph must end in the documented class and in nothing else."
    )
    rep.assumptions = ["exceptions raised inside python-graphblas, numpy and networkx themselves are not followed (their documented lookups, KeyError on dict access, are)"]
    I = program(rep)
    names = dispatched(I)
    for name, fv in names.items():
        f = E.inner_func(I, fv)
        reached, escaped = set(), {}
        when = {}
        runs = 0
        for kind in ("Graph", "DiGraph", "Matrix"):
            for r in first_asked(I, E.run_all(I, fv, kind, 64)):
                runs += 1
                rep.absorb(r)
                tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
                for x in r.raises:
                    if isinstance(x.exc, Ext) and (x.info or {}).get("first"):
                        rep.check(False, "first-of-none", f"{name}|{site(x.site)}", f"{name}({kind},{tags}) takes the first entry of a vector that may have none: IndexError reaches the caller", [site(x.site), where(I, f)])
                    if isinstance(x.exc, Cls):
                        escaped.setdefault((x.exc.name, x.site), (x, kind, tags))
                    else:
                        reached.add(I.norm_exc(x.exc.name))
                        for p, t in r.tags.items():
                            when.setdefault((p, t), set()).add(I.norm_exc(x.exc.name))
                for p, t in r.tags.items():
                    when.setdefault((p, t), set())
                for e in r.events:
                    if e[0] != "handled" or not e[1] or ".nxapi" not in str(e[1][0]) and "/nxapi/" not in str(e[1][0]):
                        continue
                    ys = e[3]["raised"]
                    for c in e[3]["classes"]:
                        if not isinstance(c, Cls) or not ys or any(isinstance(y, Ext) and y.name.startswith("?") for y in ys):
                            continue
                        means = next((MEANS[n] for n in mean_names(c) if n in MEANS), None)
                        if means is None or not any(I.exc_matches(x, c) for x, _ in e[3]["caught"]):
                            continue
                        # a handler of a wider class may tell the classes it caught apart
                        for x, _ in e[3]["caught"]:
                            if isinstance(x, Cls):
                                means = means | next((MEANS[n] for n in mean_names(x) if n in MEANS), set())
                        rep.check(
                            any(ok_class(I, y, means) for y in ys), "translated-to-its-meaning", f"{name}|{site(e[1]).split(' ')[-1]}|{c.name}",
                            f"{name}: {c.name} is reported as {'/'.join(name_of(y) for y in ys)}; it means {' or '.join(sorted(means))}", [site(e[1])],
                        )
        for (cn, at), (x, kind, tags) in escaped.items():
            rep.check(False, "private-exception", f"{name}|{cn}|{'>'.join(x.via)}", f"{name}({kind},{tags}) lets the private exception {cn} escape", [site(at), where(I, f)])
        rep.ob("private-exception", name, n=runs)
        for need in REQUIRED.get(name, ()):
            rep.check(
                I.norm_exc(need) in reached or any(z.startswith("?") for z in reached), "documented-failure", f"{name}|{need}",
                f"no path of {name} reports {need}", [where(I, f)],
            )
        for (n, p, t), needs in REQUIRED_WHEN.items():
            if n == name and (p, t) in when:
                for need in sorted(needs):
                    got = when[p, t]
                    rep.check(I.norm_exc(need) in got or any(z.startswith("?") for z in got), "documented-failure", f"{name}|{p}={t}|{need}", f"no path of {name} with {p} a {t} reports {need}", [where(I, f)])
    for what in ("nodes", "edges"):
        I.nodes, I.edges = (0 if what == "nodes" else "some"), 0
        for name, fv in names.items():
            need = {k: EMPTY.get((name, k, what)) for k in ("Graph", "DiGraph")}
            if name not in DEFINED_WITHOUT[what] and not any(need.values()):
                continue
            f = E.inner_func(I, fv)
            for kind in ("Graph", "DiGraph"):
                for r in E.run_all(I, fv, kind, 16, {"chunksize": [("text", lambda st: V(Sym("str", frozenset({"param:chunksize"})))), ("none", lambda st: const(None))]}):
                    if name == "reciprocity" and r.tags.get("nodes") != "none":
                        continue
                    if any(isinstance(x.exc, Ext) and x.exc.name.endswith("NetworkXNotImplemented") for x in r.raises):
                        continue
                    rep.absorb(r)
                    tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
                    if need[kind] and not any(name_of(x.exc).startswith("?") for x in r.raises):
                        rep.check(
                            any(ok_class(I, x.exc, need[kind]) for x in r.raises), "documented-failure", f"{name}|{kind}|no {what}",
                            f"{name}({kind},{tags}) of a graph without {what} is not reported as {'/'.join(sorted(need[kind]))}", [where(I, f)],
                        )
                    if name in DEFINED_WITHOUT[what]:
                        z = [x for x in r.raises if isinstance(x.exc, Ext) and I.norm_exc(x.exc.name) == "builtins.ZeroDivisionError" and (x.info or {}).get("zero")]
                        rep.check(
                            not z, "defined-when-empty", f"{name}|{kind}|no {what}",
                            f"{name}({kind},{tags}) divides by zero on a graph without {what}", [site(x.site) for x in z[:1]] + [where(I, f)],
                        )
    I.nodes = I.edges = None
    for name, (params, want) in UNKNOWN.items():
        if name not in names:
            continue
        fv = names[name]
        f = E.inner_func(I, fv)
        for kind in ("Graph", "DiGraph"):
            for p in sorted(params):
                def one(st, p=p):
                    k = V(Sym("key", frozenset({"param:" + p}), name=("param", p), tag="absent"))
                    if name == "bfs_layers":
                        return V(I.new(st, None, HObj("list", elts=[k], deps=frozenset({"param:" + p}), owner=frozenset({"arg:" + p})), tag="absent-list"))
                    return k

                for r in E.run_all(I, fv, kind, 32, {p: [("absent", one)]}):
                    if any(isinstance(x.exc, Ext) and x.exc.name.endswith("NetworkXNotImplemented") for x in r.raises):
                        continue
                    rep.absorb(r)
                    tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
                    bad = [x for x in r.raises if I.norm_exc(name_of(x.exc)) == "builtins.KeyError" and not ok_class(I, x.exc, want)]
                    good = [x for x in r.raises if ok_class(I, x.exc, want)]
                    opaque = [x for x in r.raises if name_of(x.exc).startswith("?")]
                    for x in bad:
                        rep.check(False, "unknown-node", f"{name}|{p}|KeyError", f"{name}({kind},{tags}): an unknown {p} is reported as a bare KeyError", [site(x.site), where(I, f)])
                    answers = r.value is not None and (r.yields or not any(isinstance(a, Ref) and (o := r.st.heap.get(a.oid)) is not None and o.kind == "gen" for a in r.value))
                    if not opaque:
                        rep.check(not answers, "unknown-node", f"{name}|{p}|answers", f"{name}({kind},{tags}): a call naming an unknown {p} returns an answer", [where(I, f)])
                    rep.check(bool(good or bad or opaque), "unknown-node", f"{name}|{p}|none", f"{name}({kind},{tags}): an unknown {p} is not reported as {'/'.join(sorted(want))}", [where(I, f)])
    rep.floor("private-exception", 200)
    rep.floor("documented-failure", 15)
    rep.floor("unknown-node", 25)
