"""C13: edge direction is respected."""
import itertools

from .common import *
from .own import core_runs, runs

# What NetworkX means by each function on a directed graph. {parameter or "*": directions}; a parameter not listed uses "*".
OUT, IN, BOTH = {"out"}, {"in"}, {"out", "in"}
DIRECTIONS = {
    "descendants": {"*": OUT},
    "descendants_at_distance": {"*": OUT},
    "bfs_layers": {"*": OUT},
    "ancestors": {"*": IN},
    "lowest_common_ancestor": {"*": IN},
    "single_source_shortest_path_length": {"*": OUT},
    "single_target_shortest_path_length": {"*": IN},
    "all_pairs_shortest_path_length": {"*": OUT},
    "single_source_bellman_ford_path_length": {"*": OUT},
    "all_pairs_bellman_ford_path_length": {"*": OUT},
    "bellman_ford_path_lengths": {"*": OUT},
    "bellman_ford_path": {"*": OUT},
    "bellman_ford_path_length": {"*": OUT},
    "has_path": {"source": OUT, "target": IN, "*": BOTH},
    "efficiency": {"u": OUT, "v": IN, "*": BOTH},
    "node_boundary": {"nbunch1": OUT, "nbunch2": BOTH, "*": OUT},
    "edge_boundary": {"nbunch1": OUT, "nbunch2": IN, "*": BOTH},
    "node_expansion": {"*": OUT},
    "boundary_expansion": {"*": OUT},
    "volume": {"*": OUT},
    "is_dominating_set": {"*": OUT},
    "in_degree_centrality": {"*": IN},
    "out_degree_centrality": {"*": OUT},
    "degree_centrality": {"*": BOTH},
    "eigenvector_centrality": {"*": OUT},
    "katz_centrality": {"*": OUT},
    "pagerank": {"*": OUT},
    "score_sequence": {"*": OUT},
    "ego_graph": {"*": OUT},
}
# Directions that have to be followed at all (by whichever parameter); those above with one direction need that one.
NEED = {
    "is_weakly_connected": BOTH, "is_regular": BOTH, "is_isolate": BOTH, "isolates": BOTH, "number_of_isolates": BOTH, "degree_centrality": BOTH,
    "directed_modularity_matrix": BOTH, "has_path": BOTH, "efficiency": BOTH, "hits": BOTH, "edge_boundary": OUT,
}
# Edges are counted in both directions between the two sets.
NEED_OF = {n: {"S": BOTH} for n in ("cut_size", "normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion")}
# Only what does not start at an argument counts (the arguments are weights of nodes, spread over columns).
FREE_ONLY = {"google_matrix": OUT}
# Last step of each part of the answer: hubs look along edges at authorities, authorities back at hubs.
LAST = {"hits": {"result[0]": IN, "result[1]": OUT}}
ORIENT = {
    "adjacency_matrix": "N", "google_matrix": "N", "directed_modularity_matrix": "N", "tournament_matrix": "N", "floyd_warshall": "N", "floyd_warshall_numpy": "N",
    "floyd_warshall_predecessor_and_distance": "N", "ego_graph": "N", "complement": "N", "compose": "N", "difference": "N", "disjoint_union": "N", "full_join": "N", "intersection": "N",
    "symmetric_difference": "N", "union": "N", "reverse": "T", "DiGraph.reverse": "T", "DiGraph.copy": "N", "DiGraph.to_directed": "N",
}
# Node numbers handed back as values: the node before, so the tail of the last edge.
ENDS = {"floyd_warshall_predecessor_and_distance": {"result[0]": "tail"}}
PAIRS = {"edge_boundary"}


def text(d):
    return {"in": "incoming edges", "out": "outgoing edges"}[d]


class Facts:
    """Directional facts of everything a run returns or yields."""

    def __init__(self, r):
        self.labels, self.maybe, self.orient, self.last, self.pairs, self.ends = set(), set(), {}, {}, [], {}
        self.unknown = False
        done = set()
        for i, v in enumerate([r.value] + list(r.yields)):
            todo = [("result" if i == 0 else "yielded", v or ())]
            while todo:
                path, x = todo.pop()
                for a in x:
                    self.add(a.deps)
                    if not isinstance(a, Ref) or a.oid in done:
                        continue
                    done.add(a.oid)
                    o = r.st.heap.get(a.oid)
                    if o is None:
                        continue
                    self.add(o.get("deps"))
                    c = o.get("c")
                    if c is not None:
                        self.add(c.p)
                        self.add(c.v)
                        root = path.split(".")[0]
                        if o.get("tk") == "M":
                            self.orient.setdefault(path, set()).add(c.orient)
                        self.last.setdefault(root, set()).update({d for d, _ in c.d})
                        self.ends.setdefault(root, set()).update({l[4:] for l in c.v if isinstance(l, str) and l.startswith("end:")})
                    if o.kind == "inst":
                        for k, y in o.f["attrs"].items():
                            if k not in ("_cache", "graph", "_key_to_id", "_id_to_key", "key_to_id", "id_to_key"):
                                todo.append((path + "." + k, y))
                        continue
                    for k in ("k", "v", "elem"):
                        if o.get(k):
                            todo.append((path + "[]", o.f[k]))
                    elts = o.get("elts")
                    if o.kind == "tuple" and elts is not None and len(elts) >= 2:
                        es = [{l[4:] for y in e for l in self.deep(y, r.st) if isinstance(l, str) and l.startswith("end:")} for e in elts]
                        self.pairs.append((path, es))
                    for j, y in enumerate(elts or ()):
                        todo.append((f"{path}[{j}]", y))
                    for j, y in (o.get("entries") or {}).items():
                        todo.append((f"{path}[{j!r}]", y))

    def deep(self, a, st):
        out = set(a.deps)
        if isinstance(a, Ref) and st.heap.get(a.oid) is not None:
            out |= set(st.heap[a.oid].get("deps") or ())
        return out

    def add(self, labels):
        for l in labels or ():
            if not isinstance(l, str):
                continue
            if l.startswith("dir:"):
                _, d, s = l.split(":", 2)
                s = s[6:] if s.startswith("param:") else "*"
                for q in ("in", "out") if d == "both" else (d,):
                    self.labels.add((q, s))
            elif l.startswith("?"):
                self.unknown = True
                if l.lstrip("?").startswith("dir:"):
                    d = l.lstrip("?").split(":")[1]
                    self.maybe |= {"in", "out"} if d == "both" else {d}


def run(rep):
    rep.explanation = (
        "Direction analysis: the adjacency matrix of a directed graph has rows = tails and columns = heads; transposes, selections, masks, products and block assignments keep or flip this, and a product, reduction or row/column "
        "selection of an oriented matrix follows outgoing or incoming edges from the nodes it started at. These facts travel with every value to what is returned and are compared with the direction NetworkX defines for each function."
    )
    rep.assumptions = ["what the analysis loses the orientation of is counted as unknown, not judged", "formulas of undirected functions and of functions symmetric in direction are not compared"]
    I = program(rep)
    seen = {}
    for label, r in itertools.chain(runs(I, rep, kinds=("DiGraph",)), core_runs(I, ("DiGraph",))):
        rep.absorb(r)
        if r.kind != "DiGraph" or r.value is None:
            continue
        name = label if label in ORIENT else short(label)
        if not any(name in t for t in (DIRECTIONS, NEED, LAST, ORIENT, ENDS, PAIRS, FREE_ONLY, NEED_OF)) or label.startswith("Graph."):
            continue
        F = Facts(r)
        tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
        at = [where(I, r.inner)]
        core = label.split(".")[0] in ("algorithms", "linalg", "generators")
        want = DIRECTIONS.get(name)
        s = seen.setdefault((label, name), [set(), False, at])
        s[0] |= {d for d, _ in F.labels} | F.maybe
        s[1] |= F.unknown
        if want is not None:
            rep.ob("follows", f"{label}({tags})")
            for d, p in sorted(F.labels):
                ok = want.get(p, want["*"])
                if d not in ok:
                    rep.viol("follows", f"{label}|{d}|{p}", f"{label}({tags}) follows {text(d)}" + (f" from its argument {p}" if p != "*" else "") + f"; its meaning asks for {' and '.join(text(x) for x in sorted(ok))}", at)
        if name in NEED_OF and not core:
            rep.ob("needs", f"{label}({tags})")
            for p, ds in NEED_OF[name].items():
                for d in sorted(ds - {x for x, q in F.labels if q == p} - F.maybe):
                    if not F.unknown:
                        rep.viol("needs", f"{label}|{p}|{d}", f"{label}({tags}): {text(d)} of the nodes in {p} have no part in the answer", at)
        if name in FREE_ONLY:
            rep.ob("follows", f"{label}({tags})")
            for d, p in sorted(F.labels):
                if p == "*" and d not in FREE_ONLY[name]:
                    rep.viol("follows", f"{label}|{d}", f"{label}({tags}) uses {text(d)}; its meaning asks for {text(min(FREE_ONLY[name]))}", at)
        if name in LAST and not core:
            for path, ok in LAST[name].items():
                got = F.last.get(path, set())
                if not got:
                    continue
                rep.ob("last-step", f"{label}({tags}){path}")
                for d in sorted(got - ok):
                    rep.viol("last-step", f"{label}|{path}|{d}", f"{label}({tags}): {path} is computed along {text(d)}; its meaning asks for {text(min(ok))}", at)
        if name in ORIENT:
            rep.ob("orientation", f"{label}({tags})")
            for path, os_ in sorted(F.orient.items()):
                for o in os_:
                    if o is None or o == ORIENT[name]:
                        continue
                    if o == "S" and name != "reverse":
                        continue
                    what = {"N": "row = tail, column = head", "T": "row = head, column = tail", "X": "rows that are tails for some entries and heads for others", "S": "both directions of every edge"}
                    rep.viol("orientation", f"{label}|{path}|{o}", f"{label}({tags}): {path} has {what[o]}; asked for: {what[ORIENT[name]]}", at)
        if name in ENDS:
            for path, end in ENDS[name].items():
                got = {e for k, v in F.ends.items() if k.split(".")[0] == path for e in v}
                rep.ob("end", f"{label}({tags}){path}")
                for e in sorted(got - {end}):
                    rep.viol("end", f"{label}|{path}|{e}", f"{label}({tags}): the nodes in {path} are the {e}s of edges; asked for: {end}s", at)
        if name in PAIRS:
            for path, es in F.pairs:
                if not any(es):
                    continue
                rep.ob("pairs", f"{label}({tags}){path}")
                for i, end in enumerate(("tail", "head")):
                    if es[i] and end not in es[i]:
                        rep.viol("pairs", f"{label}|{path}|{i}", f"{label}({tags}): position {i} of each edge is its {'/'.join(sorted(es[i]))}, not its {end}", at)
    for (label, name), (got, unknown, at) in sorted(seen.items()):
        need = NEED.get(name) or (DIRECTIONS[name]["*"] if name in DIRECTIONS and len(DIRECTIONS[name]) == 1 else None)
        if need is None:
            continue
        rep.ob("needs", label)
        if unknown:
            continue
        for d in sorted(need - got):
            rep.viol("needs", f"{label}|{d}", f"{label}: nothing in the answer comes from {text(d)}, which its meaning asks for", at)
    rep.floor("follows", 100)
    rep.floor("orientation", 40)
    rep.floor("needs", 30)
