"""C12: weights and options are honoured or refused, never ignored."""
import ast

from .common import *

NX_DIR = E.PKG + "/nxapi/"

# options whose documented meaning is not to affect the answer
NO_EFFECT = {("*", "chunksize"), ("negative_edge_cycle", "heuristic")}
# parameters named weight/distance that do not name an edge attribute
NOT_ATTR = {("descendants_at_distance", "distance")}
# what a weight argument must do when it only decides which kind of edge values is meant
KINDS = ("Graph", "DiGraph", "nx:Graph", "nx:DiGraph")
DEFAULTED = ("none", "default", "")


def overrides(I, f):
    a = f.node.args
    out = {}
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == "dtype":
            P = frozenset({"param:dtype"})
            out["dtype"] = [("none", lambda st: const(None)), ("given", lambda st: V(Sym("dtype", P)))]
        if x.arg == "chunksize":
            out["chunksize"] = [("size", lambda st: V(Sym("int", frozenset({"param:chunksize"})))), ("none", lambda st: const(None)), ("chunks", lambda st: V(Sym("int", frozenset({"param:chunksize"}), tag="chunks")))]
    return out


def run(rep):
    rep.explanation = (
        "Information-flow analysis: every argument carries a label through data and control flow. For every function, graph kind and argument shape (single node, list, all nodes; chunked, unchunked; ga and NetworkX graphs) "
        "each argument that was given must be able to affect the result or an error, and a given weight attribute must reach the conversion from NetworkX and the edge values must reach the answer."
    )
    rep.assumptions = [
        "possible influence (a label) is what is decided, not the right formula (C30 is not claimed)",
        "ga graphs carry one set of edge values, so for them the attribute's name itself need not matter (documented design)",
    ]
    I = program(rep)
    for name, fv in dispatched(I).items():
        f = E.inner_func(I, fv)
        a = f.node.args
        allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        I.log_calls = set(allp)
        for kind in KINDS:
            for r in E.run_all(I, fv, kind, 200, overrides(I, f)):
                rep.absorb(r)
                tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
                if r.error or (r.value is None and not r.raises):
                    continue
                refused = r.value is None  # every path raises
                forwarded(rep, I, name, kind, tags, r)
                d = r.labels(I)
                for x in r.raises:
                    d |= x.pc
                for p, tag in r.tags.items():
                    if p in E.GRAPH_PARAMS or p == allp[0] or tag in DEFAULTED:
                        continue
                    if (name, p) in NO_EFFECT or ("*", p) in NO_EFFECT:
                        continue
                    attr = p in ("weight", "distance") and (name, p) not in NOT_ATTR and tag == "attr"
                    attr |= name == "edge_boundary" and p == "data" and tag == "attr"
                    if refused:
                        rep.ob("refused")
                        continue
                    if not (attr and not kind.startswith("nx:")):
                        ok = "param:" + p in d or "?param:" + p in d
                        rep.check(ok, "option-ignored", f"{name}|{p}", f"{name}({kind},{tags}): argument {p!r} has no effect on the result or on any error", [where(I, f)])
                    if attr:
                        ok = "G.vals" in d or "?G.vals" in d
                        rep.check(ok, "weight-unused", f"{name}|{p}", f"{name}({kind},{tags}): a weight attribute is requested but edge values do not reach the result", [where(I, f)])
                        for e in r.events:
                            if e[0] == "from_networkx":
                                w = deps_of(e[3]["weight"])
                                rep.check("param:" + p in w or "?param:" + p in w, "weight-not-passed", f"{name}|{p}", f"{name}({kind},{tags}): the conversion from NetworkX does not take the requested attribute", [site(e[1])])
    rep.floor("option-ignored", 400)
    rep.floor("option-dropped", 300)
    rep.floor("weight-dropped", 50)
    rep.floor("weight-unused", 100)
    rep.floor("weight-not-passed", 50)



def forwarded(rep, I, name, kind, tags, r):
    """Every route of the wrapper hands its option on to the function that takes an option of that name."""
    for e in r.events:
        if e[0] != "usercall":
            continue
        i = e[3]
        fa = i["func"].node
        if isinstance(fa, ast.Lambda):
            continue
        # a core function that knows a weighted and an unweighted answer is told which one is asked for
        w = "weight" if "weight" in r.tags else "distance"
        if r.tags.get(w) == "attr":
            for x in fa.args.args + fa.args.kwonlyargs:
                if x.arg in ("weighted", "is_weighted"):
                    d = i["deps"].get(x.arg, NO) | i["pc"]
                    rep.check(x.arg not in i["off"] or "param:" + w in d or "?param:" + w in d, "weight-dropped", f"{name}|{w}|{i['func'].qual}", f"{name}({kind},{tags}): a call of {i['func'].qual} is not told whether edges are weighted", [site(e[1])])
        if not e[1][0].startswith(NX_DIR):
            continue
        names = [x.arg for x in fa.args.posonlyargs + fa.args.args + fa.args.kwonlyargs]
        for p, tag in r.tags.items():
            if p in E.GRAPH_PARAMS or p in E.NODE_PARAMS or p in E.COLL_PARAMS or tag in DEFAULTED or p not in names or p == "nodes":
                continue
            d = i["deps"].get(p, NO) | i["pc"]
            rep.check("param:" + p in d or "?param:" + p in d, "option-dropped", f"{name}|{p}|{i['func'].qual}", f"{name}({kind},{tags}): the call of {i['func'].qual} is not given the option {p!r}", [site(e[1])])
