"""C08: graph kinds refused exactly where NetworkX refuses them."""
from .common import *

NXNI = ("networkx.NetworkXNotImplemented", "networkx.exception.NetworkXNotImplemented")


def refused(nif, kind):
    """NetworkX semantics: one decorator refuses when all its types match; stacked decorators refuse independently."""
    t = {"directed": "Di" in kind, "undirected": "Di" not in kind, "multigraph": "Multi" in kind, "graph": "Multi" not in kind}
    return any(all(t[x] for x in types) for types in nif)


def is_ni(x, I):
    if isinstance(x, Ext):
        return x.name in NXNI
    if isinstance(x, Cls):
        return any(isinstance(b, Ext) and b.name in NXNI for b in x.mro())
    return False


def run(rep):
    rep.explanation = (
        "Every dispatched function is executed abstractly, with its decorators, on a graph object of each of the four kinds (and on a raw matrix), for every argument shape; "
        "whether all paths, no path or some path end in NetworkXNotImplemented before any work is compared with the not_implemented_for declarations frozen from NetworkX."
    )
    rep.assumptions = ["oracle/networkx.json is a faithful extract of the NetworkX source"]
    I = program(rep)
    orc = oracle()
    for n, v in sorted(dispatched(I).items()):
        if n not in orc:
            continue
        f = E.inner_func(I, v)
        w = [where(I, f)]
        for kind in E.KINDS:
            want = refused(orc[n]["nif"], kind)
            c = f"{n}({kind})"
            late = accepted = refusals = total = 0
            sites = []
            for r in E.run_all(I, v, kind, 16):
                rep.absorb(r)
                total += 1
                ni = [x for x in r.raises if is_ni(x.exc, I)]
                if ni:
                    refusals += 1
                    sites += [site(x.site) for x in ni]
                    if any(e[0] == "cache_store" for e in r.events):
                        late += 1
                if r.value is not None:
                    accepted += 1
            if not total:
                continue
            if want:
                rep.check(refusals == total and not accepted, "must-refuse", c, f"NetworkX refuses {kind} in {n}; here {accepted} of {total} argument shapes go through", w)
                rep.check(not late, "refuse-before-work", c, f"{n} computes derived data before refusing {kind}", w)
            else:
                rep.check(not refusals, "must-accept", c, f"NetworkX accepts {kind} in {n}; here it raises NetworkXNotImplemented", w + sites[:2])
        # raw matrices
        ok = bad = 0
        sites = []
        for r in E.run_all(I, v, "Matrix", 16):
            rep.absorb(r)
            ni = [x for x in r.raises if is_ni(x.exc, I) or (isinstance(x.exc, Ext) and x.exc.name in ("builtins.TypeError", "builtins.AttributeError"))]
            if r.value is not None:
                ok += 1
            elif ni:
                bad += 1
                sites += [f"{site(x.site)} raises {x.exc}" for x in ni]
        if ok or bad:
            rep.check(not bad, "raw-matrix-accepted", n, f"{n} refuses a raw matrix", w + sites[:3])
    rep.floor("must-refuse", 40)
    rep.floor("must-accept", 180)
    rep.floor("raw-matrix-accepted", 50)
