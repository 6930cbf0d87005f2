"""C16: results do not depend on set, hash or storage order."""
import itertools

from .common import *
from .own import core_runs, runs

ORDERED = ("list", "tuple", "ndarray", "iter")


def arbitrary(r):
    """(path, what) of everything in the result that an unspecified order decides."""
    out, done = [], set()
    for i, v in enumerate([r.value] + list(r.yields)):
        todo = [("result" if i == 0 else "yielded", v, True)]
        while todo:
            path, x, order = todo.pop()
            for a in x:
                for l in getattr(a, "deps", None) or ():
                    if isinstance(l, str) and l.startswith("unord:"):
                        out.append((path, l[6:]))
                if not isinstance(a, Ref) or a.oid in done:
                    continue
                done.add(a.oid)
                o = r.st.heap.get(a.oid)
                if o is None:
                    continue
                for l in o.get("deps") or ():
                    if isinstance(l, str) and l.startswith("unord:"):
                        out.append((path, l[6:]))
                if o.kind in ORDERED and o.get("unord") and order:
                    out.append((path, "listed in an unspecified order"))
                c = o.get("c")
                for part in ("p", "v") if c is not None else ():
                    for l in getattr(c, part) or ():
                        if isinstance(l, str) and l.startswith("unord:"):
                            out.append((path, l[6:]))
                if o.kind == "inst":
                    graph = "_A" in o.f["attrs"]
                    for k, y in o.f["attrs"].items():
                        if k in ("graph", "_cache"):
                            continue
                        if graph and k == "_key_to_id":
                            for b in y:
                                t = r.st.heap.get(b.oid) if isinstance(b, Ref) else None
                                if t is not None and t.kind == "dict" and t.get("unord"):
                                    out.append((path, "nodes of the graph numbered in an unspecified order"))
                        todo.append((path + "." + k, y, order))
                    continue
                for k in ("k", "v", "elem"):
                    if o.get(k):
                        todo.append((path + "[]", o.f[k], order))
                for j, y in enumerate(o.get("elts") or ()):
                    todo.append((f"{path}[{j}]", y, order))
                for j, y in (o.get("entries") or {}).items():
                    todo.append((f"{path}[{j!r}]", y, order))
    return out


def run(rep):
    rep.explanation = (
        "Order analysis: iteration over sets (and key-view set algebra), to_coo(sort=False), next(iter(...)), pop() and `any` reductions over more than one value give values or sequences marked as unordered; sorting, "
        "counting, membership and element-wise use remove the mark. No list, tuple, array, generator, chosen value or node numbering that a dispatched function, core function, graph method or conversion returns may carry it."
    )
    rep.assumptions = ["iteration order of returned mappings and sets is not part of the answer", "to_coo() sorts by default; `any` over a single value is that value"]
    I = program(rep)
    for label, r in itertools.chain(runs(I, rep), core_runs(I)):
        rep.absorb(r)
        if r.value is None:
            continue
        tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
        rep.ob("order", f"{label}({r.kind},{tags})")
        for path, what in arbitrary(r):
            rule, _, at = what.partition("@")
            rep.viol("order", f"{label}|{path.split('[')[0]}|{rule}", f"{label}({r.kind},{tags}): {path}: {rule}", [at] if at else [where(I, r.inner)])
    rep.floor("order", 600)
