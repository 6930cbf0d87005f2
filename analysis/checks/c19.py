"""C19: every call returns a finished value."""
import itertools

from .common import *
from .own import core_runs, runs

LAZY = {"expr": "an unevaluated expression", "mask": "a mask", "upd": "an update handle", "ns": "a namespace"}


def unfinished(I, v, st, path="result", seen=None, out=None, view_ok=False):
    seen = set() if seen is None else seen
    out = [] if out is None else out
    for a in v:
        if not isinstance(a, Ref) or a.oid in seen:
            continue
        seen.add(a.oid)
        o = st.heap.get(a.oid)
        if o is None:
            continue
        if o.kind in LAZY:
            out.append((path, LAZY[o.kind]))
        elif o.kind == "tview" and not view_ok:
            out.append((path, "a transposed view"))
        elif o.kind == "tensor" and o.get("tk") == "S":
            out.append((path, "a backend Scalar"))
        if o.kind == "inst":
            for k, x in o.f["attrs"].items():
                if k not in ("_cache", "graph", "_key_to_id", "_id_to_key"):
                    unfinished(I, x, st, path + "." + k, seen, out, view_ok)
            continue
        for k in ("k", "v", "elem"):
            if o.get(k):
                unfinished(I, o.f[k], st, f"{path}[{k}]", seen, out)
        for i, x in enumerate(o.get("elts") or ()):
            unfinished(I, x, st, f"{path}[{i}]", seen, out)
        for i, x in (o.get("entries") or {}).items():
            unfinished(I, x, st, f"{path}[{i!r}]", seen, out)
    return out


def returns_none(v):
    return any(isinstance(a, Const) and a.val is None for a in v)


def run(rep):
    rep.explanation = (
        "Typestate analysis: every value returned or yielded on every path of every dispatched function, graph method and conversion is followed through containers, node maps and graphs; "
        "none may still be an expression, mask, transposed view or backend Scalar; no function that returns a value on one path may fall off its end on another; "
        "a dispatched function returns None only where an argument asks for it (a default)."
    )
    rep.assumptions = ["the classification of python-graphblas operations into lazy and evaluated ones (v+w, A@B, A[i,:], v.reduce(), comparisons, ... are lazy; .new(), .get(), .value, .nvals, indexed .get are evaluated)"]
    I = program(rep)
    for label, r in itertools.chain(runs(I, rep), core_runs(I)):
        rep.absorb(r)
        tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
        for e in r.events:
            if e[0] == "falls_off":
                rep.check(False, "falls-off-the-end", f"{e[3]['mod']}.{e[3]['func']}", f"{e[3]['func']} returns a value on some paths and implicitly None on another", [site(e[1]), label])
        for m, q in r.funcs:
            rep.ob("falls-off-the-end", n=1)
        if r.value is None:
            continue
        view = label.endswith("reverse") and r.tags.get("copy") == "false"
        seen = set()
        for v in [r.value] + list(r.yields):
            for path, what in unfinished(I, v, r.st, seen=seen, view_ok=view):
                rep.check(False, "finished", f"{label}|{path}|{what}", f"{label}({r.kind},{tags}) returns {what} at {path}", [where(I, r.inner)])
        rep.ob("finished", f"{label}({r.kind},{tags})")
        if label in dispatched(I) and returns_none(r.value) and "default" not in r.tags:
            rep.check(False, "returns-none", label, f"{label}({r.kind},{tags}) may return None", [where(I, r.inner)])
        rep.ob("returns-none")
    rep.floor("finished", 600)
