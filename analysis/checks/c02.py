"""C02: results own their storage."""
import itertools

from .common import *
from .own import core_runs, getter_runs, runs, storage

# conversions may hand back the very graph they were given
SAME_OK = {"convert_from_nx", "convert_to_nx"}


def run(rep):
    rep.explanation = (
        "Escape analysis: the value returned (or yielded) on every path of every dispatched function, graph method and conversion is followed through tuples, lists, dicts, node maps, node sets and graphs; "
        "no matrix, vector, list or dict reached that way may carry the owner mark of the input graph, of the data it keeps for reuse (including what the call itself stored there) or of an argument."
    )
    rep.assumptions = [".new() and .dup() return fresh storage; so do operators evaluated into a new object"]
    I = program(rep)
    for label, r in itertools.chain(runs(I, rep), core_runs(I)):
        rep.absorb(r)
        if r.value is None:
            continue
        if label in SAME_OK:
            continue
        view = label.endswith("reverse") and r.tags.get("copy") == "false"
        found = []
        seen = set()
        for v in [r.value] + list(r.yields):
            found += storage(I, v, r.st, seen=seen)
        tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
        for path, oid, o in found:
            if view and path.startswith(("result._A", "result.graph")):
                continue
            own = sorted(x for x in o.f["owner"] if x.split(":")[0] in ("arg", "cache"))
            if own:
                rep.check(False, "fresh-result", f"{label}|{path}|{own[0].split(':')[0]}", f"{label}({r.kind},{tags}) returns storage of {own} at {path}", [where(I, r.inner)])
        rep.ob("fresh-result", f"{label}({r.kind},{tags})")
    for n, masked, r in getter_runs(I):
        rep.absorb(r)
        if not masked or r.value is None or not n.rstrip("+-").endswith(("_rowwise", "_columnwise", "degrees", "diag")) or n.startswith("offdiag"):
            continue
        # a masked degree/reduction vector is handed to callers that edit it
        for path, oid, o in storage(I, r.value, r.st):
            if o.kind == "tensor" and o.get("tk") == "V":
                rep.check(False, "masked-property-is-fresh", f"{r.kind}.{n}", f"get_property({n!r}, mask=...) of {r.kind} returns the kept vector itself", [])
        rep.ob("masked-property-is-fresh", f"{r.kind}.{n}")
    rep.floor("masked-property-is-fresh", 40)
    rep.floor("fresh-result", 300)
