"""C09: node labels and internal positions are never confused."""
import itertools

from .common import *
from .own import core_runs, runs

MAPS = {"NodeMap": "vector", "NodeSet": "vector", "VectorNodeMap": "matrix", "NodeNodeMap": "matrix"}


def table_space(I, v, st):
    """The numbering of a {label: row} table: a space, or None if unknown or several pieces."""
    out = set()
    for a in v:
        o = st.heap.get(a.oid) if isinstance(a, Ref) else None
        if o is None:
            if isinstance(a, Const) and a.val is None:
                continue
            return None
        segs = o.get("segs")
        if segs is None or len(segs) != 1 or segs[0][1]:
            return None
        out.add(segs[0][0])
    return out.pop() if len(out) == 1 else None


def differ(I, a, b):
    """Are two spaces certainly about different things?"""
    if a is None or b is None or a == b:
        return False
    if not (I.space_known(a) and I.space_known(b)):
        return False
    return I.spaces_clash(a, b)


def positions(I, v, st, path="result", seen=None, out=None):
    """Row numbers among the Python values of a result; node maps checked as a whole."""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    for a in v:
        if isinstance(a, Sym):
            if a.kind == "idx" and a.space is not None and a.space[0] in ("n", "seq"):
                out.append((path, f"a row number of {I.show_space(a.space)}"))
            continue
        if not isinstance(a, Ref) or a.oid in seen:
            continue
        seen.add(a.oid)
        o = st.heap.get(a.oid)
        if o is None:
            continue
        if o.kind == "inst":
            continue
        for k in ("k", "v", "elem"):
            if o.get(k) and (k != "elem" or o.get("elts") is None):
                positions(I, o.f[k], st, f"{path}[{k}]", seen, out)
        for i, x in enumerate(o.get("elts") or ()):
            positions(I, x, st, f"{path}[{i}]", seen, out)
        for i, x in (o.get("entries") or {}).items():
            positions(I, x, st, f"{path}[{i!r}]", seen, out)
    return out


def maps(v, st, seen=None, out=None, path="result"):
    seen = set() if seen is None else seen
    out = [] if out is None else out
    for a in v:
        if not isinstance(a, Ref) or a.oid in seen:
            continue
        seen.add(a.oid)
        o = st.heap.get(a.oid)
        if o is None:
            continue
        if o.kind == "inst":
            out.append((path, a, o))
            continue
        for k in ("k", "v", "elem"):
            if o.get(k):
                maps(o.f[k], st, seen, out, f"{path}[{k}]")
        for i, x in enumerate(o.get("elts") or ()):
            maps(x, st, seen, out, f"{path}[{i}]")
    return out


def run(rep):
    rep.explanation = (
        "Unit analysis: every row or column number carries the numbering it belongs to (the nodes of graph G, of H, of a caller's node list, an offset piece of a combined graph), every label is a separate kind, and every matrix and vector dimension carries its numbering. "
        "On every path of every dispatched function, graph method and conversion: numbers are used only in tables and dimensions of their own numbering, labels are never used as numbers and numbers never as labels, "
        "element-wise operations, products, masks and assignments combine dimensions of one numbering, every returned node map pairs its storage with the table of the same numbering and says correctly whether its values are positions, "
        "and no row number reaches a returned Python value or an error message."
    )
    rep.assumptions = [
        "the graph's own table and matrix agree on entry (C10 checks this for every graph the package builds)",
        "a value whose numbering the analysis lost (counted as unmodelled or unknown) is not judged",
    ]
    I = program(rep)
    for label, r in itertools.chain(runs(I, rep, kinds=("Graph", "DiGraph")), core_runs(I)):
        rep.absorb(r)
        tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
        seen_ev = False
        for e in r.events:
            if e[0] == "space":
                seen_ev = True
                rep.check(False, "numbering", f"{site(e[1]).split(':')[0]}|{site(e[1]).split(' ', 1)[-1]}|{e[3]['what'][:60]}", f"{label}({r.kind},{tags}): {e[3]['what']}", [site(e[1])])
        if not seen_ev:
            rep.ob("numbering", f"{label}({r.kind},{tags})")
        for x in r.raises:
            for arg in x.info.get("args") or ():
                for a in arg:
                    bad = isinstance(a, Sym) and (a.tag == "hasidx" or a.kind == "idx" and a.space and a.space[0] == "n")
                    rep.check(not bad, "error-names-label", f"{label}|{x.exc}", f"{label}({r.kind},{tags}): the error reports a row number instead of the node's label", [site(x.site)])
        if r.value is None:
            continue
        for v in [r.value] + list(r.yields):
            for path, what in positions(I, v, r.st):
                rep.check(False, "result-label", f"{label}|{path}", f"{label}({r.kind},{tags}) returns {what} at {path}", [where(I, r.inner)])
            rep.ob("result-label", label)
            for path, a, o in maps(v, r.st):
                nm = o.f["cls"].name
                if nm not in MAPS:
                    continue
                at = o.f["attrs"]
                sp = table_space(I, at.get("_key_to_id", ()), r.st)
                keyed = at.get("_values_are_keys", ())
                for x in at.get(MAPS[nm], ()):
                    c = I.content(x, r.st)
                    if c is None:
                        continue
                    if sp is None or c.rs is None:
                        rep.ob("map-numbering-unknown")
                    else:
                        rep.check(not differ(I, c.rs, sp), "map-numbering", f"{label}|{path}", f"{label}({r.kind},{tags}): {nm} pairs rows of {I.show_space(c.rs)} with the labels of {I.show_space(sp)}", [where(I, r.inner)])
                    if nm == "NodeNodeMap" and sp is not None and c.cs is not None:
                        rep.check(not differ(I, c.cs, sp), "map-numbering", f"{label}|{path}|columns", f"{label}({r.kind},{tags}): NodeNodeMap pairs columns of {I.show_space(c.cs)} with the labels of {I.show_space(sp)}", [where(I, r.inner)])
                    if nm == "VectorNodeMap" and c.cs is not None:
                        rep.check(c.cs[0] != "n", "map-numbering", f"{label}|{path}|columns", f"{label}({r.kind},{tags}): VectorNodeMap reports column numbers of {I.show_space(c.cs)} to the caller", [where(I, r.inner)])
                    if nm in ("NodeMap", "NodeNodeMap"):
                        known = len(keyed) == 1 and isinstance(keyed[0], Const)
                        if known:
                            if c.vs is not None and I.space_known(c.vs):
                                rep.check(keyed[0].val, "values-are-positions", f"{label}|{path}", f"{label}({r.kind},{tags}): {nm} reports row numbers of {I.show_space(c.vs)} as values", [where(I, r.inner)])
                                if keyed[0].val and sp is not None:
                                    rep.check(not differ(I, c.vs, sp), "values-are-positions", f"{label}|{path}|table", f"{label}({r.kind},{tags}): values are rows of {I.show_space(c.vs)} but are shown as labels of {I.show_space(sp)}", [where(I, r.inner)])
                            elif c.vs is None and not keyed[0].val:
                                rep.ob("values-are-values")
    rep.floor("numbering", 400)
    rep.floor("map-numbering", 60)
