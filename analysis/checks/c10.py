"""C10: constructed graphs have a consistent node numbering."""
import itertools

from .c09 import differ as differ0
from .common import *
from .own import core_runs, runs

from ..pymodel import lin_add


def stored(s):
    """Sequences of stored positions in ('coo', object, version), or None."""
    if isinstance(s, tuple) and len(s) == 2 and s[0] == "seq" and isinstance(s[1], tuple) and s[1][:1] == ("coo",):
        return s[1]
    return None


def differ(I, a, b):
    """As in C09; besides, the stored positions of an object are neither all nodes nor those it had before it was written to."""
    if a is None or b is None or a == b:
        return False
    x, y = stored(a), stored(b)
    if x and y:
        return x[1] == y[1] and x[2] != y[2] and x[2][:1] == ("w",) == y[2][:1]
    alt = lambda s: s[0] == "seq" and isinstance(s[1], tuple) and s[1][:1] == ("alt",)
    if (x or alt(a)) and b[0] == "n" or (y or alt(b)) and a[0] == "n":
        return True
    return differ0(I, a, b)


def graphs(v, st, seen=None, out=None):
    seen = set() if seen is None else seen
    out = [] if out is None else out
    for a in v:
        if not isinstance(a, Ref) or a.oid in seen:
            continue
        seen.add(a.oid)
        o = st.heap.get(a.oid)
        if o is None:
            continue
        if o.kind == "inst" and "_A" in o.f["attrs"]:
            out.append((a, o))
            continue
        for k in ("k", "v", "elem"):
            if o.get(k):
                graphs(o.f[k], st, seen, out)
        for x in o.get("elts") or ():
            graphs(x, st, seen, out)
    return out


def length(I, sp):
    """Number of labels in a piece of a numbering table."""
    if sp[0] == "n":
        return ((f"n:{sp[1]}", 1),)
    if sp[0] == "lin":
        return sp[1]
    if sp[0] == "run":
        return sp[2]
    if sp[0] == "seq":
        return ((f"len:{sp}", 1),)
    return None


def shift(a, b):
    return lin_add(a, b, 1)


def zero(l):
    return not l or all(c == 0 for _, c in l)


def check_pieces(I, segs):
    """None if the pieces tile 0..n; else what is wrong. Also the total."""
    total = ()
    for sp, off, _ in segs:
        start = off
        if sp[0] == "run":
            start = shift(sp[1], off) if off else sp[1]
        if start is None or total is None:
            return None, None
        d = lin_add(start, total, -1)
        if d is None:
            return None, None
        if not zero(d):
            return f"labels of {I.show_space(sp)} are numbered from {show(start)} although {show(total)} rows are taken before them", None
        n = length(I, sp)
        total = lin_add(total, n, 1) if n is not None else None
    return None, total


def show(l):
    return " + ".join(k and f"{c}*{k}" if c != 1 else k or str(c) for k, c in l)[:80] or "0"


def conclusive(l):
    return l is not None and all(k == "" or k.startswith("n:") for k, _ in l)


def labels_of(segs):
    """Which numbering the labels of each piece come from, if recorded."""
    out = []
    for sp, off, ks in segs:
        out.append(tuple(ks))
    return out


def run(rep):
    rep.explanation = (
        "Every graph value returned by a dispatched function, graph method or conversion is examined where it was built: its numbering table is recovered as pieces {label_k: offset + k} over a known sequence of labels "
        "and its adjacency matrix carries the numbering of its rows and columns through extraction, block assignment, concatenation and element-wise combination. "
        "Pieces must start where the previous ones end, in insertion order (so iteration follows row order), the matrix must be square and have exactly the numbering of the table, "
        "the labels of a piece must belong to the nodes whose rows fill it, and blocks written into a combined matrix must sit at the offsets of the table."
    )
    rep.assumptions = ["the labels of one graph are distinct (dict keys) and the tables of argument graphs are consistent on entry"]
    I = program(rep)
    for label, r in itertools.chain(runs(I, rep, kinds=("Graph", "DiGraph")), core_runs(I)):
        rep.absorb(r)
        tags = ",".join(f"{k}={v}" for k, v in r.tags.items() if v and v not in ("default", "sym"))
        if r.value is None:
            continue
        built = [o for v in [r.value] + list(r.yields) for a, o in graphs(v, r.st)]
        for e in r.events:
            if e[0] == "space" and built:
                rep.check(False, "edges-under-labels", f"{label}|{e[3]['what'][:60]}", f"{label}({r.kind},{tags}): {e[3]['what']}", [site(e[1])])
        for o in built:
            rep.ob("edges-under-labels", label)
            one(rep, I, label, r, tags, o)
    rep.floor("numbering", 40)


def one(rep, I, label, r, tags, o):
    at = o.f["attrs"]
    w = [where(I, r.inner)]
    mats = [I.content(x, r.st) for x in at.get("_A", ())]
    tabs = []
    for x in at.get("_key_to_id", ()):
        h = r.st.heap.get(x.oid) if isinstance(x, Ref) else None
        tabs.append(h.get("segs") if h is not None else None)
    if any(m is None for m in mats) or not mats or not tabs:
        rep.ob("unknown-numbering", label)
        return
    ctx = f"{label}({r.kind},{tags})"
    # square, one numbering
    for m in mats:
        if m.rs is not None and m.cs is not None:
            rep.check(not differ(I, m.rs, m.cs), "square", label, f"{ctx}: rows are numbered by {I.show_space(m.rs)}, columns by {I.show_space(m.cs)}", w)
        else:
            rep.ob("unknown-numbering", label)
    # lazily built inverse table must come from the same table
    inv = at.get("_id_to_key", ())
    known = [t for t in tabs if t is not None]
    if len(known) < len(tabs):
        rep.ob("unknown-numbering", label)
    totals = []
    for segs in known:
        bad, total = check_pieces(I, segs)
        rep.check(bad is None, "numbering", f"{label}|offsets", f"{ctx}: {bad}", w)
        totals.append(total)
    if len(known) < len(tabs):
        return
    # each matrix alternative must agree with some table alternative (alternatives are joined separately)
    for m in mats:
        if m.rs is None:
            continue
        oks = []
        for segs, total in zip(known, totals):
            if len(segs) == 1 and not segs[0][1] and segs[0][0][0] != "run":
                oks.append(not differ(I, m.rs, segs[0][0]) and not differ(I, m.cs, segs[0][0]))
            else:
                ml = I.lin_of_space(m.rs)
                if ml is None or total is None:
                    oks.append(True)
                else:
                    d = lin_add(ml, total, -1)
                    oks.append(d is None or zero(d) or not conclusive(d))
        rep.check(any(oks), "numbering", f"{label}|matrix", f"{ctx}: the adjacency matrix is numbered by {I.show_space(m.rs)} but the table by {'; '.join(I.show_space(s[0][0]) for s in known)}", w)
    # blocks of a combined matrix
    for m in mats:
        if not m.blocks or m.blocks == (("?",),):
            continue
        for segs in known:
            if len(segs) < 2:
                continue
            starts = {}
            pos = ()
            for sp, off, ks in segs:
                starts[sp] = off if sp[0] != "run" else sp[1]
            for b in m.blocks:
                if len(b) != 3 or b[0][:1] != ("at",) or b[1][:1] != ("at",):
                    continue
                for side, xs in ((b[0], b[2][1] if len(b[2]) > 2 else None), (b[1], b[2][2] if len(b[2]) > 2 else None)):
                    if xs in starts and side[1] is not None:
                        d = lin_add(side[1], starts[xs], -1)
                        if d is not None:
                            rep.check(zero(d) or not conclusive(d), "blocks", f"{label}|{xs}", f"{ctx}: edges of {I.show_space(xs)} are written at offset {show(side[1])} but its labels start at {show(starts[xs])}", w)
    # labels of each piece belong to the nodes of that piece
    for segs in known:
        for sp, off, ks in segs:
            if sp[0] == "n":
                for k in ks:
                    if k.startswith("('n'") and k != str(sp):
                        rep.check(False, "labels", f"{label}|{sp}", f"{ctx}: rows of {I.show_space(sp)} are labelled with nodes of {k}", w)
                rep.ob("labels")
