#!/usr/bin/env python3
"""Debugging aid: what the interpreter derives for a dispatched function. show.py NAME [KIND] [LIMIT]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from analysis import entries as E
from analysis.checks.common import *
from analysis.core import *


def fmt(c):
    out = []
    for k in c.__slots__:
        v = getattr(c, k)
        if v in (None, False, NO, ()):
            continue
        if isinstance(v, frozenset):
            v = sorted(map(str, v))
        out.append(f"{k}={str(v)[:130]}")
    return " ".join(out)


def show(v, st, ind=6, seen=None, depth=0):
    seen = seen or set()
    for a in v:
        if isinstance(a, Ref):
            o = st.heap.get(a.oid)
            print(" " * ind + f"{a} {o.kind if o else None}", end=" ")
            if o is None or a.oid in seen or depth > 3:
                print("..."); continue
            seen.add(a.oid)
            c = o.f.get("c")
            if c is not None:
                print(o.get("tk"), fmt(c), "owner", set(o.get("owner") or ()))
                continue
            rest = {k: x for k, x in o.f.items() if k not in ("attrs", "elts", "elem", "entries", "k", "v")}
            if o.kind == "inst":
                print(o.f["cls"].name, "owner", set(o.get("owner") or ()), "segs", o.get("segs"))
                for k, x in o.f["attrs"].items():
                    if k in ("_cache", "graph"): continue
                    print(" " * (ind + 2) + "." + k)
                    show(x, st, ind + 4, seen, depth + 1)
                continue
            print(str({k: x for k, x in rest.items() if x not in (None, NO, False)})[:300])
            for k in ("k", "v", "elem"):
                x = o.get(k)
                if x:
                    print(" " * (ind + 2) + k + ":"); show(x, st, ind + 4, seen, depth + 1)
            for i, x in enumerate(o.get("elts") or ()):
                print(" " * (ind + 2) + f"[{i}]"); show(x, st, ind + 4, seen, depth + 1)
        else:
            print(" " * ind + repr(a)[:200])


if __name__ == "__main__":
    I = E.load(os.environ.get("VERIF_REPO", "/repo"))
    D = dispatched(I)
    kinds = [sys.argv[2]] if len(sys.argv) > 2 else ["Graph", "DiGraph"]
    lim = int(sys.argv[3]) if len(sys.argv) > 3 else 64
    fv = D.get(sys.argv[1])
    if fv is None:
        m, n = sys.argv[1].rsplit(".", 1)
        fv = I.modules[PKG + "." + m][n]
    for kind in kinds:
        for r in E.run_all(I, fv, kind, lim):
            print(kind, r.tags, r.error or "", "labels", None if r.value is None else sorted(r.labels(I)))
            for x in r.raises: print("    raises", x.exc, site(x.site))
            for e in r.events:
                if e[0] in ("space", "mutate", "inst_write", "row_assign", "badprop", "conv"): print("    event", e[0], site(e[1]), {k: str(v)[:400] for k, v in e[3].items()})
            if r.unknown: print("    unknown", r.unknown)
            if r.value is not None: show(r.value, r.st)
