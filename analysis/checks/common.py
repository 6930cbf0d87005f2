"""Shared by the checks: loaded program, dispatch table, corpus of abstract runs."""
from __future__ import annotations

import json
import os

from .. import entries as E
from ..core import *
from ..interp import PathEnd
from ..report import VERIF

PKG = E.PKG
IFACE = PKG + ".interface"
NXAPI = PKG + ".nxapi"


def oracle():
    with open(os.path.join(VERIF, "oracle", "networkx.json")) as f:
        return json.load(f)


def program(rep):
    I = E.load(rep.repo)
    fails = getattr(I, "module_failures", {})
    for m, recs in fails.items():
        rep.notes.append(f"module {m} could not be executed abstractly: {[str(r.exc) for r in recs][:3]}")
    return I


def dispatcher(I):
    for a in I.modules[IFACE].get("Dispatcher", ()):
        if isinstance(a, Cls):
            return a
    raise AssertionError("no Dispatcher class in interface.py")


NOT_ALGOS = {"convert_from_nx", "convert_to_nx", "on_start_tests"}


def dispatched(I):
    """{name: value} of the algorithms in the dispatch table."""
    out = {}
    for k, v in dispatcher(I).attrs.items():
        if k.startswith("_") or k in NOT_ALGOS:
            continue
        if E.inner_func(I, v) is not None:
            out[k] = v
    return out


def where(I, f):
    return f"{I.modfile.get(f.mod, f.mod)}:{f.node.lineno} {f.qual}" if isinstance(f, Func) else str(f)


def site(s):
    return f"{s[0]}:{s[2]} {s[1]}" if isinstance(s, tuple) and len(s) >= 3 else str(s)


def outer_identity(v):
    """A hashable identity of the object bound to a name."""
    return frozenset(a for a in v if isinstance(a, (Func, Ref, Cls, Ext)))


def short(qual):
    return qual.rsplit(".", 1)[-1]


def const_val(v):
    """The single Python constant a value must be, or raise KeyError."""
    if len(v) == 1 and isinstance(v[0], Const):
        return v[0].val
    raise KeyError


def to_python(I, v, st=None):
    """Abstract value -> Python value, for literals built from constants, lists, tuples, sets and dicts."""
    heap = st.heap if st is not None else I.base_heap
    if len(v) != 1:
        raise ValueError(f"not one value: {v}")
    a = v[0]
    if isinstance(a, Const):
        return a.val
    if isinstance(a, Ref):
        o = heap.get(a.oid)
        if o is not None and o.kind in ("list", "tuple", "set") and o.get("elts") is not None:
            xs = [to_python(I, e, st) for e in o.f["elts"]]
            return tuple(xs) if o.kind == "tuple" else xs if o.kind == "list" else set(xs)
        if o is not None and o.kind == "dict":
            return {k: to_python(I, e, st) for k, e in o.get("entries", {}).items()}
    raise ValueError(f"not a literal: {a}")


class Corpus:
    """All dispatched functions, each run on every permitted kind and argument shape."""

    def __init__(self, I, rep=None, kinds=("Graph", "DiGraph"), limit=64, names=None):
        self.I, self.runs = I, []
        self.names = {}
        for name, fv in dispatched(I).items():
            if names is not None and name not in names:
                continue
            f = E.inner_func(I, fv)
            self.names[name] = f
            for kind in kinds:
                for r in E.run_all(I, fv, kind, limit):
                    r.name = name
                    r.inner = f
                    self.runs.append(r)
                    if rep is not None:
                        rep.absorb(r)
                        if r.error:
                            rep.notes.append(f"{name}({kind},{r.tags}): {r.error}")

    def of(self, name):
        return [r for r in self.runs if r.name == name]
