"""C22, second part: questions about all nodes of a graph without edges."""
from .common import *


def without_edges(rep):
    """Questions about all nodes: a graph whose nodes have no edges is regular of degree 0."""
    I = program(rep)
    names = dispatched(I)
    I.nodes, I.edges = "some", 0
    for name, kinds, over in (("is_regular", ("Graph", "DiGraph"), {}), ("is_k_regular", ("Graph",), {"k": [("zero", lambda st: const(0))]})):
        if name not in names:
            continue
        f = E.inner_func(I, names[name])
        for kind in kinds:
            for r in E.run_all(I, names[name], kind, 8, over):
                rep.absorb(r)
                v = r.value or ()
                no = bool(v) and all(isinstance(a, Const) and a.val is False for a in v)
                rep.check(not no, "all-nodes", f"{name}|{kind}", f"{name}({kind}) says no for a graph whose nodes all have degree 0 because its nodes have no entries", [where(I, f)])
