"""C06: the dispatch table, advertised list, namespaces, README and return conversion agree."""
import os
import re

from .common import *

SCIPY = {"adjacency_matrix", "bethe_hessian_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "tournament_matrix"}
# NetworkX functions that are not attributes of the networkx namespace itself
NOT_TOP = {"inter_community_edges", "intra_community_edges", "mutual_weight", "score_sequence", "tournament_matrix"}


def is_matrix(o):
    return o is not None and o.kind == "tensor" and o.f["tk"] == "M"


def core_functions(I):
    out = {}
    for m, attrs in I.modules.items():
        if m.startswith(PKG + ".") and not m.startswith(NXAPI) and m != IFACE:
            for k, v in attrs.items():
                for a in v:
                    if isinstance(a, Func) and a.mod == m and a.qual == k:
                        out.setdefault(k, set()).add(a)
    return out


def readme_tree(repo):
    path = os.path.join(repo, "README.md")
    if not os.path.exists(path):
        return None
    text = open(path, encoding="utf-8").read()
    m = re.search(r"Begin auto-generated code.*?```\n(.*?)```", text, re.S)
    if not m:
        return None
    out, stack = [], []
    lines = [x for x in m.group(1).splitlines() if x.strip()]
    root = lines[0].strip()
    rows = []
    for line in lines[1:]:
        mm = re.match(r"^([│ ]*)[├└]── (\w+)\s*$", line)
        if mm:
            rows.append((len(mm.group(1)) // 4, mm.group(2)))
    for i, (d, name) in enumerate(rows):
        stack[d:] = [name]
        if i + 1 == len(rows) or rows[i + 1][0] <= d:
            out.append(".".join([root, *stack]))
    return out


def resolve(I, path):
    """A dotted path: module attributes, with the module of that name preferred for all but the last part."""
    mod, _, leaf = path.rpartition(".")
    if mod in I.modules:
        return I.modules[mod].get(leaf, ())
    return ()


def run(rep):
    rep.explanation = (
        "Module-level code of the package and get_info() are executed abstractly; each entry of the dispatch table is resolved "
        "to the function definition behind its decorators and compared with the advertised list, the nxapi namespaces, the README tree and the "
        "frozen list of NetworkX dispatchable functions. convert_to_nx is executed abstractly on every kind of value the dispatched functions return."
    )
    rep.assumptions = ["oracle/networkx.json is a faithful extract of the NetworkX source the package is used with"]
    I = program(rep)
    orc = oracle()
    D = dispatcher(I)
    table = dispatched(I)
    # advertised list
    E.reset(I)
    st = E.fresh_state(I)
    info = to_python(I, I.call(I.modules["_nx_graphblas"]["get_info"], [], {}, st, None), st)
    adv = info.get("functions", {})
    for n in sorted(set(adv) | set(table)):
        rep.check(n in adv, "dispatched-but-not-advertised", n, f"Dispatcher.{n} exists but get_info() does not list it: NetworkX never documents it")
        rep.check(n in table, "advertised-but-not-dispatched", n, f"get_info() lists {n} but Dispatcher has no such function")
        rep.check(n in orc, "not-a-networkx-function", n, f"{n} is not a NetworkX dispatchable function")
    for k, val in (("backend_name", "graphblas"), ("package", PKG)):
        rep.check(info.get(k) == val, "backend-info", k, f"get_info()[{k!r}] is {info.get(k)!r}")
    # identity of table entries
    defname = {}
    for n, v in table.items():
        defname[n] = E.inner_func(I, v)
    byfunc = {}
    for n, f in defname.items():
        byfunc.setdefault(f, []).append(n)
    for n, f in sorted(defname.items()):
        other = f.node.name != n and f.node.name in orc
        rep.check(not other, "bound-to-sibling", n, f"Dispatcher.{n} is bound to the implementation of {f.node.name}", [where(I, f)])
        rep.check(len(byfunc[f]) == 1, "shared-implementation", n, f"Dispatcher entries {byfunc[f]} share one implementation", [where(I, f)])
        rep.check(f.mod.startswith(NXAPI), "not-networkx-facing", n, f"Dispatcher.{n} is bound to {f.mod}.{f.qual}, which is not a NetworkX-facing function", [where(I, f)])
        if n in orc and f.mod.startswith(NXAPI + "."):
            want = orc[n]["module"].removeprefix("algorithms.")
            got = f.mod.removeprefix(NXAPI + ".")
            rep.check(want.split(".")[0] == got.split(".")[0], "namespace", n, f"NetworkX defines {n} in {want}, nxapi in {got}", [where(I, f)])
        top = I.modules[NXAPI].get(n, ())
        if n not in NOT_TOP:
            ok = any(E.inner_func(I, (a,)) is f for a in top)
            rep.check(ok, "nxapi-namespace", n, f"nxapi.{n} is not the function the dispatcher uses for {n}", [where(I, f)])
    # README
    tree = readme_tree(rep.repo)
    if tree is not None:
        leaves = {}
        for p in tree:
            leaf = p.rsplit(".", 1)[1]
            leaves[leaf] = p
            v = resolve(I, p)
            ok = any(E.inner_func(I, (a,)) is defname.get(leaf, 0) for a in v)
            rep.check(ok, "readme-path", leaf, f"README lists {p}, which is not the dispatched function")
        for n in table:
            rep.check(n in leaves, "readme-missing", n, f"README does not list {n}")
        rep.floor("readme-path", 40)
    # wrapper reaches the core algorithm of the same name
    core = core_functions(I)
    names = [n for n in table if n in core]
    mats = {}
    for n, v in table.items():
        reached, vals = set(), False
        for kind in ("Graph", "DiGraph"):
            for r in E.run_all(I, v, kind, 24):
                rep.absorb(r)
                reached |= r.funcs
                if r.value is not None:
                    vals = True
                    for a in r.value:
                        if isinstance(a, Ref) and r.st.heap.get(a.oid) is not None and is_matrix(r.st.heap[a.oid]):
                            mats[n] = r
        if n in names and vals:
            ok = any((f.mod, f.qual) in reached for f in core[n])
            rep.check(ok, "wrapper-reaches-core", n, f"nxapi {n} never calls the core algorithm {sorted(f.mod for f in core[n])}", [where(I, defname[n])])
    # return conversion
    conv = D.attrs.get("convert_to_nx", ())
    for n, r in sorted(mats.items()):
        for a in r.value:
            if not isinstance(a, Ref) or not is_matrix(r.st.heap[a.oid]):
                continue
            E.reset(I)
            st = E.fresh_state(I)
            st.heap[a.oid] = r.st.heap[a.oid]
            rr = E.run(I, conv, "convert", [V(a)], {"name": const(n)}, st)
            kinds = set()
            for b in rr.value or ():
                if isinstance(b, Ref):
                    o = rr.st.heap.get(b.oid)
                    kinds.add("an unconverted matrix" if is_matrix(o) else ("numpy" if o.get("dense") else "a dense array without a fill value") if o.kind == "ndarray" else o.kind)
                elif isinstance(b, Sym) and b.tag == "scipy":
                    kinds.add("scipy")
                else:
                    kinds.add(str(b))
            want = "scipy" if n in SCIPY else "numpy"
            rep.check(kinds == {want}, "return-conversion", n, f"convert_to_nx turns the matrix returned by {n} into {sorted(kinds) or 'an error'}; NetworkX returns a {want} array", [site(x.site) for x in rr.raises])
    # dispatch markers on graph classes
    for cn in E.KINDS:
        for c in I.load(PKG).get(cn, ()):
            for attr in ("__networkx_backend__", "__networkx_plugin__"):
                v = c.lookup(attr)
                ok = v is not None and [getattr(x, 'val', None) for x in v] == ["graphblas"]
                rep.check(ok, "dispatch-marker", f"{cn}.{attr}", f"{cn}.{attr} is {v}: NetworkX would not dispatch it here")
    rep.floor("bound-to-sibling", 60)
    rep.floor("wrapper-reaches-core", 60)
    rep.floor("return-conversion", 5)
