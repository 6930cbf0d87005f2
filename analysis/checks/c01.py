"""C01: no call changes the graph or the arguments it was given."""
from .common import *
from .own import core_runs, getter_runs, runs

OBSERVABLE = {"_A", "_key_to_id", "graph", "name", "matrix"}


def outside(owner):
    return sorted(x for x in owner if x.split(":")[0] in ("arg", "cache"))


def numbering_memo(e, I):
    """`_id_to_key` may be filled lazily; anything else seen through it would change the numbering."""
    return e[3]["name"] == "_id_to_key"


def run(rep):
    rep.explanation = (
        "Ownership analysis: graphs, their adjacency matrix, numbering table, attribute dict, their kept derived data and every list/dict/vector argument carry an owner; "
        "every write the abstract execution reaches (item and slice assignment, <<, accumulation, in-place methods of matrices, vectors, lists, dicts, sets and graph objects, attribute writes) "
        "is checked to be on an object without an owner.  Every dispatched function, graph method and conversion is executed on every graph kind and argument shape, through all helpers."
    )
    rep.assumptions = ["python-graphblas modifies only the object on the left of <<, of an item assignment or of an in-place method"]
    I = program(rep)
    bad = {}
    done = {}
    getters = list(getter_runs(I))
    # numbers that the getters of this tree keep as (mutable) Scalars
    I.scalar_props = {n for n, masked, r in getters for a in r.value or () if isinstance(a, Ref) and (o := r.st.heap.get(a.oid)) is not None and o.kind == "tensor" and o.f["tk"] == "S"}

    def everything():
        yield from runs(I, rep)
        yield from core_runs(I)
        for n, masked, r in getters:
            if r.value is not None:
                yield f"{r.kind}.get_property({n}{', mask' if masked else ''})", r

    for label, r in everything():
        rep.absorb(r)
        if r.error:
            rep.notes.append(f"{label}({r.kind},{r.tags}): {r.error}")
        done.setdefault(label, 0)
        done[label] += 1
        for e in r.events:
            if e[0] == "mutate":
                own = outside(e[3]["owner"])
                if own:
                    bad.setdefault((site(e[1]), "write", ",".join(sorted({o.split(":")[0] for o in own}))), []).append((label, r, own, e))
            elif e[0] == "inst_write" and e[3]["name"] in OBSERVABLE:
                own = outside(e[3]["owner"])
                if own:
                    bad.setdefault((site(e[1]), "attribute", e[3]["name"]), []).append((label, r, own, e))
    hit = set()
    for (where_, what, _), xs in sorted(bad.items()):
        label, r, own, e = xs[0]
        hit |= {x[0] for x in xs}
        rep.check(False, "unowned-write", f"{where_.split(' ', 1)[-1]}|{e[3].get('how') or e[3].get('name')}", f"{where_} modifies storage of {own} ({e[3].get('how') or e[3].get('name')}) when called through {label}({r.kind}, {({k: v for k, v in r.tags.items() if v})})", [where_] + sorted({x[0] for x in xs})[:6])
    for label, n in done.items():
        if label not in hit:
            rep.check(True, "unowned-write", label, f"{n} runs")
    rep.floor("unowned-write", 180)
