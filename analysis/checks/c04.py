"""C04: remembered answers are only reused for the same question; no state between calls."""
from .common import *
from .own import bools, getter_runs, runs


def params(labels):
    return {x for x in strip(labels) if x.startswith("param:")}


def key_text(v):
    return " | ".join(sorted(repr(a.val) if isinstance(a, Const) else f"text {a.name[1]}" if isinstance(a, Sym) and isinstance(a.name, tuple) and a.name and a.name[0] == "fmt" else type(a).__name__ for a in v))


def run(rep):
    rep.explanation = (
        "Label (information-flow) analysis of every store into a graph's cache reached from a dispatched function, graph method or conversion: the labels of the arguments that can influence the stored value "
        "(data and control flow through all helpers) must be among the labels that influence the key it is stored under, and no other graph may influence it. "
        "Writes to module variables, class attributes, function attributes, default argument objects and calls of lru_cache'd functions must not carry graph or argument data."
    )
    rep.assumptions = ["a value is remembered only through the graph's cache, a module-level or class-level object, a default argument object, a function attribute or functools.lru_cache/cache"]
    I = program(rep)
    names = {}
    for m, env in I.modules.items():
        for n, v in env.items():
            for a in v:
                if isinstance(a, Ref):
                    names.setdefault(a.oid, f"{m}.{n}")

    names_ = set(dispatched(I))
    remember = set()  # dispatched functions whose own code stores an answer
    facts = set()
    asked = {}  # dispatched functions that remember something their arguments influence

    def everything():
        yield from runs(I, rep)
        for n, masked, r in getter_runs(I):
            facts.add(n)
            yield f"{r.kind}.get_property({n}{', mask' if masked else ''})", r

    for label, r in everything():
        rep.absorb(r)
        rep.ob("call", label)
        for e in r.events:
            kind, info = e[0], e[3]
            w = [site(e[1]), f"called through {label}({r.kind}, {({k: v for k, v in r.tags.items() if v})})"]
            if kind == "cache_store":
                kt = key_text(info["key"])
                miss = params(info["val_deps"]) - params(info["key_deps"])
                if params(info["val_deps"]) and not miss:
                    asked[label] = True
                if info.get("asked") and r.name in names_:
                    remember.add(r.name)
                rep.check(not miss, "memo-key", f"{label}|{','.join(sorted(miss)) or 'ok'}", f"value stored under key {kt} of the graph's cache depends on {sorted(miss)}, the key does not", w)
                other = {x.split(".")[0] for x in strip(info["val_deps"]) if "." in x and not x.startswith(("param:", "hist:", "unord:"))} - {info["root"]}
                rep.check(not other, "memo-other-graph", f"{label}|{kt}", f"value stored under {kt} in the cache of {info['root']} depends on {sorted(other)}", w)
            elif kind in ("static_write", "attr_write", "global_write"):
                lab = {x for x in strip(info.get("deps") or NO) if not x.startswith(("unord:", "dir:", "end:"))}
                what = info.get("name") or info.get("target") or "object"
                rep.check(not lab, "state-between-calls", f"{e[1][1] if len(e[1]) > 1 else e[1]}|{info.get('what') or kind}|{what}", f"{kind} of {what} keeps data of {sorted(lab)[:5]} beyond the call", w)
            elif kind == "memo_call":
                lab = strip(info["deps"])
                rep.check(not lab, "state-between-calls", f"lru_cache|{info['func']}", f"memoised function {info['func']} is called with data of {sorted(lab)[:5]}", w)
    # different arguments, different keys: every combination of switches is followed with its concrete values
    everyone = {}
    for label, fv in dispatched(I).items():
        if label not in asked and label not in remember:
            continue
        a = E.inner_func(I, fv).node.args
        ps = a.posonlyargs + a.args
        switch = {x.arg for x, d in zip(ps[len(ps) - len(a.defaults):], a.defaults) if isinstance(getattr(d, "value", None), bool)}
        switch |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if isinstance(getattr(d, "value", None), bool)}
        for kind in ("Graph", "DiGraph"):
            kept = everyone.setdefault(kind, {})
            for r in E.run_all(I, fv, kind, 128, {x: bools(x) for x in switch}):
                rep.absorb(r)
                for e in r.events:
                    k = e[3].get("key") if e[0] == "cache_store" else None
                    if not k or len(k) != 1 or not isinstance(k[0], Const):
                        continue
                    mine = params(e[3]["val_deps"])
                    if e[3].get("asked") and k[0].val in facts:
                        rep.check(False, "memo-key-distinct", f"{label}|property {k[0].val}", f"{label} stores the answer of {e[3]['asked']} under the key of the graph property {k[0].val!r}", [site(e[1]), f"called through {label}({kind})"])
                    for who, tags, deps, at in kept.setdefault(repr(k[0].val), []):
                        if who[0] != label:
                            # another function asked another question
                            same = who[1] is None or e[3].get("asked") is None or who[1] == e[3]["asked"]
                            rep.check(same, "memo-key-distinct", f"{label}|{who[0]}", f"{label} and {who[0]} store the answers of {e[3].get('asked')} and {who[1]} under the same key {k[0].val!r} of the graph's cache", [site(e[1]), f"called through {label}({kind})"])
                            continue
                        diff = sorted(x for x, v in r.tags.items() if "param:" + x in mine | deps and {v, tags.get(x)} in ({"true", "false"}, {"none", "attr"}))
                        rep.check(not diff, "memo-key-distinct", f"{label}|{','.join(diff) or 'ok'}", f"values for different {diff} are stored under the same key {k[0].val!r} of the graph's cache", [site(e[1]), f"called through {label}({kind})"])
                    kept[repr(k[0].val)].append(((label, e[3].get("asked")), dict(r.tags), mine, e[1]))
            rep.ob("memo-key-distinct", f"{label}({kind})")
    rep.floor("call", 700)
    rep.floor("memo-key", 3)
