"""Model of Python's builtins and containers (and the bits of numpy/itertools/functools in use)."""
from __future__ import annotations

import ast

from .core import *


class Iter:
    __slots__ = ("elts", "elem", "deps", "seq", "unord", "nonempty", "length", "pairs")

    def __init__(self, elts=None, elem=(), deps=NO, seq=None, unord=False, nonempty=False, length=None, pairs=None):
        self.elts = elts
        self.elem = elem if elts is None else join(*elts) if elts else ()
        self.deps = deps
        self.seq = seq
        self.unord = bool(unord)
        self.nonempty = nonempty or bool(elts)
        self.length = length
        self.pairs = pairs


def lin_add(a, b, sign=1):
    if a is None or b is None:
        return None
    d = dict(a)
    for k, c in b:
        d[k] = d.get(k, 0) + sign * c
    return tuple(sorted((k, c) for k, c in d.items() if c))


def lin_of(a):
    if isinstance(a, Const) and isinstance(a.val, int) and not isinstance(a.val, bool):
        return (("", a.val),) if a.val else ()
    if isinstance(a, Sym):
        return a.lin
    return None


MUTATORS = {
    "list": {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"},
    "dict": {"update", "pop", "popitem", "clear", "setdefault"},
    "set": {"add", "discard", "remove", "pop", "clear", "update", "difference_update", "intersection_update", "symmetric_difference_update"},
    "ndarray": {"sort", "fill", "resize", "put", "partition", "itemset"},
}

CONTAINERS = ("list", "tuple", "set", "iter", "dict", "dictview", "ndarray", "gen")


class PyModel:
    # ------------------------------------------------------------ helpers
    def sym(self, kind="any", deps=NO, **kw):
        return V(Sym(kind, deps, **kw))

    def obj(self, a, st):
        return st.heap.get(a.oid) if isinstance(a, Ref) else None

    def each(self, v, st, fn, node=None):
        """Apply fn(atom, state) for each alternative, on forked states, joining results."""
        if len(v) == 1:
            return add_deps(fn(v[0], st), v[0].deps if not isinstance(v[0], (Func, Cls, Mod)) else NO)
        if not v:
            return self.sym("any")
        if len(v) > 24 and not all(isinstance(a, Const) for a in v):
            self.note_unknown("too many alternatives", node)
            w = Sym("any", maybe(self.deep_deps(v, st)))
            return add_deps(fn(w, st), w.deps)
        outs, states = (), []
        last = None
        from .interp import PathEnd

        pure = all(isinstance(a, (Const, Sym, Ext)) for a in v)
        if pure:
            for a in v:
                try:
                    outs = join(outs, add_deps(fn(a, st), a.deps))
                except PathEnd:
                    last = True
            if not outs:
                raise PathEnd
            return outs
        pc = st.pc
        for a in v:
            s = st.copy()
            try:
                r = fn(a, s)
            except PathEnd:
                continue
            outs = join(outs, add_deps(r, a.deps))
            states.append(s)
        if not states:
            raise PathEnd
        before = st.heap
        self.adopt(st, join_states(states, pc))
        return self.coalesce(outs, st, before)

    def coalesce(self, v, st, before):
        """Many alternatives created by one operation become one summary of them."""
        if len(v) <= 6:
            return v
        groups, rest = {}, []
        for a in v:
            o = st.heap.get(a.oid) if isinstance(a, Ref) and a.oid not in before else None
            if o is None or o.kind not in ("tensor", "expr", "mask", "tview"):
                rest.append(a)
            else:
                groups.setdefault((o.kind, o.get("tk")), []).append(a)
        for g in groups.values():
            o = st.heap[g[0].oid]
            for a in g[1:]:
                o = join_obj(o, st.heap[a.oid])
            st.heap[g[0].oid] = o
            rest.append(g[0])
        return tuple(rest)

    def raise_maybe(self, exc, node, st, info=None, pc=NO):
        self.raise_exc(Ext("builtins." + exc), node, st, info=info, pc=pc)

    def deep_deps(self, v, st, seen=None):
        """All labels reachable from a value."""
        if seen is None:
            seen = set()
        r = NO
        for a in v:
            r |= a.deps
            if isinstance(a, Ref) and a.oid not in seen:
                seen.add(a.oid)
                o = st.heap.get(a.oid)
                if o is None:
                    continue
                for k, x in o.f.items():
                    if k in ("owner", "cache"):
                        continue
                    r |= self._deep_field(x, st, seen)
            elif isinstance(a, Bound):
                r |= self.deep_deps((a.self_,), st, seen)
        return r

    def _deep_field(self, x, st, seen):
        if isinstance(x, Content):
            return x.p | x.v
        if isinstance(x, frozenset):
            return frozenset(y for y in x if isinstance(y, str))
        if isinstance(x, tuple) and x and all(isinstance(y, Atom) for y in x):
            return self.deep_deps(x, st, seen)
        if isinstance(x, (list, tuple)):
            r = NO
            for y in x:
                r |= self._deep_field(y, st, seen)
            return r
        if isinstance(x, dict):
            r = NO
            for y in x.values():
                r |= self._deep_field(y, st, seen)
            return r
        return NO

    def shallow_deps(self, a, st):
        """Labels of a value and of its contents one level down."""
        if a is None:
            return NO
        o = self.obj(a, st)
        if o is None:
            return a.deps
        return a.deps | obj_deps(o)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, st, node):
        infos = []
        for a in v:
            i = self.iterate1(a, st, node)
            if i is not None:
                if a.deps:
                    i.deps = i.deps | a.deps
                infos.append(i)
        if not infos:
            return Iter(elem=self.sym("any"))
        if len(infos) == 1:
            return infos[0]
        r = infos[0]
        seqs = {x.seq for x in infos}
        alt = None
        if len(seqs) > 1 and None not in seqs and not any(s[0] in ("range", "nodes") for s in seqs):
            # the same choice of alternatives is the same sequence
            alt = ("alt", tuple(sorted(map(repr, seqs))))
        for x in infos[1:]:
            r = Iter(
                elts=[join(p, q) for p, q in zip(r.elts, x.elts)] if r.elts is not None and x.elts is not None and len(r.elts) == len(x.elts) else None,
                elem=join(r.elem, x.elem),
                deps=r.deps | x.deps,
                seq=r.seq if r.seq == x.seq else None,
                unord=r.unord or x.unord,
                nonempty=r.nonempty and x.nonempty,
            )
        if alt is not None:
            r.seq = alt
        return r

    def iterate1(self, a, st, node):
        if isinstance(a, Const):
            if isinstance(a.val, (str, tuple, frozenset, bytes)):
                vals = a.val if not isinstance(a.val, frozenset) else sorted(a.val, key=repr)
                return Iter(elts=[const(x) for x in vals])
            if isinstance(a.val, range):
                return Iter(elem=self.sym("int"))
            return None if a.val is None else Iter(elem=self.sym("any", a.deps))
        if isinstance(a, Sym):
            if a.kind in ("int", "idx", "float", "bool"):
                return Iter(elem=self.sym("any", a.deps))
            return Iter(elem=self.sym("any", a.deps, name=self.inner(a)), deps=a.deps, seq=("sym", a.name) if a.name and not self.inner(a) else None)
        o = self.obj(a, st)
        if o is None:
            return Iter(elem=self.sym("any", maybe(a.deps)))
        k = o.kind
        if k in ("list", "tuple", "set", "iter"):
            if o.get("elts") is not None:
                return Iter(elts=list(o.f["elts"]), deps=o.get("deps") or NO, seq=o.get("seq"), unord=o.get("unord") or k == "set" and not o.get("ordered"), length=o.get("length"))
            return Iter(elem=o.get("elem") or self.sym("any", maybe(o.get("deps") or NO)), deps=o.get("deps") or NO, seq=o.get("seq"), unord=o.get("unord") or (k == "set"), nonempty=o.get("nonempty"), length=o.get("length"))
        if k == "ndarray":
            return Iter(elem=o.get("elem") or self.sym("any"), deps=o.get("deps") or NO, seq=o.get("seq"), unord=o.get("unord"), length=o.get("length"))
        if k == "dict":
            return self.dict_iter(o, "keys", st, node)
        if k == "dictview":
            d = st.heap.get(o.f["of"])
            return self.dict_iter(d, o.f["what"], st, node) if d is not None else Iter(elem=self.sym("any"))
        if k == "gen":
            return self.run_gen(a, o, st, node)
        if k == "inst":
            m = o.f["cls"].lookup("__iter__")
            if m is not None:
                r = self.call_method(a, m, [], {}, st, node)
                return self.iterate(r, st, node)
            if o.get("payload") is not None:
                return self.iterate(o.f["payload"], st, node)
            return Iter(elem=self.sym("any", maybe(self.deep_deps((a,), st))))
        if k == "nxgraph":
            return Iter(elem=self.sym("key", frozenset({o.f["root"] + ".struct"}), space=("n", o.f["root"])), deps=frozenset({o.f["root"] + ".struct"}), seq=("nodes", o.f["root"]))
        r = self.iterate_ext(a, o, st, node)
        if r is not None:
            return r
        return Iter(elem=self.sym("any", maybe(self.deep_deps((a,), st))))

    def iterate_ext(self, a, o, st, node):
        return None

    def dict_iter(self, o, what, st, node):
        entries = o.get("entries") or {}
        kk, vv = o.get("k") or (), o.get("v") or ()
        deps = o.get("deps") or NO

        def mk(k, v):
            if what == "keys":
                return k
            if what == "values":
                return v
            return V(self.new(st, node, HObj("tuple", elts=[k, v], deps=NO), tag="item"))

        if not kk and not vv:
            return Iter(elts=[mk(const(k), v) for k, v in entries.items()], deps=deps, unord=o.get("unord"))
        k = join(kk, *[const(x) for x in entries])
        v = join(vv, *entries.values())
        return Iter(elem=mk(k, v), deps=deps, seq=o.get("seq"), unord=o.get("unord"), length=o.get("length"))

    def run_gen(self, a, o, st, node):
        from .interp import PathEnd

        f = o.f["func"][0]
        if o.get("done") is not None:
            y = o.f["done"]
        else:
            pc = st.pc
            st.pc = st.pc | (o.get("deps") or NO)
            try:
                _, ys = self.run_body(f, o.f["env"], st, node)
                y = [(v, n) for v, s, n in ys]
                ended = False
            except PathEnd:
                y = []
                ended = True
            st.pc = pc
            st.heap[a.oid] = o.set(done=y)
            if ended and not y:
                raise PathEnd
        elem = join(*[x[0] for x in y]) if y else ()
        return Iter(elem=elem, deps=o.get("deps") or NO, elts=[] if not y else None, seq=("gen", a.oid))

    def loop_elem(self, info, i, s, st=None):
        return info.elem

    def rename(self, v, name, st, node, depth=0):
        """Give scalars of a loop element the name of this iteration."""
        out = []
        for a in v:
            if isinstance(a, Sym) and a.kind in ("key", "idx", "any", "int") and a.lin is None:
                b = a.copy()
                b.name = name
                out.append(b)
            elif isinstance(a, Ref) and depth < 2:
                o = st.heap.get(a.oid)
                if o is not None and o.kind == "tuple" and o.get("elts") is not None:
                    n = HObj("tuple", elts=[self.rename(x, name, st, node, depth + 1) for x in o.f["elts"]], deps=o.get("deps") or NO)
                    r = self.new(st, node, n, tag=("named", depth, a.oid))
                    out.append(Ref(r.oid, a.deps))
                else:
                    out.append(a)
            else:
                out.append(a)
        return tuple(out)

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        res = set()
        for a in v:
            res.add(self.truth1(a, st))
        if len(res) == 1:
            return res.pop()
        return None

    def truth1(self, a, st):
        if isinstance(a, Const):
            return bool(a.val)
        if isinstance(a, Sym):
            if a.tag is not None:
                if ("true", a.tag) in st.facts:
                    return True
                if ("false", a.tag) in st.facts:
                    return False
                if isinstance(a.tag, tuple) and a.tag and a.tag[0] == "not":
                    if ("true", a.tag[1]) in st.facts:
                        return False
                    if ("false", a.tag[1]) in st.facts:
                        return True
            return None
        if isinstance(a, Ref):
            o = st.heap.get(a.oid)
            if o is None:
                return None
            self.counted(o)
            if o.kind in ("list", "tuple", "set"):
                if o.get("elts") is not None:
                    return len(o.f["elts"]) > 0
                return None
            if o.kind == "dict":
                if o.get("entries"):
                    return True
                if not o.get("k") and not o.get("v"):
                    return False if not o.get("deps") else None
                return None
            if o.kind in ("iter", "gen", "exc", "property", "slice"):
                return True
            if o.kind == "inst":
                c = o.f["cls"]
                if c.lookup("__bool__") is None and c.lookup("__len__") is None and not c.ext_bases():
                    return True
                return None
            return None
        if isinstance(a, (Func, Cls, Mod, Bound, Ext)):
            return True
        return None

    def truth_deps(self, v, st):
        r = NO
        for a in v:
            o = self.obj(a, st)
            if o is not None and o.kind in ("list", "tuple", "set", "dict", "tensor", "expr", "ndarray", "dictview", "tview"):
                r |= obj_deps(o)
            if o is not None and o.kind == "inst":
                m = o.f["cls"].lookup("__len__")
                if m is not None:
                    try:
                        r |= deps_of(self.call_method(a, m, [], {}, st, None))
                    except Exception:
                        pass
        return r

    # ------------------------------------------------------------ classes and attributes
    def cls_of(self, a, st):
        o = self.obj(a, st)
        if o is not None and o.kind == "inst":
            return o.f["cls"]
        if o is not None and o.get("cls") is not None and o.kind == "dict":
            return o.f["cls"]
        return None

    def instantiate(self, cls, args, kwargs, st, node):
        exts = [b.name for b in cls.ext_bases() if isinstance(b, Ext)]
        if "builtins.dict" in exts:
            v = self.call_builtin("dict", args, kwargs, st, node)
            for a in v:
                o = self.obj(a, st)
                if o is not None:
                    st.heap[a.oid] = o.set(cls=cls)
            return v
        isexc = any(self.ext_sub(n, "builtins.BaseException") for n in exts if n.startswith(("builtins.", "networkx.")))
        if isexc:
            return V(self.new(st, node, HObj("exc", cls=cls, args=tuple(args), deps=NO), tag="exc"))
        r = self.new(st, node, HObj("inst", cls=cls, attrs={}, owner=NO), tag=("inst", cls.name))
        if st.heap[r.oid].f["attrs"]:
            st.heap[r.oid] = HObj("inst", cls=cls, attrs={}, owner=NO)
        init = cls.lookup("__init__")
        if init is not None:
            for f in init:
                if isinstance(f, Func):
                    self.call_func(f, [V(r)] + list(args), kwargs, st, node)
        elif args or kwargs:
            self.event("ctor_args", node, cls=cls.name)
        return V(r)

    def bind_descr(self, a, cv, st, node, cls):
        """Turn a class attribute into what attribute access gives."""
        out = ()
        for x in cv:
            if isinstance(x, Func):
                if "static" in x.note:
                    out = join(out, V(x))
                elif "classmethod" in x.note:
                    out = join(out, V(Bound(cls, x)))
                else:
                    out = join(out, V(Bound(a, x)))
                continue
            o = self.obj(x, st) or (self.base_heap.get(x.oid) if isinstance(x, Ref) else None)
            if o is not None and o.kind == "property":
                out = join(out, self.call(o.f["fget"], [V(a)], {}, st, node))
                continue
            if o is not None and o.kind == "classmethod":
                for f in o.f["func"]:
                    out = join(out, V(Bound(cls, f)))
                continue
            if isinstance(x, Ref) and x.oid not in st.heap and o is not None:
                st.heap[x.oid] = o
            out = join(out, V(x))
        return out

    def getattr_(self, v, name, st, node):
        return self.each(v, st, lambda a, s: self.getattr1(a, name, s, node), node)

    def getattr1(self, a, name, st, node):
        if isinstance(a, Mod):
            m = self.load(a.name)
            if name in m:
                return m[name]
            full = f"{a.name}.{name}"
            if self.is_repo_module(full):
                if full in self.modules:
                    return V(Mod(full))
            self.raise_exc(Ext("builtins.AttributeError"), node, st, info={"attr": full}, end=True)
        if isinstance(a, Ext):
            return self.ext_attr(a, name, st, node)
        if isinstance(a, Cls):
            if name == "__name__":
                return const(a.name)
            cv = a.lookup(name)
            if cv is not None:
                out = ()
                for x in cv:
                    if isinstance(x, Func) and "classmethod" in x.note:
                        out = join(out, V(Bound(a, x)))
                        continue
                    o = self.base_heap.get(x.oid) if isinstance(x, Ref) else None
                    if o is not None and o.kind == "classmethod":
                        for f in o.f["func"]:
                            out = join(out, V(Bound(a, f)))
                        continue
                    if isinstance(x, Ref) and x.oid not in st.heap and o is not None:
                        st.heap[x.oid] = o
                    out = join(out, V(x))
                return out
            if a.ext_bases() and not name.startswith("__"):
                return V(Bound(a, name))
            if name in ("__new__", "__init__", "__dict__", "__doc__", "__module__", "__qualname__"):
                return V(Bound(a, name))
            self.raise_exc(Ext("builtins.AttributeError"), node, st, info={"attr": f"{a.name}.{name}"}, end=True)
        if isinstance(a, Func):
            if name in a.attrs:
                return a.attrs[name]
            if name in ("__name__", "__qualname__"):
                return const(a.qual.rsplit(".", 1)[-1])
            if name == "__defaults__":
                return V(self.new(st, node, HObj("tuple", elts=list(a.defaults), deps=NO), tag="defaults"))
            return V(Bound(a, name))
        if isinstance(a, Const):
            if a.val is None:
                self.raise_exc(Ext("builtins.AttributeError"), node, st, info={"attr": f"None.{name}"}, end=True)
            return V(Bound(a, name, a.deps))
        if isinstance(a, Bound):
            return self.bound_attr(a, name, st, node)
        if isinstance(a, Sym):
            if a.kind in ("any",):
                return V(Bound(a, name, a.deps))
            return V(Bound(a, name, a.deps))
        o = self.obj(a, st)
        if o is None:
            o = self.base_heap.get(getattr(a, "oid", None))
            if o is None:
                return self.sym("any", maybe(a.deps))
            st.heap[a.oid] = o
        if o.kind == "inst":
            at = o.f["attrs"]
            cls = o.f["cls"]
            cv = cls.lookup(name)
            if cv is not None:
                # properties (data descriptors) win
                for x in cv:
                    po = self.base_heap.get(x.oid) if isinstance(x, Ref) else None
                    if po is not None and po.kind == "property":
                        return self.bind_descr(a, cv, st, node, cls)
            if name in at:
                return at[name]
            if cv is not None:
                return self.bind_descr(a, cv, st, node, cls)
            if name == "__class__":
                return V(cls)
            if name == "__dict__":
                return self.sym("any", maybe(self.deep_deps((a,), st)))
            if cls.ext_bases():
                return V(Bound(a, name))
            ga = cls.lookup("__getattr__")
            if ga is not None:
                return self.call_method(a, ga, [const(name)], {}, st, node)
            self.raise_exc(Ext("builtins.AttributeError"), node, st, info={"attr": f"{cls.name}.{name}"}, end=True)
        if o.kind == "exc":
            if name == "args":
                args = o.get("args") or ()
                return V(self.new(st, node, HObj("tuple", elts=list(args) if args else None, elem=self.sym("any", o.get("deps") or NO), deps=NO), tag="excargs"))
            return V(Bound(a, name))
        if o.kind == "nxgraph" and name in ("_adj", "_node", "_succ", "_pred", "adj", "graph", "nodes", "edges"):
            return self.nx_attr(a, o, name, st, node)
        r = self.getattr_ext(a, o, name, st, node)
        if r is not None:
            return r
        return V(Bound(a, name, a.deps))

    def nx_attr(self, a, o, name, st, node):
        root = o.f["root"]
        return self.sym("any", frozenset({f"{root}.struct", f"{root}.vals"}), name=("nxinner", o.get("owner") or NO))

    NXREAD = ("items", "values", "get", "data", "adjacency", "nodes", "edges", "neighbors", "successors", "predecessors", "get_edge_data", "__getitem__", "__iter__", "setdefault")
    NXWRITE = ("clear", "update", "pop", "popitem", "setdefault", "remove", "append", "add", "discard", "extend", "insert", "__setitem__", "__delitem__")

    def inner(self, a):
        """Marks what is reached inside a NetworkX graph with the owner of that graph."""
        return a.name if isinstance(a, Sym) and isinstance(a.name, tuple) and a.name[:1] == ("nxinner",) else None

    def inner_write(self, a, how, node):
        own = self.inner(a)
        if own and own[1]:
            self.event("mutate", node, owner=own[1], how=how, kind="nxgraph")

    def bound_attr(self, a, name, st, node):
        if isinstance(a.func, str):
            # attribute chain on something opaque
            return V(Bound(a.self_, a.func + "." + name, a.deps))
        if name in ("__name__", "__qualname__"):
            return const(a.func.qual.rsplit(".", 1)[-1])
        if name == "__self__":
            return V(a.self_)
        if name == "__func__":
            return V(a.func)
        return self.sym("any")

    def getattr_ext(self, a, o, name, st, node):
        return None

    def ext_attr(self, a, name, st, node):
        full = f"{a.name}.{name}"
        if full == "builtins.None":
            return V(NONE)
        if full in ("numpy.inf", "math.inf"):
            return const(float("inf"))
        if full in ("math.pi",):
            return const(3.141592653589793)
        return V(Ext(full, a.deps))

    def setattr_(self, v, name, val, st, node, aug=False):
        for a in v:
            if isinstance(a, Func):
                a.attrs[name] = val
                if not self.module_mode:
                    self.event("attr_write", node, what="function", target=a.qual, name=name, deps=self.deep_deps(val, st) | st.pc)
                continue
            if isinstance(a, Cls):
                if not self.module_mode:
                    self.event("attr_write", node, what="class", target=f"{a.mod}.{a.name}", name=name, deps=self.deep_deps(val, st) | st.pc)
                a.attrs[name] = val
                continue
            if isinstance(a, Mod):
                if not self.module_mode:
                    self.event("attr_write", node, what="module", target=a.name, name=name, deps=self.deep_deps(val, st) | st.pc)
                else:
                    self.load(a.name)[name] = val
                continue
            if isinstance(a, Ext):
                if not self.module_mode:
                    self.event("attr_write", node, what="library", target=a.name, name=name)
                continue
            o = self.obj(a, st)
            if o is None:
                continue
            if o.kind == "inst":
                cls = o.f["cls"]
                cv = cls.lookup(name)
                handled = False
                if cv is not None:
                    for x in cv:
                        po = self.base_heap.get(x.oid) if isinstance(x, Ref) else None
                        if po is not None and po.kind == "property":
                            handled = True
                            if po.get("fset"):
                                self.call(po.f["fset"], [V(a), val], {}, st, node)
                if handled:
                    continue
                if o.get("owner"):
                    self.event("inst_write", node, owner=o.f["owner"], name=name, cls=cls.name, aug=aug, val=val, deps=deps_of(val) | st.pc)
                if a.oid in self.base_heap and not self.module_mode:
                    self.event("static_write", node, how="." + name, deps=self.deep_deps(val, st) - st.pc, name=name)
                at = dict(o.f["attrs"])
                at[name] = add_deps(val, st.pc) if len(v) == 1 else join(at.get(name), val)
                st.heap[a.oid] = o.set(attrs=at)
                continue
            self.setattr_ext(a, o, name, val, st, node)

    def setattr_ext(self, a, o, name, val, st, node):
        pass

    def delattr_(self, v, name, st, node):
        for a in v:
            o = self.obj(a, st)
            if o is not None and o.kind == "inst":
                if o.get("owner"):
                    self.event("inst_write", node, owner=o.f["owner"], name=name, cls=o.f["cls"].name, aug=False, val=(), deps=st.pc)
                at = dict(o.f["attrs"])
                at.pop(name, None)
                st.heap[a.oid] = o.set(attrs=at)

    def lookup_method(self, a, name, st):
        c = self.cls_of(a, st)
        return c.lookup(name) if c is not None else None

    def call_method(self, a, m, args, kwargs, st, node):
        out = ()
        for f in m:
            if isinstance(f, Func):
                r = self.call_func(f, args if "static" in f.note else [V(a)] + list(args), kwargs, st, node)
            else:
                r = self.call(V(f), [V(a)] + list(args), kwargs, st, node)
            out = join(out, r)
        return out

    def isinst(self, a, cls, st):
        res = []
        flat = []
        for c in cls:
            o = self.obj(c, st)
            if o is not None and o.get("elts") is not None:
                for e in o.f["elts"]:
                    flat.extend(e)
            else:
                flat.append(c)
        for c in flat:
            r = self.isinst1(a, c, st)
            if r is True:
                return True
            res.append(r)
        return None if None in res else False

    PYT = {
        "builtins.str": str,
        "builtins.int": int,
        "builtins.float": float,
        "builtins.bool": bool,
        "builtins.tuple": tuple,
        "builtins.list": list,
        "builtins.dict": dict,
        "builtins.set": set,
        "builtins.bytes": bytes,
        "builtins.complex": complex,
    }

    def isinst1(self, a, c, st):
        o = self.obj(a, st)
        if o is not None and o.kind == "exc" and isinstance(c, (Cls, Ext)):
            return self.exc_matches(o.f["cls"], c)
        if isinstance(c, Ext):
            n = c.name
            if isinstance(a, Const):
                if n in self.PYT:
                    return isinstance(a.val, self.PYT[n])
                if n in ("numbers.Number", "numbers.Real", "numbers.Integral"):
                    return isinstance(a.val, (int, float))
                if n.startswith(("graphblas", "networkx", "numpy", "scipy")):
                    return False
                if a.val is None:
                    return False
                return None
            if isinstance(a, Sym):
                if n.startswith(("graphblas", "networkx")):
                    return False if a.kind != "any" else (False if a.name == "plain" else None)
                k = a.kind
                if n in ("builtins.str",):
                    return True if k == "str" else False if k in ("int", "float", "bool", "idx", "num") else None
                if n in ("builtins.int", "numbers.Integral"):
                    return True if k in ("int", "idx", "bool") else False if k in ("str", "float") else None
                if n in ("numbers.Number", "numbers.Real"):
                    return True if k in ("int", "idx", "bool", "float", "num") else False if k == "str" else None
                if n == "builtins.float":
                    return True if k == "float" else False if k in ("str", "int", "idx", "bool") else None
                if n in ("builtins.dict", "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "numpy.ndarray"):
                    return False if k in ("int", "idx", "float", "bool", "str", "num", "key") else None
                return None
            o = self.obj(a, st)
            if o is not None:
                r = self.isinst_ext(a, o, n, st)
                if r is not None:
                    return r
                k = o.kind
                kinds = {
                    "builtins.list": "list",
                    "builtins.tuple": "tuple",
                    "builtins.dict": "dict",
                    "builtins.set": "set",
                    "numpy.ndarray": "ndarray",
                }
                if n in kinds:
                    return k == kinds[n]
                if k == "unknown":
                    return None
                if n in ("builtins.str", "builtins.int", "builtins.float", "builtins.bool", "numbers.Number"):
                    return False
                if n.startswith("graphblas") or n.startswith("networkx"):
                    if k == "nxgraph" and n.startswith("networkx"):
                        base = n.rsplit(".", 1)[1]
                        dirs, multi = o.f["directed"], o.f["multi"]
                        return {"Graph": True, "DiGraph": dirs, "MultiGraph": multi, "MultiDiGraph": dirs and multi}.get(base)
                    return False
                if k == "inst":
                    return any(isinstance(b, Ext) and b.name == n for b in o.f["cls"].ext_bases()) or None
                if n.startswith("collections.abc."):
                    last = n.rsplit(".", 1)[1]
                    tab = {
                        "Mapping": ("dict",), "MutableMapping": ("dict",), "Set": ("set", "dictview"), "Sequence": ("list", "tuple"),
                        "Iterable": ("list", "tuple", "set", "dict", "dictview", "iter", "gen", "ndarray"),
                        "Collection": ("list", "tuple", "set", "dict", "dictview"), "Sized": ("list", "tuple", "set", "dict", "dictview", "ndarray"),
                        "Iterator": ("iter", "gen"),
                    }
                    if last in tab:
                        return k in tab[last]
                return None
            return None if not isinstance(a, (Func, Cls, Mod)) else False
        if isinstance(c, Cls):
            k = self.cls_of(a, st)
            if k is not None:
                return any(x is c or (isinstance(x, Cls) and x.key() == c.key()) for x in k.mro())
            if isinstance(a, Sym) and a.kind == "any" and a.name != "plain":
                return None
            o = self.obj(a, st)
            if o is not None and o.kind == "unknown":
                return None
            return False
        return None

    def isinst_ext(self, a, o, n, st):
        return None

    # ------------------------------------------------------------ subscripts
    def getitem(self, v, k, st, node):
        return self.each(v, st, lambda a, s: self.getitem1(a, k, s, node), node)

    def getitem1(self, a, k, st, node):
        kd = deps_of(k)
        if isinstance(a, Ext):
            return self.ext_getitem(a, k, st, node)
        if isinstance(a, Cls):
            return V(a)
        if isinstance(a, Func):
            return self.sym("any")
        if isinstance(a, Const):
            if isinstance(a.val, (str, tuple)) and len(k) == 1:
                kk = k[0]
                if isinstance(kk, Const):
                    try:
                        return const(a.val[kk.val], a.deps | kk.deps)
                    except Exception:
                        return self.sym("any", a.deps | kk.deps)
                o = self.obj(kk, st)
                if o is not None and o.kind == "slice":
                    vals = []
                    for f in ("lo", "hi", "step"):
                        x = o.f[f]
                        if len(x) == 1 and isinstance(x[0], Const):
                            vals.append(x[0].val)
                        else:
                            break
                    else:
                        return const(a.val[slice(*vals)], a.deps)
            return self.sym("str" if isinstance(a.val, str) else "any", a.deps | kd)
        if isinstance(a, Sym):
            if a.kind == "str":
                return self.sym("str", a.deps | kd)
            return self.sym("any", a.deps | kd, name=self.inner(a))
        if isinstance(a, Bound):
            return self.bound_getitem(a, k, st, node)
        o = self.obj(a, st)
        if o is None:
            return self.sym("any", maybe(a.deps | kd))
        if o.kind in ("list", "tuple", "ndarray", "iter"):
            return self.seq_getitem(a, o, k, st, node)
        if o.kind == "dict":
            return self.dict_getitem(a, o, k, st, node)
        if o.kind == "inst":
            m = o.f["cls"].lookup("__getitem__")
            if m is not None:
                return self.call_method(a, m, [k], {}, st, node)
            return self.sym("any", maybe(self.deep_deps((a,), st) | kd))
        if o.kind == "nxgraph":
            return self.sym("any", frozenset({o.f["root"] + ".struct", o.f["root"] + ".vals"}) | kd)
        r = self.getitem_ext(a, o, k, st, node)
        if r is not None:
            return r
        return self.sym("any", maybe(self.deep_deps((a,), st) | kd))

    def getitem_ext(self, a, o, k, st, node):
        return None

    def bound_getitem(self, a, k, st, node):
        return self.sym("any", maybe(a.deps | deps_of(k)))

    def ext_getitem(self, a, k, st, node):
        return V(a)

    def seq_getitem(self, a, o, k, st, node):
        kd = deps_of(k)
        deps = o.get("deps") or NO
        elts = o.get("elts")
        out = ()
        for kk in k:
            ko = self.obj(kk, st)
            if ko is not None and ko.kind == "slice":
                out = join(out, self.seq_slice(a, o, ko, st, node))
                continue
            if isinstance(kk, Const) and isinstance(kk.val, (int, bool)) and elts is not None:
                i = int(kk.val)
                if -len(elts) <= i < len(elts):
                    out = join(out, add_deps(elts[i], deps | kk.deps))
                else:
                    self.raise_exc(Ext("builtins.IndexError"), node, st, end=True)
                continue
            if ko is not None and ko.kind in ("ndarray", "list"):
                # fancy indexing of an array
                out = join(out, V(self.new(st, node, HObj("ndarray", elem=o.get("elem") or (join(*elts) if elts else self.sym("any")), deps=deps | (ko.get("deps") or NO), seq=ko.get("seq"), unord=ko.get("unord"), length=ko.get("length")), tag="fancy")))
                continue
            if self.counts is not None and isinstance(kk, Const) and kk.val in (0, -1):
                sq = o.get("seq")
                if isinstance(sq, tuple) and sq[0] == "coo" and sq[1:] not in self.counts:
                    # the first of the entries of a vector nobody asked how many entries it has
                    self.raise_exc(Ext("builtins.IndexError"), node, st, info={"first": True}, pc=o.get("deps") or NO)
            e = o.get("elem") if elts is None else (join(*elts) if elts else ())
            e = e or self.sym("any")
            if o.get("unord"):
                e = self.mark_unord(e, st, node, "subscript of an unordered sequence")
            if isinstance(kk, Sym) and kk.kind == "key":
                self.event("space", node, what="key used as position", key=repr(kk))
            out = join(out, add_deps(e, deps | kd))
        return out

    def mark_unord(self, v, st, node, why):
        out = []
        for a in v:
            out.append(a.with_deps(frozenset({"unord:" + why + "@%s:%d" % (self.modfile.get(self.cur_mod(), "?"), getattr(node, "lineno", 0))})))
        return tuple(out)

    def seq_slice(self, a, o, sl, st, node):
        elts = o.get("elts")
        cs = []
        for f in ("lo", "hi", "step"):
            x = sl.f[f]
            cs.append(x[0].val if len(x) == 1 and isinstance(x[0], Const) else Ellipsis)
        if elts is not None and Ellipsis not in cs:
            return V(self.new(st, node, HObj(o.kind if o.kind != "iter" else "list", elts=elts[slice(*cs)], deps=o.get("deps") or NO, seq=("slice", o.get("seq"), tuple(cs)) if o.get("seq") else None, unord=o.get("unord")), tag="slice"))
        full = cs == [None, None, None]
        rev = cs[:2] == [None, None] and cs[2] == -1
        return V(
            self.new(
                st,
                node,
                HObj(
                    "list" if o.kind == "iter" else o.kind,
                    elts=None if not full else elts,
                    elem=o.get("elem") if elts is None else join(*elts),
                    deps=(o.get("deps") or NO) | sl.f["deps"],
                    seq=o.get("seq") if full else ("slice", o.get("seq"), tuple(repr(x) for x in (sl.f["lo"], sl.f["hi"], sl.f["step"])), self.iterpath) if o.get("seq") else None,
                    unord=o.get("unord"),
                    chunk=True,
                ),
                tag="slice",
            )
        )

    def hashable_const(self, k):
        return len(k) == 1 and isinstance(k[0], Const)

    def dict_getitem(self, a, o, k, st, node):
        k = as_key(k)
        entries = o.get("entries") or {}
        kd = deps_of(k)
        deps = o.get("deps") or NO
        if o.get("cacheof"):
            self.event("cache_read", node, root=o.f["cacheof"], key=k)
            if self.hashable_const(k) and k[0].val in entries:
                return entries[k[0].val]
            if self.stack and self.stack[-1].get("lookups"):
                # the code is prepared for nothing being remembered
                self.raise_maybe("KeyError", node, st, info={"key": k})
            return join(o.get("v") or None, self.kept(o.f["cacheof"], k, st, node))
        if self.hashable_const(k):
            kv = k[0].val
            try:
                if kv in entries:
                    return add_deps(entries[kv], deps | kd)
            except TypeError:
                pass
            if not o.get("k") and not o.get("v"):
                c = o.get("cls")
                if c is not None and c.lookup("__missing__") is not None:
                    return self.call_method(a, c.lookup("__missing__"), [k], {}, st, node)
                if not o.get("deps"):
                    self.raise_exc(Ext("builtins.KeyError"), node, st, info={"key": k}, end=True)
        elif not entries and not o.get("k") and not o.get("v") and not o.get("deps") and o.get("cls") is None and self.stack and self.stack[-1].get("lookups"):
            # certainly empty
            self.raise_exc(Ext("builtins.KeyError"), node, st, info={"key": k}, end=True)
        self.check_dict_key(a, o, k, st, node)
        if o.get("cls") is not None and o.f["cls"].lookup("__missing__") is not None:
            c = o.f["cls"]
            return join(o.get("v"), *entries.values(), self.call_method(a, c.lookup("__missing__"), [k], {}, st, node))
        v = join(o.get("v") or None, *entries.values()) or self.sym("any")
        self.raise_lookup(a, o, k, st, node)
        return add_deps(self.relate(o, k, v, st), deps | kd | self.key_deps(o))

    def key_deps(self, o):
        return NO

    def relate(self, o, k, v, st):
        """Carry the name of the key over to the value (a lookup in a numbering)."""
        names = {x.name for x in k if isinstance(x, Sym)}
        if len(names) == 1:
            n = names.pop()
            if n is not None:
                out = []
                for a in v:
                    if isinstance(a, Sym) and a.kind in ("key", "idx"):
                        a = a.copy()
                        a.name = n
                    out.append(a)
                return tuple(out)
        out = []
        for a in v:
            if isinstance(a, Sym) and a.kind in ("key", "idx") and a.name is not None:
                a = a.copy()
                a.name = None
            out.append(a)
        return tuple(out)

    def raise_lookup(self, a, o, k, st, node):
        """A lookup that may fail raises KeyError."""
        if k and all(isinstance(x, Sym) and x.tag == "absent" for x in k):
            self.raise_exc(Ext("builtins.KeyError"), node, st, info={"key": k}, end=True)
        for x in k:
            if isinstance(x, Sym) and x.tag == "member":
                continue
            if isinstance(x, Sym) and x.tag == "absent":
                self.raise_maybe("KeyError", node, st, info={"key": x}, pc=x.deps)

    def check_same_unit(self, x, others, node, how):
        """A label and a row number are never equal but by accident."""
        rank = lambda y: 1 if isinstance(y, Sym) and y.kind == "key" else 2 if isinstance(y, Sym) and y.kind in ("idx", "int") and y.space is not None and y.space[0] == "n" else 0
        a, b = rank(x), {rank(y) for y in others}
        if a and b == {3 - a}:
            self.event("space", node, what=f"a node label is {how} {'with' if how == 'compared' else 'among'} row numbers" if a == 1 else f"a row number is {how} {'with' if how == 'compared' else 'among'} node labels")

    def check_dict_key(self, a, o, k, st, node):
        ks = o.get("k") or ()
        kinds = {x.kind for x in ks if isinstance(x, Sym)}
        if len(kinds) == 1 and all(isinstance(x, Sym) for x in ks):
            (kind,) = kinds
            spaces = {x.space for x in ks}
            for x in k:
                if isinstance(x, Sym):
                    if kind == "key" and x.kind == "idx" or kind == "idx" and x.kind == "key":
                        self.event("space", node, what=f"{'position' if x.kind == 'idx' else 'label'} looked up in a table keyed by {'labels' if kind == 'key' else 'positions'}")
                    elif kind == "idx" and x.kind == "idx" and x.space is not None and len(spaces) == 1:
                        (sp,) = spaces
                        if sp is not None and sp != x.space:
                            self.event("space", node, what=f"position of {x.space} looked up in a table of {sp}")

    def setitem(self, v, k, val, st, node, aug=False):
        strong = len(v) == 1
        for a in v:
            o = self.obj(a, st)
            if o is None:
                if isinstance(a, Ext):
                    self.event("attr_write", node, what="library", target=a.name, name="[]")
                self.inner_write(a, "[]=", node)
                continue
            if o.kind in ("list", "dict", "ndarray"):
                self.mutate(a, o, st, node, "[]=", val=val, key=k)
                o = st.heap[a.oid]
            if o.kind == "dict":
                self.dict_setitem(a, o, k, val, st, node, strong)
            elif o.kind in ("list", "ndarray"):
                elts = o.get("elts")
                d = st.pc | deps_of(k)
                if elts is not None and strong and self.hashable_const(k) and isinstance(k[0].val, int) and -len(elts) <= k[0].val < len(elts):
                    elts = list(elts)
                    elts[k[0].val] = add_deps(val, st.pc)
                    st.heap[a.oid] = o.set(elts=elts)
                else:
                    e = join(o.get("elem") if elts is None else join(*elts) if elts else None, add_deps(val, d))
                    st.heap[a.oid] = o.set(elts=None, elem=e, seq=None)
            elif o.kind == "inst":
                m = o.f["cls"].lookup("__setitem__")
                if m is not None:
                    self.call_method(a, m, [k, val], {}, st, node)
                elif o.get("owner"):
                    self.event("mutate", node, owner=o.f["owner"], how="[]=", kind="inst")
            elif o.kind == "nxgraph":
                self.event("mutate", node, owner=o.get("owner") or NO, how="[]=", kind="nxgraph")
            else:
                self.setitem_ext(a, o, k, val, st, node, aug)

    def setitem_ext(self, a, o, k, val, st, node, aug):
        pass

    def asked(self, st, node):
        """What an answer stored outside the property getters is the answer of: the functions at hand, or the place."""
        fs = sorted({f.qual for v in st.env.values() for f in v if isinstance(f, Func)})
        if fs:
            return ", ".join(fs)
        at = self.site(node)
        return None if "/classes/" in str(at[0]) else ":".join(str(x) for x in at)

    def dict_setitem(self, a, o, k, val, st, node, strong=True):
        if o.get("cacheof"):
            vd = self.deep_deps(val, st) | st.pc
            self.event("cache_store", node, root=o.f["cacheof"], key=k, key_deps=deps_of(k), val_deps=vd, val=val, asked=self.asked(st, node))
            self.take_over(val, st, frozenset({"cache:" + o.f["cacheof"]}))
        entries = dict(o.get("entries") or {})
        if self.hashable_const(k):
            kv = k[0].val
            try:
                old = entries.get(kv)
                entries[kv] = add_deps(val, st.pc) if strong else join(old, val)
                st.heap[a.oid] = o.set(entries=entries)
                return
            except TypeError:
                pass
        it = {}
        st.heap[a.oid] = o.set(
            k=join(o.get("k") or None, add_deps(k, st.pc)),
            v=join(o.get("v") or None, add_deps(val, st.pc)),
            deps=(o.get("deps") or NO),
            segs=None,
            **it,
        )

    def kept(self, root, key, st, node):
        """Something an earlier call stored in the graph's cache."""
        h = frozenset({"hist:" + root})
        if not self.intercept and len(key) == 1 and isinstance(key[0], Const) and isinstance(key[0].val, str):
            k = key[0].val
            base = k.rstrip("+-")
            tk = "V" if base.endswith(("_rowwise", "_columnwise", "degrees", "diag")) else "M" if base in ("A", "AT", "L", "U", "offdiag") else "S" if base.endswith(("_element", "_diagonal", "iso_value")) and not base.startswith("has") else None
            if tk is not None:
                sp = ("n", root)
                c = Content(p=h, v=h, rs=sp if tk != "S" else None, cs=sp if tk == "M" else None)
                return self.tensor(st, node, tk, c, owner=frozenset({"cache:" + root}), tag=("kept", root, k))
        return self.sym("any", h)

    def take_over(self, v, st, owner, depth=0):
        """What was stored for reuse belongs to the store from now on."""
        for a in v:
            o = self.obj(a, st)
            if o is None or a.oid not in st.heap or depth > 4 or owner <= (o.get("owner") or NO):
                continue
            if o.kind in ("tensor", "list", "dict", "set", "ndarray", "inst"):
                st.heap[a.oid] = o.set(owner=(o.get("owner") or NO) | owner)
            if o.kind == "inst":
                for x in o.f["attrs"].values():
                    self.take_over(x, st, owner, depth + 1)
            elif o.kind in ("tuple", "list", "dict"):
                for x in list(o.get("elts") or ()) + [o.get("elem") or (), o.get("v") or ()] + list((o.get("entries") or {}).values()):
                    self.take_over(x, st, owner, depth + 1)

    def delitem(self, v, k, st, node):
        for a in v:
            o = self.obj(a, st)
            if o is None:
                self.inner_write(a, "del", node)
                continue
            if o.kind in ("list", "dict"):
                self.mutate(a, o, st, node, "del")
                o = st.heap[a.oid]
                if o.kind == "dict":
                    e = dict(o.get("entries") or {})
                    if self.hashable_const(k) and k[0].val in e:
                        e.pop(k[0].val)
                    st.heap[a.oid] = o.set(entries=e, segs=None, deps=(o.get("deps") or NO) | deps_of(k) | st.pc)
                else:
                    st.heap[a.oid] = o.set(elts=None, elem=join(*(o.get("elts") or [])) or o.get("elem"), seq=None)
            elif o.kind == "inst":
                m = o.f["cls"].lookup("__delitem__")
                if m is not None:
                    self.call_method(a, m, [k], {}, st, node)
            else:
                self.delitem_ext(a, o, k, st, node)

    def delitem_ext(self, a, o, k, st, node):
        pass

    def mutate(self, a, o, st, node, how, **info):
        own = o.get("owner")
        if own and not o.get("cacheof"):
            self.event("mutate", node, owner=own, how=how, kind=o.kind, **info)
        if a.oid in self.base_heap and not self.module_mode:
            d = NO
            for x in [info.get("val") or (), *info.get("args", ())]:
                d |= self.deep_deps(x, st)
            d -= st.pc
            self.event("static_write", node, how=how, deps=d, key_deps=deps_of(info.get("key") or ()), name=getattr(self, "static_names", {}).get(a.oid))

    # ------------------------------------------------------------ operators
    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}

    def binop(self, op, l, r, st, node):
        if op == "LShift" and len(l) * len(r) > 1:
            return self.each(l, st, lambda a, s: self.each(r, s, lambda b, s2: self.binop1(op, a, b, s2, node), node), node)
        out = ()
        from .interp import PathEnd

        ended = False
        before = set(st.heap) if len(l) * len(r) > 6 else ()
        for a in l:
            for b in r:
                try:
                    out = join(out, self.binop1(op, a, b, st, node))
                except PathEnd:
                    ended = True
        if not out:
            if ended:
                raise PathEnd
            return self.sym("any", maybe(deps_of(l) | deps_of(r)))
        return self.coalesce(out, st, before) if before else out

    def binop1(self, op, a, b, st, node):
        d = a.deps | b.deps
        r = self.binop_ext(op, a, b, st, node)
        if r is not None:
            return r
        oa, ob = self.obj(a, st), self.obj(b, st)
        if oa is not None and oa.kind == "inst":
            m = oa.f["cls"].lookup("__%s__" % self.DUNDER.get(op, "?"))
            if m is not None:
                return self.call_method(a, m, [V(b)], {}, st, node)
        if isinstance(a, Const) and isinstance(b, Const):
            import operator as o

            f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod, "Pow": o.pow, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor}.get(op)
            if f is not None:
                try:
                    if op == "Pow" and abs(b.val) > 64 or op == "Mult" and (isinstance(a.val, str) or isinstance(b.val, str)):
                        return self.sym("any", d)
                    if op == "Mult" and (isinstance(a.val, Nothing) or isinstance(b.val, Nothing)):
                        return V(Const(Nothing(), d))
                    return const(f(a.val, b.val), d)
                except ZeroDivisionError:
                    self.raise_exc(Ext("builtins.ZeroDivisionError"), node, st, info={"zero": isinstance(b.val, Nothing)}, end=True)
                except Exception:
                    return self.sym("any", d)
        if op == "Mod" and (isinstance(a, Const) and isinstance(a.val, str) or isinstance(a, Sym) and a.kind == "str"):
            return self.sym("str", d | (self.deep_deps(V(b), st)))
        if op == "Add":
            if oa is not None and oa.kind in ("list", "tuple") and ob is not None and ob.kind in ("list", "tuple"):
                ea, eb = oa.get("elts"), ob.get("elts")
                if ea is not None and eb is not None:
                    return V(self.new(st, node, HObj(oa.kind, elts=list(ea) + list(eb), deps=(oa.get("deps") or NO) | (ob.get("deps") or NO)), tag="cat"))
                ia, ib = self.iterate1(a, st, node), self.iterate1(b, st, node)
                return V(self.new(st, node, HObj(oa.kind, elts=None, elem=join(ia.elem, ib.elem), deps=ia.deps | ib.deps, unord=ia.unord or ib.unord, seq=("cat", ia.seq, ib.seq) if ia.seq and ib.seq else None), tag="cat"))
            if isinstance(a, (Const, Sym)) and isinstance(b, (Const, Sym)) and ("str" in (getattr(a, "kind", None), getattr(b, "kind", None)) or isinstance(getattr(a, "val", None), str) or isinstance(getattr(b, "val", None), str)):
                return self.sym("str", d)
        if op == "Mult":
            # [x] * n
            for x, o in ((a, oa), (b, ob)):
                if o is not None and o.kind in ("list", "tuple"):
                    k = b if x is a else a
                    elts = o.get("elts")
                    if elts is not None and isinstance(k, Const) and isinstance(k.val, int) and len(elts) * k.val <= 16:
                        return V(self.new(st, node, HObj(o.kind, elts=list(elts) * k.val, deps=(o.get("deps") or NO) | k.deps), tag="rep"))
                    i = self.iterate1(x, st, node)
                    return V(self.new(st, node, HObj(o.kind, elts=None, elem=i.elem, deps=i.deps | k.deps, unord=i.unord), tag="rep"))
        # set algebra
        if op in ("BitAnd", "BitOr", "Sub", "BitXor") and oa is not None and oa.kind in ("set", "dictview", "dict") :
            ia = self.iterate1(a, st, node)
            ib = self.iterate1(b, st, node) if ob is not None else Iter(elem=())
            if oa.kind == "dict":
                o = HObj("dict", entries={**(oa.get("entries") or {}), **(ob.get("entries") or {} if ob else {})}, k=join(oa.get("k") or None, (ob.get("k") if ob else None) or None) or (), v=join(oa.get("v") or None, (ob.get("v") if ob else None) or None) or (), deps=(oa.get("deps") or NO), segs=None)
                if oa.get("segs") is not None and ob is not None and ob.get("segs") is not None:
                    o = o.set(segs=tuple(oa.f["segs"]) + tuple(ob.f["segs"]))
                return V(self.new(st, node, o, tag="dictor"))
            elem = join(ia.elem, ib.elem) if op in ("BitOr", "BitXor") else ia.elem
            deps = ia.deps | ib.deps | deps_of(ia.elem) | deps_of(ib.elem)
            # members of an intersection/difference are known members of the operands
            return V(self.new(st, node, HObj("set", elts=None, elem=elem, deps=deps, unord=True, setop=(op, ia.seq, ib.seq), seq=("setop", op, ia.seq, ib.seq) if ia.seq and ib.seq else None), tag="setop"))
        if isinstance(a, (Const, Sym)) and isinstance(b, (Const, Sym)):
            return V(self.num_binop(op, a, b, st, node))
        dd = NO
        for x, o in ((a, oa), (b, ob)):
            dd |= self.deep_deps(V(x), st) if o is not None and o.kind in ("list", "tuple", "set", "dict") else self.shallow_deps(x, st)
        for x, o in ((a, oa), (b, ob)):
            if o is not None and o.kind == "ndarray":
                other = ob if o is oa else oa
                seqs = o.get("seq")
                oe = o.get("elem") or self.sym("any")
                xe = other.get("elem") if other is not None and other.kind == "ndarray" else V(b if x is a else a)
                e = ()
                for p in oe:
                    for q in xe or ():
                        if isinstance(p, (Const, Sym)) and isinstance(q, (Const, Sym)):
                            e = join(e, V(self.num_binop(op, p, q, st, node) if x is a else self.num_binop(op, q, p, st, node)))
                return V(self.new(st, node, HObj("ndarray", elem=e or self.sym("any", dd), deps=(o.get("deps") or NO) | ((other.get("deps") or NO) if other is not None else NO), seq=seqs, unord=o.get("unord"), length=o.get("length")), tag="arr"))
        if op == "Mult" and any(isinstance(x, Const) and isinstance(x.val, Nothing) for x in (a, b)) and oa is None and ob is None:
            return V(Const(Nothing(), d))
        return self.sym("any", maybe(dd))

    # what the run assumes about the graph: nodes None (anything), 0 or "some"; edges None or 0
    counts = None  # (vectors whose number of entries was asked for; None: not recorded)
    nodes = edges = None  # (a number that is 0 for that reason is a Nothing)

    def num_binop(self, op, a, b, st, node):
        d = a.deps | b.deps
        if self.nodes is not None and op in ("Div", "FloorDiv", "Mod") and isinstance(b, Const) and isinstance(b.val, Nothing):
            if isinstance(a, Sym) and a.kind in ("int", "float", "num") or isinstance(a, Const) and type(a.val) in (int, float):
                self.raise_exc(Ext("builtins.ZeroDivisionError"), node, st, info={"zero": True}, end=True, pc=d)
        la, lb = lin_of(a), lin_of(b)
        lin = None
        space = None
        kind = "num"
        if op in ("Add", "Sub"):
            lin = lin_add(la, lb, 1 if op == "Add" else -1)
            for x, y, ly in ((a, b, lb), (b, a, la)):
                if isinstance(x, Sym) and x.kind == "idx" and x.space is not None and ly is not None and (op == "Add" or x is a):
                    off = ly if op == "Add" else tuple((k, -c) for k, c in ly)
                    return Sym("idx", d, space=("off", x.space, off), name=x.name) if off else x.with_deps(d)
        elif op == "Mult" and la is not None and lb is not None:
            if isinstance(a, Const):
                lin = tuple((k, c * a.val) for k, c in lb if c * a.val)
            elif isinstance(b, Const):
                lin = tuple((k, c * b.val) for k, c in la if c * b.val)
        if self.nodes is not None and op == "Mult" and any(isinstance(x, Const) and isinstance(x.val, Nothing) for x in (a, b)):
            return Const(Nothing(), d)
        if op in ("Div",):
            kind = "float"
        elif isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind:
            kind = a.kind if a.kind != "idx" else "int"
        elif {getattr(a, "kind", "int" if isinstance(getattr(a, "val", None), int) else "float"), getattr(b, "kind", "int" if isinstance(getattr(b, "val", None), int) else "float")} <= {"int", "idx"}:
            kind = "int"
        tag = None
        for x in (a, b):
            if isinstance(x, Sym) and isinstance(x.tag, tuple) and x.tag and x.tag[0] in ("absdiff", "diff"):
                tag = x.tag
        if lin is not None and kind == "num":
            kind = "int"
        return Sym(kind, d, lin=lin, tag=tag)

    def binop_ext(self, op, a, b, st, node):
        return None

    def unary(self, op, v, st, node):
        out = ()
        for a in v:
            r = self.unary_ext(op, a, st, node)
            if r is not None:
                out = join(out, r)
            elif isinstance(a, Const):
                try:
                    out = join(out, const({"USub": lambda x: -x, "UAdd": lambda x: +x, "Invert": lambda x: ~x}[op](a.val), a.deps))
                except Exception:
                    out = join(out, self.sym("any", a.deps))
            elif isinstance(a, Sym):
                out = join(out, V(Sym(a.kind if a.kind != "idx" else "int", a.deps, lin=tuple((k, -c) for k, c in a.lin) if a.lin is not None and op == "USub" else None)))
            else:
                o = self.obj(a, st)
                if o is not None and o.kind == "ndarray":
                    out = join(out, V(a))
                else:
                    out = join(out, self.sym("any", maybe(self.shallow_deps(a, st))))
        return out

    def unary_ext(self, op, a, st, node):
        return None

    def inplace(self, op, cur, rhs, st, node):
        out = ()
        for a in cur:
            o = self.obj(a, st)
            r = None
            if o is not None:
                r = self.inplace_ext(op, a, o, rhs, st, node) if len(rhs) == 1 and len(cur) == 1 else self.inplace_forked(op, a, o, rhs, st, node, cur)
                if r is None and o.kind in ("list", "set", "dict", "ndarray"):
                    self.mutate(a, o, st, node, op + "=")
                    if o.kind == "list" and op == "Add":
                        self.list_extend(a, st.heap[a.oid], rhs, st, node)
                        r = V(a)
                    elif o.kind == "dict" and op == "BitOr":
                        self.call_container(a, o, "update", [rhs], {}, st, node)
                        r = V(a)
                    else:
                        v = self.binop(op, (a,), rhs, st, node)
                        no = self.obj(v[0], st) if v else None
                        if no is not None and no.kind == o.kind:
                            st.heap[a.oid] = no.set(owner=o.get("owner"))
                        r = V(a)
            if r is None:
                r = self.binop(op, (a,), rhs, st, node)
            out = join(out, r)
        return out

    def inplace_forked(self, op, a, o, rhs, st, node, cur):
        outs, states = (), [st.copy()]
        for b in rhs:
            s = st.copy()
            r = self.inplace_ext(op, a, s.heap[a.oid], (b,), s, node)
            if r is None:
                return None
            outs = join(outs, r)
            states.append(s)
        self.adopt(st, join_states(states[1:] if len(cur) == 1 else states, st.pc))
        return outs or None

    def inplace_ext(self, op, a, o, rhs, st, node):
        return None

    def compare(self, op, l, r, st, node):
        out = ()
        if op in ("Is", "IsNot") and len(r) == 1 and isinstance(r[0], Const) and r[0].val is None and len(l) > 1:
            nones = [a for a in l if isinstance(a, Const) and a.val is None]
            if nones and all(not (isinstance(a, Sym) and a.kind == "any") for a in l):
                # which alternative it is was decided by what decided on None, not by the other value's content
                d = deps_of(nones) | r[0].deps
                return join(const(op == "Is", d), const(op != "Is", d))
        for a in l:
            for b in r:
                out = join(out, self.compare1(op, a, b, st, node))
        return out or self.sym("bool")

    def compare1(self, op, a, b, st, node):
        d = a.deps | b.deps
        if op in ("Is", "IsNot"):
            t = None
            if isinstance(a, Const) and isinstance(b, Const):
                t = a.val is b.val or (a.val == b.val and type(a.val) is type(b.val))
            elif isinstance(b, Const) and (b.val is None or isinstance(b.val, bool)) or isinstance(a, Const) and (a.val is None or isinstance(a.val, bool)):
                c, x = (b, a) if isinstance(b, Const) else (a, b)
                if isinstance(x, Sym):
                    if c.val is None:
                        t = False if x.kind not in ("any",) else None
                    else:
                        t = None if x.kind in ("any", "bool") else False
                else:
                    t = False
            elif isinstance(a, Ref) and isinstance(b, Ref):
                t = True if a.oid == b.oid and not self.iterpath else (None if a.oid == b.oid else False)
            elif isinstance(a, (Cls, Func, Mod, Ext)) and isinstance(b, (Cls, Func, Mod, Ext)):
                t = a.key() == b.key()
            if t is None:
                return V(Sym("bool", d))
            return const(t if op == "Is" else not t, d)
        if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
            self.check_same_unit(a, (b,), node, "compared")
        if op in ("In", "NotIn"):
            v = self.contains(b, a, st, node)
            if op == "NotIn":
                out = []
                for x in v:
                    if isinstance(x, Const):
                        out.append(Const(not x.val, x.deps))
                    else:
                        out.append(Sym("bool", x.deps, tag=("not", x.tag) if isinstance(x, Sym) and x.tag else None))
                return tuple(out)
            return v
        r = self.compare_ext(op, a, b, st, node)
        if r is not None:
            return r
        if self.nodes == "some":
            for x, y, f in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
                l = lin_of(x)
                if isinstance(y, Const) and y.val == 0 and l and len(l) == 1 and l[0][0].startswith("n:") and l[0][1] == 1:
                    t = {"Eq": False, "NotEq": True, "Lt": False, "LtE": False, "Gt": True, "GtE": True}.get(f)
                    if t is not None:
                        return const(t, d)
        if isinstance(a, Const) and isinstance(b, Const):
            import operator as o

            f = {"Eq": o.eq, "NotEq": o.ne, "Lt": o.lt, "LtE": o.le, "Gt": o.gt, "GtE": o.ge}[op]
            try:
                return const(f(a.val, b.val), d)
            except Exception:
                return self.sym("bool", d)
        if op in ("Eq", "NotEq"):
            if isinstance(a, (Cls, Func, Mod)) or isinstance(b, (Cls, Func, Mod)):
                return const((a.key() == b.key()) == (op == "Eq"))
            if isinstance(a, Ext) and isinstance(b, Ext):
                if a.name == b.name:
                    return const(op == "Eq")
                if a.name.startswith("builtins") and b.name.startswith("builtins"):
                    return const(op != "Eq")
            la, lb = lin_of(a), lin_of(b)
            if la is not None and lb is not None and la == lb:
                return const(op == "Eq", d)
            if isinstance(a, Const) and a.val is None or isinstance(b, Const) and b.val is None:
                x = b if isinstance(a, Const) and a.val is None else a
                if not (isinstance(x, Sym) and x.kind == "any"):
                    return const(op != "Eq")
            kinds = {self.ckind(a), self.ckind(b)}
            if "str" in kinds and len(kinds) == 2 and kinds & {"num"}:
                return const(op != "Eq")
        dd = d | (self.shallow_deps(a, st) if isinstance(a, Ref) else NO) | (self.shallow_deps(b, st) if isinstance(b, Ref) else NO)
        for x in (a, b):
            o = self.obj(x, st)
            if o is not None and o.kind in ("list", "tuple", "dict", "set", "dictview"):
                dd |= self.deep_deps((x,), st) if o.kind != "dict" or not o.get("cacheof") else NO
            if o is not None and o.kind == "ndarray":
                return V(self.new(st, node, HObj("ndarray", elem=self.sym("bool", dd), deps=o.get("deps") or NO, seq=o.get("seq"), unord=o.get("unord")), tag="cmp"))
        tag = self.cmp_tag(op, a, b, node, st)
        return V(Sym("bool", dd, tag=tag))

    def eqtag(self, what, x, y):
        return (what, *sorted((str(x), str(y))))

    def table_of(self, a, st):
        """("table"|"keys", root) if the value is (the keys of) a whole node numbering."""
        o = self.obj(a, st)
        if o is None:
            return None
        what = "table"
        if o.kind == "dictview":
            if o.f["what"] != "keys":
                return None
            o, what = st.heap.get(o.f["of"]), "keys"
        if o is not None and o.kind == "set":
            s = o.get("seq")
            return ("keys", s[1]) if s and s[0] == "nodes" else None
        if o is None or o.kind != "dict":
            return None
        segs = o.get("segs")
        if segs and len(segs) == 1 and not segs[0][1] and segs[0][0] and segs[0][0][0] == "n":
            return (what, segs[0][0][1])
        return None

    def cmp_tag(self, op, a, b, node, st):
        if op in ("Eq", "NotEq"):
            x, y = self.table_of(a, st), self.table_of(b, st)
            if x and y and x[0] == y[0]:
                tag = self.eqtag("eqtable" if x[0] == "table" else "eqkeys", x[1], y[1])
                return tag if op == "Eq" else ("not", tag)
        return None

    def learn(self, truth, tag, st):
        """A test with this tag came out `truth`."""
        while tag and tag[0] == "not" and tag[1] is not None:
            truth, tag = not truth, tag[1]
        st.facts = st.facts | {("true" if truth else "false", tag)}
        if truth and tag[0] == "eqtable":
            st.facts = st.facts | {("true", ("eqkeys", *tag[1:]))}
            self.subst_space(st, tag[2], tag[1])

    def subst_space(self, st, old, new):
        """The numberings of `old` and `new` are known to be equal: use one name for both."""
        o1, n1, o2, n2, o3, n3 = ("n", old), ("n", new), f"n:{old}", f"n:{new}", ("nodes", old), ("nodes", new)
        memo = {}

        def m(x):
            if isinstance(x, tuple):
                if x == o1:
                    return n1
                if x == o3:
                    return n3
                if not x:
                    return x
                y = tuple(m(e) for e in x)
                return y if any(p is not q for p, q in zip(x, y)) else x
            if isinstance(x, str):
                return n2 if x == o2 else x
            if isinstance(x, Sym):
                y = (m(x.space), m(x.lin), m(x.tag))
                return x if y[0] is x.space and y[1] is x.lin and y[2] is x.tag else Sym(x.kind, x.deps, space=y[0], name=x.name, tag=y[2], lin=y[1])
            if isinstance(x, list):
                return [m(e) for e in x]
            if isinstance(x, dict):
                return {k: m(e) for k, e in x.items()}
            if isinstance(x, Content):
                ch = {}
                for k in x.__slots__:
                    if k == "tok":
                        continue
                    v = getattr(x, k)
                    w = m(v)
                    if w is not v:
                        ch[k] = w
                return x.but(**ch) if ch else x
            return x

        for oid, o in list(st.heap.items()):
            f = {k: m(v) for k, v in o.f.items() if k != "root"}
            if any(f[k] is not o.f[k] for k in f):
                st.heap[oid] = o.set(**f)
        st.env = {k: m(v) if isinstance(v, tuple) else v for k, v in st.env.items()}

    def ckind(self, a):
        if isinstance(a, Const):
            return "str" if isinstance(a.val, str) else "num" if isinstance(a.val, (int, float)) else "other"
        if isinstance(a, Sym):
            return "str" if a.kind == "str" else "num" if a.kind in ("int", "float", "num", "idx") else "any"
        return "other"

    def compare_ext(self, op, a, b, st, node):
        return None

    def contains(self, cont, x, st, node):
        """x in cont"""
        o = self.obj(cont, st)
        d = x.deps | cont.deps
        if isinstance(cont, Const):
            if isinstance(x, Const):
                try:
                    return const(x.val in cont.val, d)
                except Exception:
                    return self.sym("bool", d)
            return self.sym("bool", d)
        if o is None:
            return self.sym("bool", maybe(d))
        if o.kind == "inst":
            m = o.f["cls"].lookup("__contains__")
            if m is not None:
                return self.call_method(cont, m, [V(x)], {}, st, node)
            return self.sym("bool", maybe(self.deep_deps((cont,), st) | d))
        if o.kind == "dictview":
            dd = st.heap.get(o.f["of"])
            if dd is not None and o.f["what"] == "keys":
                o = dd
            elif dd is not None and o.f["what"] == "values":
                self.check_same_unit(x, dd.get("v") or (), node, "looked for")
        if o.kind == "dict":
            if o.get("cacheof"):
                root = o.f["cacheof"]
                if isinstance(x, Const) and x.val in (o.get("entries") or {}):
                    return const(True)
                return V(Sym("bool", frozenset({"hist:" + root})))
            entries = o.get("entries") or {}
            if isinstance(x, Const):
                try:
                    if x.val in entries:
                        return const(True, d)
                except TypeError:
                    self.raise_exc(Ext("builtins.TypeError"), node, st, end=True)
                if not o.get("k"):
                    return const(False, d)
            xo = self.obj(x, st)
            if xo is not None and xo.kind in ("list", "dict", "set", "ndarray"):
                self.raise_exc(Ext("builtins.TypeError"), node, st, end=True)
            if xo is not None and xo.kind in ("tensor", "expr", "mask", "inst") :
                return const(False, d)
            if isinstance(x, Const) and x.val is None:
                return const(False)
            self.check_dict_key(cont, o, V(x), st, node)
            if isinstance(x, Sym) and x.tag == "member":
                return const(True)
            if isinstance(x, Sym) and x.tag == "absent":
                return const(False)
            if not o.get("k") and not entries:
                return const(False) if not o.get("deps") else self.sym("bool", o.get("deps"))
            return self.sym("bool", d | (o.get("deps") or NO) | deps_of(o.get("k") or ()))
        if o.kind in ("list", "tuple", "set"):
            elts = o.get("elts")
            self.check_same_unit(x, o.get("elem") or tuple(y for e in elts or () for y in e), node, "looked for")
            if elts is not None and all(len(e) == 1 and isinstance(e[0], (Const, Ext)) for e in elts):
                if isinstance(x, (Const, Ext)):
                    return const(any(e[0].key() == x.key() or (isinstance(x, Const) and isinstance(e[0], Const) and e[0].val == x.val) for e in elts), d)
                return V(Sym("bool", d))
            return self.sym("bool", d | (o.get("deps") or NO) | deps_of(o.get("elem") or ()))
        if o.kind == "nxgraph":
            if isinstance(x, Sym) and x.tag == "member":
                return const(True)
            if isinstance(x, Sym) and x.tag == "absent":
                return const(False)
            if isinstance(x, Const) and x.val is None or isinstance(x, Ref):
                return const(False)
            return self.sym("bool", d | frozenset({o.f["root"] + ".struct"}))
        r = self.contains_ext(cont, o, x, st, node)
        if r is not None:
            return r
        return self.sym("bool", maybe(d | self.deep_deps((cont,), st)))

    def contains_ext(self, cont, o, x, st, node):
        return None

    # ------------------------------------------------------------ calls
    def call(self, fv, args, kwargs, st, node):
        return self.each(fv, st, lambda f, s: self.call1(f, args, kwargs, s, node), node)

    def call1(self, f, args, kwargs, st, node):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st, node)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_bound(f, args, kwargs, st, node)
            if isinstance(f.func, str):
                return self.call_builtin_method(f.self_, f.func, args, kwargs, st, node)
            return self.call(V(f.func), [V(f.self_)] + list(args), kwargs, st, node)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs, st, node)
        o = self.obj(f, st)
        if o is not None:
            if o.kind == "partial":
                return self.call(o.f["func"], list(o.f["args"]) + list(args), {**o.f["kwargs"], **kwargs}, st, node)
            if o.kind == "inst":
                m = o.f["cls"].lookup("__call__")
                if m is not None:
                    return self.call_method(f, m, args, kwargs, st, node)
            r = self.call_obj_ext(f, o, args, kwargs, st, node)
            if r is not None:
                return r
        if self.inner(f):
            return V(f.with_deps(f.deps))  # graph.nodes(data=True)
        self.note_unknown("call:" + self.snippet(getattr(node, "func", node)), node)
        return self.unknown_call(f, args, kwargs, st, node)

    def call_bound(self, f, args, kwargs, st, node):
        if isinstance(f.self_, Cls):
            return self.call_func(f.func, [V(f.self_)] + list(args), kwargs, st, node)
        return self.call_func(f.func, [V(f.self_)] + list(args), kwargs, st, node)

    def call_obj_ext(self, f, o, args, kwargs, st, node):
        return None

    def unknown_call(self, f, args, kwargs, st, node):
        d = f.deps
        for a in list(args) + list(kwargs.values()):
            d |= self.deep_deps(a, st)
        if isinstance(f, Bound):
            d |= self.deep_deps((f.self_,), st)
        return self.sym("any", maybe(d))

    def call_ext(self, f, args, kwargs, st, node):
        n = f.name
        if n.startswith("builtins."):
            return self.call_builtin(n[9:], args, kwargs, st, node)
        r = self.call_lib(n, f, args, kwargs, st, node)
        if r is not None:
            return r
        r = self.call_gb(n, f, args, kwargs, st, node)
        if r is not None:
            return r
        if self.norm_exc(n) in self.exc_names():
            return V(self.new(st, node, HObj("exc", cls=Ext(n), args=tuple(args), deps=NO), tag="exc"))
        self.note_unknown("call:" + n, node)
        return self.unknown_call(f, args, kwargs, st, node)

    def exc_names(self):
        from .interp import EXC_PARENT

        return EXC_PARENT

    def call_gb(self, n, f, args, kwargs, st, node):
        return None

    def call_lib(self, n, f, args, kwargs, st, node):
        A = args
        if n == "contextlib.suppress":
            return V(self.new(st, node, HObj("suppress", classes=[c for x in A for c in x], deps=NO), tag="suppress"))
        if n in ("numpy.errstate", "warnings.catch_warnings", "contextlib.nullcontext"):
            return V(Sym("any", tag="plain-context"))
        if n in ("itertools.chain.from_iterable", "itertools.chain"):
            infos = []
            if n.endswith("from_iterable"):
                outer = self.iterate(A[0], st, node)
                infos = [self.iterate(x, st, node) for x in (outer.elts if outer.elts is not None else [outer.elem])]
            else:
                infos = [self.iterate(x, st, node) for x in A]
            e = join(*[i.elem for i in infos]) if infos else ()
            d = NO
            for i in infos:
                d |= i.deps
            return V(self.new(st, node, HObj("iter", elts=None, elem=e, deps=d, unord=any(i.unord for i in infos)), tag="chain"))
        if n == "itertools.repeat":
            return V(self.new(st, node, HObj("iter", elts=None, elem=A[0], deps=deps_of(A[1]) if len(A) > 1 else NO), tag="repeat"))
        if n == "itertools.starmap":
            i = self.iterate(A[1], st, node)
            info = self.iterate(i.elem, st, node)
            e = self.call(A[0], info.elts if info.elts is not None else [info.elem], {}, st, node)
            return V(self.new(st, node, HObj("iter", elts=None, elem=e, deps=i.deps, unord=i.unord, seq=i.seq), tag="starmap"))
        if n in ("itertools.islice", "itertools.cycle", "itertools.takewhile", "itertools.dropwhile"):
            i = self.iterate(A[-1] if n.endswith("while") else A[0], st, node)
            d = i.deps
            for x in A[1:]:
                d |= deps_of(x)
            return V(self.new(st, node, HObj("iter", elts=None, elem=i.elem, deps=d, unord=i.unord), tag="islice"))
        if n == "itertools.pairwise":
            i = self.iterate(A[0], st, node)
            t = self.new(st, node, HObj("tuple", elts=[i.elem, i.elem], deps=NO), tag="pair")
            return V(self.new(st, node, HObj("iter", elts=None, elem=V(t), deps=i.deps, unord=i.unord, seq=("pairwise", i.seq)), tag="pairwise"))
        if n == "itertools.product":
            d = NO
            es = []
            for x in A:
                i = self.iterate(x, st, node)
                d |= i.deps
                es.append(i.elem)
            t = self.new(st, node, HObj("tuple", elts=es, deps=NO), tag="pair")
            return V(self.new(st, node, HObj("iter", elts=None, elem=V(t), deps=d), tag="product"))
        if n == "itertools.count":
            return V(self.new(st, node, HObj("iter", elts=None, elem=self.sym("int"), deps=NO), tag="count"))
        if n == "functools.partial":
            return V(self.new(st, node, HObj("partial", func=A[0], args=tuple(A[1:]), kwargs=dict(kwargs)), tag="partial"))
        if n in ("functools.wraps",):
            return V(Ext("identity"))
        if n == "identity":
            return A[0] if A else self.sym("any")
        if n == "functools.reduce":
            i = self.iterate(A[1], st, node)
            acc = join(A[2] if len(A) > 2 else i.elem, i.elem)
            return join(acc, self.call(A[0], [acc, i.elem], {}, st, node))
        if n in ("copy.copy", "copy.deepcopy"):
            return self.do_copy(A[0], st, node, deep=n.endswith("deepcopy"))
        if n in ("collections.defaultdict", "collections.OrderedDict", "collections.Counter"):
            rest = A[1:] if n.endswith("defaultdict") else A
            return self.call_builtin("dict", rest, kwargs, st, node)
        if n == "collections.deque":
            return self.call_builtin("list", A, kwargs, st, node)
        if n in ("math.ceil", "math.floor", "math.sqrt", "math.isclose", "math.isnan", "math.isinf", "math.log"):
            d = NO
            for x in A:
                d |= deps_of(x)
            return self.sym("int" if n in ("math.ceil", "math.floor") else "float", d)
        if n.startswith("operator."):
            m = {"and_": "BitAnd", "or_": "BitOr", "add": "Add", "sub": "Sub", "mul": "Mult", "matmul": "MatMult"}.get(n[9:])
            if m and len(A) == 2:
                return self.binop(m, A[0], A[1], st, node)
            if n == "operator.itemgetter":
                return V(Ext("?itemgetter"))
        if n in ("warnings.warn",):
            return V(NONE)
        if n.startswith("importlib."):
            return self.sym("str")
        if n in ("networkx.utils.decorators.not_implemented_for", "networkx.utils.not_implemented_for", "networkx.not_implemented_for"):
            return V(self.new(st, node, HObj("nif", types=tuple(a[0].val for a in A if a and isinstance(a[0], Const)), inner=None), tag="nif"))
        if n in ("networkx.utils.decorators.argmap",):
            return None
        if n.startswith("networkx.") and n.rsplit(".", 1)[1] in ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph"):
            b = n.rsplit(".", 1)[1]
            return V(self.new(st, node, HObj("nxgraph", root="new", directed="Di" in b, multi="Multi" in b, owner=NO, log=()), tag="nxnew"))
        if n.startswith("numpy."):
            return self.call_np(n[6:], args, kwargs, st, node)
        return None

    def do_copy(self, v, st, node, deep=False, seen=None):
        out = ()
        for a in v:
            o = self.obj(a, st)
            if o is None:
                out = join(out, V(a))
                continue
            n = o.set(owner=NO) if "owner" in o.f else o
            if n.get("cacheof"):
                n = n.set(cacheof=None)
            if deep and o.kind == "inst":
                at = {k: self.do_copy(x, st, node, True) if k not in ("_key_to_id", "_id_to_key") else x for k, x in o.f["attrs"].items()}
                n = n.set(attrs=at)
            elif deep and n.get("elts") is not None:
                n = n.set(elts=[self.do_copy(x, st, node, True) for x in n.f["elts"]])
            r = self.new(st, node, n, tag=("copy", a.oid))
            out = join(out, V(Ref(r.oid, a.deps)))
        return out

    def arr(self, st, node, elem, deps=NO, tag=None, **kw):
        return V(self.new(st, node, HObj("ndarray", elem=elem, deps=deps, **kw), tag=("arr", tag)))

    def seq_of(self, v, st, node):
        return self.iterate(v, st, node)

    def call_np(self, n, args, kwargs, st, node):
        A = args
        if n in ("arange",):
            stop = A[-1] if len(A) == 1 else A[1]
            return V(self.range_obj(A, st, node, "ndarray"))
        if n in ("array", "asarray", "ascontiguousarray", "fromiter", "sort", "unique", "copy", "flip", "roll"):
            i = self.iterate(A[0], st, node)
            un = i.unord and n not in ("sort", "unique")
            seq = i.seq if n in ("array", "asarray", "ascontiguousarray", "fromiter", "copy") else None
            return self.arr(st, node, i.elem, i.deps, n, seq=seq, unord=un, length=i.length)
        if n in ("ones", "zeros", "empty", "full"):
            d = deps_of(A[0]) if A else NO
            e = const(1) if n == "ones" else const(0) if n == "zeros" else A[1] if n == "full" and len(A) > 1 else self.sym("num")
            return self.arr(st, node, e, d, n, length=A[0] if A else None)
        if n in ("lexsort", "argsort"):
            d = NO
            un = None
            for x in A:
                for e in self.iterate(x, st, node).elts or [x]:
                    i = self.iterate(e, st, node)
                    d |= i.deps | deps_of(i.elem)
            return self.arr(st, node, self.sym("int", d), d, n)
        if n in ("array_equal", "allclose", "any", "all"):
            d = NO
            for x in A:
                i = self.iterate(x, st, node)
                d |= i.deps | deps_of(i.elem)
                if i.unord and n in ("array_equal", "allclose"):
                    d |= frozenset({"unord:compared position by position@%s:%d" % (self.modfile.get(self.cur_mod(), "?"), getattr(node, "lineno", 0))})
            return self.sym("bool", d)
        if n in ("pad", "concatenate", "append", "hstack", "cumsum", "diff", "repeat", "tile", "where", "nonzero"):
            i = self.iterate(A[0], st, node)
            if n in ("concatenate", "hstack") and i.elem:
                i = self.iterate(i.elem, st, node)
            e = join(i.elem, const(0)) if n == "pad" else i.elem
            d = i.deps
            for x in A[1:]:
                d |= self.deep_deps(x, st)
            return self.arr(st, node, e, d, n, unord=i.unord)
        if n in ("lib.stride_tricks.sliding_window_view",):
            i = self.iterate(A[0], st, node)
            t = self.new(st, node, HObj("tuple", elts=[i.elem, i.elem], deps=NO), tag="win")
            return self.arr(st, node, V(t), i.deps, n, seq=("win", i.seq) if i.seq else None)
        if n in ("max", "min", "sum", "prod", "mean", "median", "dot", "searchsorted", "isin", "in1d", "setdiff1d", "intersect1d", "union1d"):
            d = NO
            for x in A:
                d |= self.deep_deps(x, st)
            if n in ("setdiff1d", "intersect1d", "union1d"):
                i = self.iterate(A[0], st, node)
                return self.arr(st, node, i.elem, d, n)
            if n in ("isin", "in1d", "searchsorted"):
                return self.arr(st, node, self.sym("any", d), d, n)
            return self.sym("num", d)
        if n in ("int64", "uint64", "int32", "float64", "bool_", "float32"):
            return A[0] if A else self.sym("num")
        return None

    def range_obj(self, A, st, node, kind="iter"):
        d = NO
        for x in A:
            d |= deps_of(x)
        stop = A[0] if len(A) == 1 else A[1]
        start = const(0) if len(A) == 1 else A[0]
        step = A[2] if len(A) > 2 else const(1)
        space = None
        length = None
        if len(stop) == 1 and isinstance(stop[0], Sym) and len(start) == 1 and isinstance(start[0], Const) and start[0].val == 0 and step == const(1) or (
            len(stop) == 1 and isinstance(stop[0], Sym) and len(A) == 1
        ):
            s = stop[0]
            space = s.space
            length = stop
        allc = all(len(x) == 1 and isinstance(x[0], Const) and isinstance(x[0].val, int) for x in A)
        if allc and kind == "iter":
            vals = [x[0].val for x in A]
            try:
                rng = range(*vals)
                if len(rng) <= 12:
                    return self.new(st, node, HObj("iter", elts=[const(i) for i in rng], deps=d, seq=("range",) + tuple(vals)), tag="range")
            except Exception:
                pass
        if kind == "iter" and len(A) == 1 and len(stop) == 1 and isinstance(stop[0], Sym) and stop[0].tag == "one":
            pass
        e = Sym("idx" if space is not None else "int", d, space=space)
        # a chain of blocks: range(offset, offset+n)
        if space is None and len(A) == 2 and len(start) == 1 and len(stop) == 1:
            diff = lin_add(lin_of(stop[0]), lin_of(start[0]), -1)
            if diff is not None:
                e = Sym("idx", d, space=("run", lin_of(start[0]), diff))
        return self.new(st, node, HObj(kind, elts=None, elem=V(e), deps=d, seq=("range", space) if space is not None else None, length=length), tag="range")

    # builtins -------------------------------------------------------------------
    def call_builtin(self, n, A, K, st, node):
        m = getattr(self, "b_" + n, None)
        if m is not None:
            return m(A, K, st, node)
        from .interp import BUILTIN_EXC

        if n in BUILTIN_EXC:
            return V(self.new(st, node, HObj("exc", cls=Ext("builtins." + n), args=tuple(A), deps=NO), tag="exc"))
        self.note_unknown("builtin:" + n, node)
        d = NO
        for a in A:
            d |= self.deep_deps(a, st)
        return self.sym("any", maybe(d))

    def counted(self, o):
        """Someone asked how many items these are."""
        if self.counts is not None and o is not None and isinstance(o.get("seq"), tuple) and o.get("seq")[0] == "coo":
            self.counts.add(o.get("seq")[1:])

    def b_len(self, A, K, st, node):
        out = ()
        for a in A[0]:
            o = self.obj(a, st)
            self.counted(o)
            if isinstance(a, Const):
                try:
                    out = join(out, const(len(a.val), a.deps))
                except TypeError:
                    self.raise_exc(Ext("builtins.TypeError"), node, st)
                continue
            if o is not None:
                if o.kind == "inst" and o.f["cls"].lookup("__len__") is not None:
                    out = join(out, self.call_method(a, o.f["cls"].lookup("__len__"), [], {}, st, node))
                    continue
                if o.kind in ("list", "tuple", "set") and o.get("elts") is not None:
                    out = join(out, const(len(o.f["elts"]), (o.get("deps") or NO)))
                    continue
                r = self.len_ext(a, o, st, node)
                if r is not None:
                    out = join(out, r)
                    continue
                if o.kind in ("list", "tuple", "set", "ndarray", "dict", "dictview", "iter"):
                    d = o
                    if o.kind == "dictview":
                        d = st.heap.get(o.f["of"]) or o
                    if d.get("length"):
                        out = join(out, d.f["length"])
                        continue
                    if d.kind == "dict" and not d.get("k") and not d.get("v"):
                        out = join(out, const(len(d.get("entries") or {}), d.get("deps") or NO))
                        continue
                    if d.get("segs") is not None and len(d.f["segs"]) == 1:
                        sp = d.f["segs"][0][0]
                        out = join(out, V(self.dim_of_space(sp, (d.get("deps") or NO))))
                        continue
                    if d.get("segs"):
                        # labels of several numberings one after the other
                        ln, dd = (), d.get("deps") or NO
                        for sg in d.f["segs"]:
                            x = sg[0][2] if sg[0][0] == "run" else lin_of(self.dim_of_space(sg[0], dd))
                            dd |= frozenset({f"{sg[0][1]}.struct"}) if sg[0][0] == "n" else NO
                            ln = lin_add(ln, x) if ln is not None and x is not None else None
                        out = join(out, V(Sym("int", dd, lin=ln)))
                        continue
                    seq = d.get("seq")
                    sp = ("seq", seq) if seq is not None else None
                    if seq is not None and seq[0] == "nodes":
                        sp = ("n", seq[1])
                    dd = (d.get("deps") or NO) | deps_of(d.get("elem") or ()) | deps_of(d.get("k") or ())
                    out = join(out, V(Sym("int", dd, space=sp, lin=(("len:" + repr(sp), 1),) if sp else None)) if sp is None or sp[0] != "n" else V(self.dim_of_space(sp, dd)))
                    continue
                if o.kind == "nxgraph":
                    out = join(out, V(self.dim_of_space(("n", o.f["root"]), frozenset({o.f["root"] + ".struct"}))))
                    continue
            out = join(out, self.sym("int", maybe(self.deep_deps((a,), st)) if isinstance(a, Ref) else a.deps))
        return out

    def dim_of_space(self, sp, deps):
        if sp is None:
            return Sym("int", deps)
        if sp[0] == "n":
            if self.nodes == 0:
                return Const(Nothing(), deps)
            return Sym("int", deps | frozenset({f"{sp[1]}.struct"}) if sp[1] else deps, space=sp, lin=(("n:" + str(sp[1]), 1),))
        return Sym("int", deps, space=sp, lin=(("len:" + repr(sp), 1),))

    def len_ext(self, a, o, st, node):
        return None

    def b_isinstance(self, A, K, st, node):
        res = set()
        for a in A[0]:
            res.add(self.isinst(a, A[1], st))
        if len(res) == 1:
            r = res.pop()
            if r is not None:
                return const(r)
        return self.sym("bool", NO)

    def b_issubclass(self, A, K, st, node):
        from .interp import EXC_PARENT

        flat = []
        for c in A[1]:
            o = self.obj(c, st)
            flat += [x for e in o.f["elts"] for x in e] if o is not None and o.get("elts") is not None else [c]
        res = {self.exc_matches(a, c) if isinstance(a, (Cls, Ext)) and isinstance(c, (Cls, Ext)) and (isinstance(a, Cls) or self.norm_exc(a.name) in EXC_PARENT) else None for a in A[0] for c in flat}
        if len(res) == 1 and None not in res:
            return const(res.pop())
        return self.sym("bool")

    def b_callable(self, A, K, st, node):
        if all(isinstance(a, (Func, Cls, Bound)) for a in A[0]):
            return const(True)
        if all(isinstance(a, Const) for a in A[0]):
            return const(False)
        return self.sym("bool", deps_of(A[0]))

    def b_hasattr(self, A, K, st, node):
        nm = A[1][0].val if self.hashable_const(A[1]) else None
        res = set()
        for a in A[0]:
            c = self.cls_of(a, st)
            o = self.obj(a, st)
            if c is not None and nm is not None:
                res.add(c.lookup(nm) is not None or nm in (o.get("attrs") or {}))
            elif isinstance(a, Const):
                res.add(hasattr(a.val, nm or ""))
            else:
                res.add(None)
        if len(res) == 1 and None not in res:
            return const(res.pop())
        return self.sym("bool", deps_of(A[0]))

    def b_getattr(self, A, K, st, node):
        if len(A[1]) >= 1 and all(isinstance(x, Const) and isinstance(x.val, str) for x in A[1]):
            out = ()
            for x in A[1]:
                if len(A) > 2:
                    self.collectors.append([])
                    try:
                        from .interp import PathEnd

                        try:
                            out = join(out, self.getattr_(A[0], x.val, st, node))
                        except PathEnd:
                            out = join(out, A[2])
                    finally:
                        self.collectors.pop()
                else:
                    out = join(out, self.getattr_(A[0], x.val, st, node))
            return add_deps(out, deps_of(A[1]))
        return self.sym("any", maybe(self.deep_deps(A[0], st) | deps_of(A[1])))

    def b_setattr(self, A, K, st, node):
        if self.hashable_const(A[1]):
            self.setattr_(A[0], A[1][0].val, A[2], st, node)
        return V(NONE)

    def b_range(self, A, K, st, node):
        return V(self.range_obj(A, st, node))

    def b_iter(self, A, K, st, node):
        i = self.iterate(A[0], st, node)
        return V(self.new(st, node, HObj("iter", elts=i.elts, elem=i.elem, deps=i.deps, seq=i.seq, unord=i.unord, nonempty=i.nonempty, length=i.length), tag="iter"))

    def b_next(self, A, K, st, node):
        i = self.iterate(A[0], st, node)
        e = i.elem or ()
        o = self.obj(A[0][0], st) if len(A[0]) == 1 else None
        own = o is not None and o.kind == "iter" and o.get("elts") is not None and not o.get("unord")
        if own:
            # what is taken is gone
            rest = o.f["elts"]
            if rest:
                e = rest[0]
                st.heap[A[0][0].oid] = o.set(elts=list(rest[1:]), elem=join(o.get("elem") or None, *rest), nonempty=None)
                return add_deps(e, i.deps)
            if len(A) > 1:
                return add_deps(A[1], i.deps)
            self.raise_exc(Ext("builtins.StopIteration"), node, st, end=True)
        if i.elts:
            e = i.elts[0]
        if i.unord:
            e = self.mark_unord(e, st, node, "first of an unordered collection")
        if len(A) > 1:
            return add_deps(join(e, A[1]), i.deps)
        if not i.nonempty:
            self.raise_maybe("StopIteration", node, st)
        return add_deps(e or self.sym("any"), i.deps)

    def mkseq(self, kind):
        pass

    def _collect(self, kind, A, K, st, node):
        if not A:
            return V(self.new(st, node, HObj(kind, elts=[], deps=NO), tag=kind))
        outs = ()
        for a in A[0]:
            i = self.iterate((a,), st, node)
            outs = join(outs, V(self.new(st, node, HObj(kind, elts=i.elts if kind != "set" else None, elem=i.elem, deps=i.deps, seq=i.seq, unord=i.unord or kind == "set", nonempty=i.nonempty, length=i.length if kind != "set" else None), tag=(kind, "of"))))
        return outs or V(self.new(st, node, HObj(kind, elts=None, elem=self.sym("any"), deps=NO), tag=(kind, "u")))

    def b_list(self, A, K, st, node):
        return self._collect("list", A, K, st, node)

    def b_tuple(self, A, K, st, node):
        return self._collect("tuple", A, K, st, node)

    def b_set(self, A, K, st, node):
        return self._collect("set", A, K, st, node)

    b_frozenset = b_set

    def b_sorted(self, A, K, st, node):
        i = self.iterate(A[0], st, node)
        ks = self.keysig(K.get("key"), st)
        seq = ("sorted", i.seq, ks)
        if i.seq is None:
            seq = None
        elif ks and ks[0] == "by" and len(ks[1]) == 1 and not ks[1][0][1] and ks[1][0][0][0] == "n" and i.seq[0] == "nodes":
            x = ks[1][0][0][1]
            if i.seq[1] == x or ("true", self.eqtag("eqkeys", x, i.seq[1])) in st.facts:
                seq = ("nodes", x)  # all nodes of X in X's numbering: its rows in order
        d = i.deps
        length = i.length
        return V(self.new(st, node, HObj("list", elts=None, elem=i.elem, deps=d | deps_of(i.elem), seq=seq, unord=False, sortedby=self.keysig(K.get("key"), st), length=length), tag="sorted"))

    def keysig(self, key, st):
        if not key:
            return None
        a = key[0]
        if isinstance(a, Bound) and a.func == "__getitem__":
            o = self.obj(a.self_, st)
            if o is not None and o.get("segs") is not None:
                return ("by", tuple(o.f["segs"]))
        return ("key", repr(a)[:60])

    def b_reversed(self, A, K, st, node):
        i = self.iterate(A[0], st, node)
        return V(self.new(st, node, HObj("iter", elts=list(reversed(i.elts)) if i.elts is not None else None, elem=i.elem, deps=i.deps, unord=i.unord, seq=("rev", i.seq) if i.seq else None, nonempty=i.nonempty, length=i.length), tag="rev"))

    def b_enumerate(self, A, K, st, node):
        i = self.iterate(A[0], st, node)
        sp = None
        if i.seq is not None:
            sp = ("n", i.seq[1]) if i.seq[0] == "nodes" else ("seq", i.seq)
        start = A[1] if len(A) > 1 else K.get("start")
        if i.elts is not None and start is None:
            elts = [V(self.new(st, node, HObj("tuple", elts=[const(j), e], deps=NO), tag=("en", j))) for j, e in enumerate(i.elts)]
            return V(self.new(st, node, HObj("iter", elts=elts, deps=i.deps, unord=i.unord), tag="enum"))
        idx = Sym("idx", i.deps, space=sp)
        if start is not None:
            la = lin_of(start[0]) if len(start) == 1 else None
            if sp is not None and la is not None:
                idx = Sym("idx", i.deps | deps_of(start), space=("off", sp, la) if la else sp)
            else:
                idx = Sym("int", i.deps | deps_of(start))
        if i.unord:
            idx = self.mark_unord(V(idx), st, node, "enumeration of an unordered collection")[0]
        t = self.new(st, node, HObj("tuple", elts=[V(idx), i.elem], deps=NO), tag="en")
        return V(self.new(st, node, HObj("iter", elts=None, elem=V(t), deps=i.deps, seq=i.seq, unord=i.unord, length=i.length), tag="enum"))

    def b_zip(self, A, K, st, node):
        infos = [self.iterate(a, st, node) for a in A]
        if "*" in K:
            # zip(*pairs): transposition
            info = self.iterate(K["*"], st, node)
            n = len(info.elts) if info.elts is not None else None
            elts = []
            for e in info.elts or []:
                elts.append(V(self.new(st, node, HObj("tuple", elts=None, elem=e, deps=deps_of(K["*"])), tag=("unzip", len(elts)))))
            if elts:
                return V(self.new(st, node, HObj("iter", elts=elts, deps=NO), tag="unzip"))
            return V(self.new(st, node, HObj("iter", elts=None, elem=self.sym("any", deps_of(K["*"])), deps=NO), tag="unzip"))
        if infos and all(i.elts is not None for i in infos) and len({len(i.elts) for i in infos}) == 1:
            elts = [V(self.new(st, node, HObj("tuple", elts=[i.elts[j] for i in infos], deps=NO), tag=("z", j))) for j in range(len(infos[0].elts))]
            d = NO
            for i in infos:
                d |= i.deps
            return V(self.new(st, node, HObj("iter", elts=elts, deps=d, unord=any(i.unord for i in infos)), tag="zip"))
        d = NO
        for i in infos:
            d |= i.deps
        known = [i.seq for i in infos if i.seq is not None]
        # pairing a sequence with 0..n-1
        cols = []
        base = [i.seq for i in infos if i.seq is not None and i.seq[0] != "range"]
        for i in infos:
            e = i.elem
            cols.append(e)
        seqs = tuple(i.seq for i in infos)
        seq = base[0] if len(set(base)) == 1 and all(s is not None for s in seqs) else (("zip",) + seqs if all(s is not None for s in seqs) else None)
        un = any(i.unord for i in infos)
        # unordered columns taken from one to_coo stay aligned with each other
        if un and len(infos) > 1 and not all(i.unord for i in infos):
            d = d | frozenset({"unord:paired with an ordered sequence@%s:%d" % (self.modfile.get(self.cur_mod(), "?"), getattr(node, "lineno", 0))})
        t = self.new(st, node, HObj("tuple", elts=cols, deps=NO), tag="z")
        return V(self.new(st, node, HObj("iter", elts=None, elem=V(t), deps=d, seq=seq, unord=un, length=next((i.length for i in infos if i.length), None)), tag="zip"))

    def b_map(self, A, K, st, node):
        infos = [self.iterate(a, st, node) for a in A[1:]]
        i = infos[0]
        d = NO
        for x in infos:
            d |= x.deps
        if i.elts is not None and len(infos) == 1:
            elts = [self.call(A[0], [e], {}, st, node) for e in i.elts]
            return V(self.new(st, node, HObj("iter", elts=elts, deps=d, seq=i.seq, unord=i.unord), tag="map"))
        e = self.call(A[0], [x.elem for x in infos], {}, st, node) if all(x.elem for x in infos) else ()
        return V(self.new(st, node, HObj("iter", elts=None, elem=e, deps=d, seq=i.seq, unord=i.unord, length=i.length, nonempty=i.nonempty), tag="map"))

    def b_filter(self, A, K, st, node):
        i = self.iterate(A[1], st, node)
        d = i.deps
        if not (len(A[0]) == 1 and isinstance(A[0][0], Const)):
            r = self.call(A[0], [i.elem], {}, st, node) if i.elem else ()
            d |= deps_of(r)
        return V(self.new(st, node, HObj("iter", elts=None, elem=i.elem, deps=d, unord=i.unord), tag="filter"))

    def b_sum(self, A, K, st, node):
        i = self.iterate(A[0], st, node)
        d = i.deps | deps_of(i.elem)
        return self.sym("num", d)

    def _minmax(self, A, K, st, node):
        d = NO
        if len(A) == 1:
            i = self.iterate(A[0], st, node)
            d = i.deps | deps_of(i.elem)
            if K.get("key") and i.unord:
                d |= frozenset({"unord:tie broken by iteration order@%s:%d" % (self.modfile.get(self.cur_mod(), "?"), getattr(node, "lineno", 0))})
            return add_deps(i.elem or self.sym("num"), d)
        ks = NO
        kind = "num"
        for a in A:
            d |= deps_of(a) | (self.deep_deps(a, st) if any(isinstance(x, Ref) for x in a) else NO)
        if all(len(a) == 1 and isinstance(a[0], Const) for a in A):
            try:
                f = max if getattr(self, "_mm", "max") == "max" else min
            except Exception:
                pass
        return self.sym(kind, d)

    b_min = b_max = _minmax

    def b_any(self, A, K, st, node):
        i = self.iterate(A[0], st, node)
        return self.sym("bool", i.deps | deps_of(i.elem))

    b_all = b_any

    def b_abs(self, A, K, st, node):
        r = self.unary_ext("abs", A[0][0], st, node) if A[0] else None
        return r if r is not None else self.sym("num", deps_of(A[0]))

    def b_round(self, A, K, st, node):
        return self.sym("num", deps_of(A[0]))

    def b_pow(self, A, K, st, node):
        return self.sym("num", deps_of(A[0]) | deps_of(A[1]))

    def b_divmod(self, A, K, st, node):
        d = deps_of(A[0]) | deps_of(A[1])
        return V(self.new(st, node, HObj("tuple", elts=[self.sym("num", d), self.sym("num", d)], deps=NO), tag="divmod"))

    def b_int(self, A, K, st, node):
        if not A:
            return const(0)
        out = ()
        for a in A[0]:
            if isinstance(a, Const) and isinstance(a.val, (int, float)):
                out = join(out, const(int(a.val), a.deps))
            elif isinstance(a, Sym) and a.kind in ("int", "idx", "key"):
                out = join(out, V(a))
            else:
                if isinstance(a, Sym) and a.kind in ("any", "str") :
                    self.raise_maybe("ValueError", node, st)
                out = join(out, self.sym("int", self.shallow_deps(a, st)))
        return out

    def b_float(self, A, K, st, node):
        if not A:
            return const(0.0)
        out = ()
        from .interp import PathEnd

        for a in A[0]:
            if isinstance(a, Const) and isinstance(a.val, (int, float, str)):
                try:
                    out = join(out, const(float(a.val), a.deps))
                except ValueError:
                    self.raise_maybe("ValueError", node, st)
                continue
            o = self.obj(a, st)
            if o is not None and o.kind in ("dict", "list", "tuple", "set", "ndarray") or isinstance(a, Const):
                self.raise_maybe("TypeError", node, st)
                continue
            if isinstance(a, Sym) and a.kind in ("any", "str"):
                self.raise_maybe("TypeError", node, st)
            out = join(out, self.sym("float", self.shallow_deps(a, st)))
        if not out:
            raise PathEnd
        return out

    def b_bool(self, A, K, st, node):
        if not A:
            return const(False)
        t = self.truth(A[0], st)
        d = deps_of(A[0]) | self.truth_deps(A[0], st)
        if t is not None:
            return const(t, d)
        tags = {a.tag for a in A[0] if isinstance(a, Sym)}
        return V(Sym("bool", d, tag=tags.pop() if len(tags) == 1 else None))

    def b_str(self, A, K, st, node):
        if not A:
            return const("")
        if self.hashable_const(A[0]):
            return const(str(A[0][0].val), A[0][0].deps)
        return self.sym("str", self.deep_deps(A[0], st))

    b_repr = b_format = b_str

    def b_hash(self, A, K, st, node):
        return self.sym("int", deps_of(A[0]))

    def b_id(self, A, K, st, node):
        return self.sym("int", frozenset({"unord:id()@%d" % getattr(node, "lineno", 0)}))

    def b_print(self, A, K, st, node):
        return V(NONE)

    def b_type(self, A, K, st, node):
        out = ()
        for a in A[0]:
            c = self.cls_of(a, st)
            if c is not None:
                out = join(out, V(c))
            else:
                o = self.obj(a, st)
                if isinstance(a, Const):
                    out = join(out, V(Ext("builtins." + type(a.val).__name__)))
                elif o is not None and o.kind in ("list", "tuple", "set", "dict"):
                    out = join(out, V(Ext("builtins." + o.kind)))
                elif o is not None and o.kind == "exc":
                    out = join(out, V(o.f["cls"]))
                else:
                    r = self.type_ext(a, o, st)
                    out = join(out, r if r is not None else self.sym("any", NO))
        return out

    def type_ext(self, a, o, st):
        return None

    def b_super(self, A, K, st, node):
        for fr in reversed(self.stack):
            c = fr.get("params")
            if c:
                for k, v in c.items():
                    return V(Ext("?super"))
        return V(Ext("?super"))

    def b_object(self, A, K, st, node):
        return self.sym("any")

    def b_property(self, A, K, st, node):
        return V(self.make_property(A[0] if A else (), st, node, A[1] if len(A) > 1 else None))

    def b_classmethod(self, A, K, st, node):
        return V(self.new(st, node, HObj("classmethod", func=A[0]), tag="cm"))

    def b_staticmethod(self, A, K, st, node):
        return tuple(self.mark(a, "static") for a in A[0])

    def b_vars(self, A, K, st, node):
        return self.sym("any", maybe(self.deep_deps(A[0], st)) if A else NO)

    def b_slice(self, A, K, st, node):
        a = [x for x in A]
        if len(a) == 1:
            a = [V(NONE), a[0], V(NONE)]
        while len(a) < 3:
            a.append(V(NONE))
        return V(self.new(st, node, HObj("slice", lo=a[0], hi=a[1], step=a[2], deps=deps_of(a[0]) | deps_of(a[1]) | deps_of(a[2])), tag="slice"))

    def pairs_dict(self, a, st, node):
        """A dict record built from an iterable of pairs."""
        i = self.iterate((a,), st, node)
        ent, kk, vv = {}, (), ()
        for e in i.elts if i.elts is not None else [i.elem]:
            p = self.iterate(e, st, node)
            if p.elts is not None and len(p.elts) == 2:
                k, v = p.elts
            else:
                k = v = p.elem
            if i.elts is not None and self.hashable_const(k):
                ent[k[0].val] = v
            else:
                kk, vv = join(kk or None, k), join(vv or None, v)
        r = dict(elts=None, elem=(kk, vv), deps=i.deps, seq=i.seq, unord=i.unord, length=i.length, filtered=False)
        o2 = HObj("dict", entries=ent, k=kk or (), v=vv or (), deps=i.deps, segs=None, seq=i.seq, unord=i.unord, length=i.length)
        return self.dict_segments(o2, r, st)

    def cat_segs(self, o, so):
        if o.get("segs") is not None and so.get("segs") is not None:
            return tuple(o.f["segs"]) + tuple(so.f["segs"])
        if not o.get("k") and not o.get("entries") and so.get("segs") is not None:
            return so.f["segs"]
        return None

    def b_dict(self, A, K, st, node):
        entries = {}
        o = HObj("dict", entries=entries, k=(), v=(), deps=NO, segs=None)
        if A:
            src = A[0]
            first = True
            for a in src:
                so = self.obj(a, st)
                if so is not None and so.kind == "dict":
                    o2 = HObj("dict", entries=dict(so.get("entries") or {}), k=so.get("k") or (), v=so.get("v") or (), deps=so.get("deps") or NO, segs=so.get("segs"), seq=so.get("seq"), unord=so.get("unord"), length=so.get("length"))
                else:
                    o2 = self.pairs_dict(a, st, node)
                o = o2 if first else join_obj(o, o2)
                first = False
        ent = dict(o.get("entries") or {})
        for k, v in K.items():
            if k not in ("*", "**"):
                ent[k] = v
        o = o.set(entries=ent)
        return V(self.new(st, node, o, tag="dict"))

    # methods of builtin objects ---------------------------------------------------
    def list_extend(self, a, o, rhs, st, node):
        i = self.iterate(rhs, st, node)
        if o.get("elts") is not None and i.elts is not None:
            st.heap[a.oid] = o.set(elts=list(o.f["elts"]) + [add_deps(x, i.deps | st.pc) for x in i.elts], seq=None)
        else:
            e = join(o.get("elem") if o.get("elts") is None else join(*o.f["elts"]) if o.f["elts"] else None, add_deps(i.elem, i.deps | st.pc)) or ()
            st.heap[a.oid] = o.set(elts=None, elem=e, seq=None, unord=o.get("unord") or i.unord, deps=(o.get("deps") or NO) | i.deps)

    def call_builtin_method(self, a, name, args, kwargs, st, node):
        o = self.obj(a, st)
        if isinstance(a, Ext):
            return self.call_ext(Ext(f"{a.name}.{name}"), args, kwargs, st, node)
        if isinstance(a, Cls):
            return self.cls_method(a, name, args, kwargs, st, node)
        if isinstance(a, Const):
            return self.const_method(a, name, args, kwargs, st, node)
        if isinstance(a, Sym):
            return self.sym_method(a, name, args, kwargs, st, node)
        if o is not None:
            if o.kind in CONTAINERS:
                r = self.call_container(a, o, name, args, kwargs, st, node)
                if r is not None:
                    return r
            if o.kind == "inst":
                r = self.inst_ext_method(a, o, name, args, kwargs, st, node)
                if r is not None:
                    return r
            if o.kind == "nxgraph":
                return self.nx_method(a, o, name, args, kwargs, st, node)
            r = self.call_method_ext(a, o, name, args, kwargs, st, node)
            if r is not None:
                return r
        if isinstance(a, Func) or o is not None:
            self.note_unknown("method:" + (o.kind if o is not None else "func") + "." + name, node)
        d = self.deep_deps((a,), st)
        for x in list(args) + list(kwargs.values()):
            d |= self.deep_deps(x, st)
        return self.sym("any", maybe(d))

    def call_method_ext(self, a, o, name, args, kwargs, st, node):
        return None

    def cls_method(self, a, name, args, kwargs, st, node):
        if name == "__new__":
            c = args[0] if args else V(a)
            out = ()
            for k in c:
                if isinstance(k, Cls):
                    out = join(out, V(self.new(st, node, HObj("inst", cls=k, attrs={}, owner=NO), tag=("new", k.name))))
            return out or self.sym("any")
        d = NO
        for x in args:
            d |= self.deep_deps(x, st)
        return self.sym("any", maybe(d))

    def const_method(self, a, name, args, kwargs, st, node):
        if isinstance(a.val, str) and not name.startswith("_"):
            if all(self.hashable_const(x) for x in args) and not kwargs and name in ("lower", "upper", "replace", "split", "strip", "startswith", "endswith", "rsplit", "join", "title", "lstrip", "rstrip", "isdigit", "partition", "removesuffix", "removeprefix", "format"):
                try:
                    r = getattr(a.val, name)(*[x[0].val for x in args])
                    if isinstance(r, list):
                        return V(self.new(st, node, HObj("list", elts=[const(x) for x in r], deps=NO), tag="split"))
                    return const(r, a.deps)
                except Exception:
                    pass
            d = a.deps
            for x in args:
                d |= self.deep_deps(x, st)
            if name in ("startswith", "endswith", "isdigit"):
                return self.sym("bool", d)
            if name == "split":
                return V(self.new(st, node, HObj("list", elts=None, elem=self.sym("str", d), deps=d), tag="split"))
            return self.sym("str", d)
        if name == "__getitem__":
            return self.getitem1(a, args[0], st, node)
        return self.sym("any", a.deps)

    def sym_method(self, a, name, args, kwargs, st, node):
        d = a.deps
        for x in list(args) + list(kwargs.values()):
            d |= self.deep_deps(x, st)
        if self.inner(a):
            if name in self.NXWRITE:
                self.inner_write(a, name, node)
            if name in self.NXREAD:
                return self.sym("any", maybe(d), name=a.name)
        if a.kind == "str":
            if name in ("split", "rsplit"):
                return V(self.new(st, node, HObj("list", elts=None, elem=self.sym("str", d), deps=d), tag="split"))
            if name in ("startswith", "endswith", "isdigit"):
                return self.sym("bool", d)
            return self.sym("str", d)
        if name in ("tolist", "item", "copy", "get", "new", "dup"):
            return V(a.with_deps(d)) if a.kind != "any" else self.sym("any", d)
        if name == "is_multigraph" or name == "is_directed":
            return self.sym("bool", d)
        return self.sym("any", maybe(d) if a.kind == "any" else d)

    def inst_ext_method(self, a, o, name, args, kwargs, st, node):
        """Methods a class inherits from collections.abc."""
        cls = o.f["cls"]
        exts = {b.name.rsplit(".", 1)[1] for b in cls.ext_bases() if isinstance(b, Ext)}
        if name in ("items", "keys", "values") and exts & {"Mapping", "MutableMapping"}:
            self.collectors.append([])
            try:
                i = self.iterate1(a, st, node)
                if name == "keys":
                    e = i.elem
                else:
                    from .interp import PathEnd

                    try:
                        named = self.rename(i.elem, ("item", a.oid, getattr(node, "lineno", 0)), st, node)
                        v = self.getitem((a,), named, st, node)
                    except PathEnd:
                        v = self.sym("any", maybe(self.deep_deps((a,), st)))
                    e = v if name == "values" else V(self.new(st, node, HObj("tuple", elts=[named, v], deps=NO), tag="mitem"))
            finally:
                self.collectors.pop()
            return V(self.new(st, node, HObj("iter", elts=None, elem=e, deps=i.deps, seq=i.seq, unord=i.unord), tag="mview"))
        if name in ("get",) and exts & {"Mapping", "MutableMapping"}:
            self.collectors.append([])
            try:
                v = self.getitem((a,), args[0], st, node)
            finally:
                self.collectors.pop()
            return join(v, args[1] if len(args) > 1 else V(NONE))
        if name in ("update", "pop", "popitem", "setdefault", "clear", "add", "remove", "discard") and o.get("owner"):
            self.event("mutate", node, owner=o.f["owner"], how=name, kind="inst")
        return None

    def nx_method(self, a, o, name, args, kwargs, st, node):
        root = o.f["root"]
        d = frozenset({f"{root}.struct"})
        if name == "is_multigraph":
            return const(o.f["multi"])
        if name == "is_directed":
            return const(o.f["directed"])
        if name in ("number_of_nodes", "order", "__len__"):
            return V(self.dim_of_space(("n", root), d))
        if name in ("add_nodes_from", "add_edges_from", "add_weighted_edges_from", "add_node", "add_edge", "remove_node", "remove_nodes_from", "remove_edge", "remove_edges_from", "clear", "update", "clear_edges", "add_path", "add_cycle", "add_star"):
            if o.get("owner"):
                self.event("mutate", node, owner=o.f["owner"], how=name, kind="nxgraph")
            st.heap[a.oid] = o.set(log=(o.get("log") or ()) + ((name, tuple(args), tuple(sorted(kwargs.items())), st.pc, node),))
            return V(NONE)
        if name == "__class__":
            return V(Ext("networkx." + ("Multi" if o.f["multi"] else "") + ("Di" if o.f["directed"] else "") + "Graph"))
        return self.sym("any", d | frozenset({f"{root}.vals"}), name=("nxinner", o.get("owner") or NO) if name in self.NXREAD else None)

    def call_container(self, a, o, name, args, kwargs, st, node):
        k = o.kind
        if name == "__getitem__":
            return self.getitem1(a, args[0], st, node)
        if name == "__contains__":
            return self.contains(a, args[0][0], st, node)
        if name == "__iter__":
            return self.b_iter([V(a)], {}, st, node)
        if name == "__len__":
            return self.b_len([V(a)], {}, st, node)
        if name == "__setitem__":
            self.setitem(V(a), args[0], args[1], st, node)
            return V(NONE)
        mk = "dict" if k == "dict" else k
        if name in MUTATORS.get(mk, ()):
            self.mutate(a, o, st, node, name, args=list(args))
            o = st.heap[a.oid]
        if k in ("list",):
            return self.list_method(a, o, name, args, kwargs, st, node)
        if k == "tuple":
            if name in ("index", "count"):
                return self.sym("int", self.deep_deps((a,), st))
            return None
        if k == "dict":
            return self.dict_method(a, o, name, args, kwargs, st, node)
        if k in ("set", "dictview"):
            return self.set_method(a, o, name, args, kwargs, st, node)
        if k == "ndarray":
            return self.nd_method(a, o, name, args, kwargs, st, node)
        if k in ("iter", "gen"):
            if name == "__next__":
                return self.b_next([V(a)], {}, st, node)
            if name == "close":
                return V(NONE)
        return None

    def list_method(self, a, o, name, args, kwargs, st, node):
        elts = o.get("elts")
        d = st.pc
        if name in ("remove", "pop", "clear", "insert"):
            # which elements are left depends on the argument and on getting here
            o = o.set(deps=(o.get("deps") or NO) | st.pc | (deps_of(args[0]) if args else NO))
        if name == "append":
            v = add_deps(args[0], d)
            if elts is not None and not self.iterpath or elts is not None and len(elts) < 12 and not st.pc:
                st.heap[a.oid] = o.set(elts=list(elts) + [v], seq=None)
            elif elts is not None and len(elts) < 12:
                st.heap[a.oid] = o.set(elts=list(elts) + [v], seq=None)
            else:
                st.heap[a.oid] = o.set(elts=None, elem=join(o.get("elem") if elts is None else (join(*elts) if elts else None), v), seq=None)
            return V(NONE)
        if name == "extend":
            self.list_extend(a, o, args[0], st, node)
            return V(NONE)
        if name == "insert":
            e = join(o.get("elem") if elts is None else (join(*elts) if elts else None), add_deps(args[1], d))
            st.heap[a.oid] = o.set(elts=None, elem=e, seq=None)
            return V(NONE)
        if name in ("pop",):
            e = o.get("elem") if elts is None else (join(*elts) if elts else ())
            st.heap[a.oid] = o.set(elts=None, elem=e, seq=None)
            if o.get("unord"):
                e = self.mark_unord(e, st, node, "pop from an unordered sequence")
            return e or self.sym("any")
        if name in ("sort",):
            st.heap[a.oid] = o.set(elts=None, elem=o.get("elem") if elts is None else join(*elts) if elts else (), seq=None, unord=False)
            return V(NONE)
        if name == "reverse":
            st.heap[a.oid] = o.set(elts=list(reversed(elts)) if elts is not None else None, seq=("rev", o.get("seq")) if o.get("seq") else None)
            return V(NONE)
        if name in ("clear",):
            st.heap[a.oid] = o.set(elts=[], elem=(), seq=None)
            return V(NONE)
        if name == "remove":
            st.heap[a.oid] = o.set(elts=None, elem=o.get("elem") if elts is None else join(*elts) if elts else (), seq=None)
            return V(NONE)
        if name == "copy":
            return self.do_copy(V(a), st, node)
        if name in ("index", "count"):
            return self.sym("int", self.deep_deps((a,), st) | deps_of(args[0]))
        return None

    def dict_method(self, a, o, name, args, kwargs, st, node):
        entries = o.get("entries") or {}
        if name in ("keys", "values", "items"):
            return V(self.new(st, node, HObj("dictview", of=a.oid, what=name, deps=NO), tag=("view", name, a.oid)))
        if name == "get":
            args = [as_key(args[0])] + list(args[1:])
            default = args[1] if len(args) > 1 else V(NONE)
            if o.get("cacheof"):
                self.event("cache_read", node, root=o.f["cacheof"], key=args[0])
                if self.hashable_const(args[0]) and args[0][0].val in entries:
                    return entries[args[0][0].val]
                return join(self.kept(o.f["cacheof"], args[0], st, node), default)
            if self.hashable_const(args[0]):
                try:
                    if args[0][0].val in entries:
                        return entries[args[0][0].val]
                except TypeError:
                    pass
                if not o.get("k") and not o.get("v"):
                    return default
            self.check_dict_key(a, o, args[0], st, node)
            v = join(o.get("v") or None, *entries.values()) or ()
            return add_deps(join(self.relate(o, args[0], v, st), default), (o.get("deps") or NO) | deps_of(args[0]))
        if name == "update":
            for src in args:
                for s in src:
                    so = self.obj(s, st)
                    o = st.heap[a.oid]
                    if so is None or so.kind != "dict":
                        so = self.pairs_dict(s, st, node)
                        o = st.heap[a.oid]
                    st.heap[a.oid] = o.set(
                        entries={**(o.get("entries") or {}), **(so.get("entries") or {})},
                        k=join(o.get("k") or None, so.get("k") or None) or (),
                        v=join(o.get("v") or None, so.get("v") or None) or (),
                        deps=(o.get("deps") or NO) | (so.get("deps") or NO) | st.pc,
                        segs=self.cat_segs(o, so),
                        seq=None,
                        unord=o.get("unord") or so.get("unord"),
                        length=None,
                    )
            if kwargs:
                o = st.heap[a.oid]
                e = dict(o.get("entries") or {})
                for k, v in kwargs.items():
                    if k not in ("*", "**"):
                        e[k] = v
                st.heap[a.oid] = o.set(entries=e)
            return V(NONE)
        if name == "setdefault":
            default = args[1] if len(args) > 1 else V(NONE)
            if o.get("cacheof"):
                self.dict_setitem(a, o, args[0], default, st, node)
                return join(self.kept(o.f["cacheof"], args[0], st, node), default)
            v = join(o.get("v") or None, *entries.values())
            self.dict_setitem(a, o, args[0], default, st, node, strong=False)
            return join(v, default)
        if name == "pop":
            v = join(o.get("v") or None, *entries.values(), args[1] if len(args) > 1 else None)
            if self.hashable_const(args[0]):
                e = dict(entries)
                r = e.pop(args[0][0].val, None)
                st.heap[a.oid] = o.set(entries=e, segs=None)
                if r is not None:
                    return r
            return v or self.sym("any")
        if name == "popitem":
            k = join(o.get("k") or None, *[const(x) for x in entries]) or self.sym("any")
            v = join(o.get("v") or None, *entries.values()) or self.sym("any")
            return V(self.new(st, node, HObj("tuple", elts=[k, v], deps=NO), tag="popitem"))
        if name == "copy":
            return self.do_copy(V(a), st, node)
        if name == "clear":
            st.heap[a.oid] = HObj("dict", entries={}, k=(), v=(), deps=NO, segs=None, owner=o.get("owner"), cacheof=o.get("cacheof"))
            return V(NONE)
        if name == "fromkeys":
            i = self.iterate(args[0], st, node)
            return V(self.new(st, node, HObj("dict", entries={}, k=i.elem, v=args[1] if len(args) > 1 else V(NONE), deps=i.deps, segs=None, seq=i.seq, unord=i.unord), tag="fromkeys"))
        if name == "__missing__":
            return self.sym("any")
        return None

    def set_method(self, a, o, name, args, kwargs, st, node):
        ia = self.iterate1(a, st, node)
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            cur = V(a)
            if not args and "*" in kwargs:
                args = [kwargs["*"]]
                i = self.iterate(args[0], st, node)
                return V(self.new(st, node, HObj("set", elts=None, elem=join(ia.elem or None, i.elem) or (), deps=ia.deps | i.deps | deps_of(kwargs["*"]), unord=True), tag="setop"))
            op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}[name]
            e, d, seq = ia.elem, ia.deps, ia.seq
            for x in args:
                i = self.iterate(x, st, node)
                d |= i.deps | deps_of(i.elem) | deps_of(e)
                if op in ("BitOr", "BitXor"):
                    e = join(e or None, i.elem)
                seq = ("setop", op, seq, i.seq) if seq and i.seq else None
            return V(self.new(st, node, HObj("set", elts=None, elem=e or (), deps=d, unord=True, seq=seq), tag="setop"))
        if name in ("isdisjoint", "issubset", "issuperset"):
            i = self.iterate(args[0], st, node)
            return self.sym("bool", ia.deps | i.deps | deps_of(ia.elem) | deps_of(i.elem))
        if name == "add":
            st.heap[a.oid] = o.set(elts=None, elem=join(ia.elem or None, add_deps(args[0], st.pc)), seq=None, unord=True)
            return V(NONE)
        if name in ("discard", "remove"):
            st.heap[a.oid] = o.set(elts=None, elem=ia.elem, seq=None, deps=(o.get("deps") or NO) | deps_of(args[0]) | st.pc, unord=True)
            return V(NONE)
        if name in ("update", "intersection_update", "difference_update", "symmetric_difference_update"):
            i = self.iterate(args[0], st, node)
            st.heap[a.oid] = o.set(elts=None, elem=join(ia.elem or None, i.elem) or (), deps=(o.get("deps") or NO) | i.deps, seq=None, unord=True)
            return V(NONE)
        if name == "pop":
            return self.mark_unord(ia.elem or self.sym("any"), st, node, "pop from a set")
        if name == "copy":
            return self.do_copy(V(a), st, node)
        if name == "clear":
            st.heap[a.oid] = o.set(elts=[], elem=(), seq=None)
            return V(NONE)
        return None

    def nd_method(self, a, o, name, args, kwargs, st, node):
        e = o.get("elem") or self.sym("any")
        d = o.get("deps") or NO
        if name in ("tolist", "copy", "astype", "ravel", "flatten", "view", "round"):
            kind = "list" if name == "tolist" else "ndarray"
            return V(self.new(st, node, HObj(kind, elts=None, elem=e, deps=d, seq=o.get("seq"), unord=o.get("unord"), length=o.get("length"), chunk=o.get("chunk")), tag=(name, a.oid)))
        if name == "sort":
            st.heap[a.oid] = o.set(unord=False, seq=None)
            return V(NONE)
        if name in ("sum", "max", "min", "mean", "any", "all", "item", "prod"):
            if name == "item" and o.get("unord"):
                e = self.mark_unord(e, st, node, "item of an unordered array")
            return add_deps(e, d) if name in ("max", "min", "item") else self.sym("num", d | deps_of(e))
        if name in ("argsort",):
            return self.arr(st, node, self.sym("int", d | deps_of(e)), d, "argsort")
        if name in ("argmin", "argmax"):
            return self.sym("int", d | deps_of(e))
        if name in ("reshape", "nonzero"):
            return self.arr(st, node, e, d, name, unord=o.get("unord"))
        return None
