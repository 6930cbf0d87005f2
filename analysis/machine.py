from .core import *
from .gbmodel import GbModel
from .graphs import GraphModel
from .interp import InterpBase, PathEnd
from .pymodel import PyModel


class Interp(GraphModel, GbModel, PyModel, InterpBase):
    def decorate(self, dv, fv, st, node):
        # @prop.setter
        for d in dv:
            if isinstance(d, Bound) and d.func in ("setter", "getter", "deleter"):
                o = self.obj(d.self_, st) or self.base_heap.get(d.self_.oid)
                if o is not None and o.kind == "property":
                    return V(self.new(st, node, o.set(fset=fv) if d.func == "setter" else o, tag="property2"))
        return super().decorate(dv, fv, st, node)

    def getattr_ext(self, a, o, name, st, node):
        if o.kind == "nif" and name == "_func":
            return V(self.new(st, node, HObj("nifcheck", types=o.f["types"], deps=NO), tag="nifcheck"))
        return super().getattr_ext(a, o, name, st, node)

    def setattr_ext(self, a, o, name, val, st, node):
        if o.kind == "nif" and name == "_func":
            st.heap[a.oid] = o.set(subst=val)
            return
        return super().setattr_ext(a, o, name, val, st, node)

    def call_obj_ext(self, f, o, args, kwargs, st, node):
        if o.kind == "nifcheck":
            self.check_nif(o, args[0], st, node)
            return args[0]
        return super().call_obj_ext(f, o, args, kwargs, st, node)

    def call_nif(self, f, o, args, kwargs, st, node):
        if o.get("inner") is None:
            return super().call_nif(f, o, args, kwargs, st, node)
        g = args[0] if args else None
        if g is not None:
            if o.get("subst"):
                g2 = self.call(o.f["subst"], [g], {}, st, node)
                args = [g2] + list(args[1:])
            else:
                self.check_nif(o, g, st, node)
        elif kwargs:
            k = next(iter(kwargs))
            if o.get("subst"):
                self.call(o.f["subst"], [kwargs[k]], {}, st, node)
            else:
                self.check_nif(o, kwargs[k], st, node)
        return self.call(o.f["inner"], args, kwargs, st, node)

    def call_gb(self, n, f, args, kwargs, st, node):
        last = n.rsplit(".", 1)[-1]
        if last == "ensure_type":
            out = ()
            for a in args[0]:
                o = self.obj(a, st)
                if o is not None and o.kind == "expr":
                    out = join(out, self.gb_method(a, o, "new", [], {}, st, node))
                elif o is not None and o.kind == "nxgraph":
                    self.raise_exc(Ext("builtins.TypeError"), node, st, end=len(args[0]) == 1)
                else:
                    out = join(out, V(a))
            return out
        if n == "graphblas.io.from_networkx":
            out = ()
            for a in args[0]:
                o = self.obj(a, st)
                if o is None or o.kind != "nxgraph":
                    out = join(out, self.sym("any", maybe(self.deep_deps(args[0], st))))
                    continue
                root = o.f["root"]
                w = kwargs.get("weight") or (args[2] if len(args) > 2 else V(NONE))
                d = frozenset({f"{root}.struct"})
                v = NO
                for x in w:
                    if not (isinstance(x, Const) and x.val is None):
                        v |= frozenset({f"{root}.vals"})
                    v |= x.deps
                dt = kwargs.get("dtype")
                nl = kwargs.get("nodelist")
                sp = ("n", root)
                ok = False
                for x in nl or ():
                    so = self.obj(x, st)
                    if so is not None and (so.get("seq") == ("nodes", root) or (so.get("segs") is not None and [s[0] for s in so.f["segs"]] == [sp])):
                        ok = True
                if nl is not None and not ok:
                    self.event("space", node, what="matrix rows are not in the order of the numbering table")
                elif nl is None:
                    pass
                self.event("from_networkx", node, root=root, weight=w, dtype=dt)
                out = join(out, self.tensor(st, node, "M", Content(p=d, v=v, rs=sp, cs=sp, orient="N" if o.f["directed"] else "S", sym=None if o.f["directed"] else True), tag=("fnx", root)))
            return out
        if n == "graphblas.io.to_networkx":
            return None
        if n in ("graphblas.io.to_scipy_sparse", "graphblas.io.to_scipy_sparse_array"):
            d = NO
            for x in args:
                d |= self.deep_deps(x, st)
            return V(Sym("any", d, tag="scipy"))
        return super().call_gb(n, f, args, kwargs, st, node)

    def module_fn(self, mod, name):
        return self.load(mod).get(name)
