"""Graph objects of the package: derived-data getters answered from their specification, numbering tables."""
from __future__ import annotations

import re

from .core import *
from .gbmodel import dirl, short


class GraphModel:
    """Mixin: in general mode G.get_property(...) is answered by what the property means (C03 checks the getters)."""

    def hook_call(self, f, args, kwargs, st, node):
        if f.qual == "normalize_chunksize" and args and len(args[0]) == 1 and isinstance(args[0][0], Sym) and args[0][0].tag == "chunks":
            return V(Sym("int", args[0][0].deps))  # context: the chunk size asked for splits the work
        if self.intercept and f.qual in ("get_property", "get_properties") and args:
            out = ()
            for a in args[0]:
                root = self.graph_root(a, st)
                if root is None:
                    return None
            b = {}
            names = [x.arg for x in f.node.args.args]
            for n, v in zip(names, args):
                b[n] = v
            b.update(kwargs)
            nm = b.get("name") or b.get("names")
            if nm is None:
                return None
            mask = b.get("mask")
            many = f.qual == "get_properties"
            for a in args[0]:
                for x in nm:
                    if isinstance(x, Const) and isinstance(x.val, str):
                        if many:
                            ns = [y for y in re.split("[ ,]+", x.val) if y]
                            elts = [self.graph_property(a, y, mask, st, node) for y in ns]
                            out = join(out, V(self.new(st, node, HObj("list", elts=elts, deps=NO), tag=("props", x.val))))
                        else:
                            out = join(out, self.graph_property(a, x.val, mask, st, node))
                        continue
                    o = self.obj(x, st)
                    if many and o is not None and o.get("elts") is not None:
                        elts = []
                        for e in o.f["elts"]:
                            r = ()
                            for y in e:
                                if isinstance(y, Const):
                                    r = join(r, self.graph_property(a, y.val, mask, st, node))
                            elts.append(r or self.sym("any"))
                        out = join(out, V(self.new(st, node, HObj("list", elts=elts, deps=NO), tag=("props", "list"))))
                        continue
                    # computed name
                    r = self.graph_root(a, st)
                    lab = frozenset({f"{r}.struct", f"?{r}.vals"}) | deps_of(nm)
                    out = join(out, self.sym("any", maybe(lab)))
            return out
        return None

    def graph_root(self, a, st):
        o = self.obj(a, st)
        if o is None or o.kind != "inst" or "_A" not in o.f["attrs"] or "_cache" not in o.f["attrs"]:
            return None
        return o.f.get("root") or ("obj%d" % a.oid)

    def graph_property(self, a, name, mask, st, node):
        o = self.obj(a, st)
        root = self.graph_root(a, st)
        cls = o.f["cls"]
        self.event("property", node, root=root, name=name, cls=cls.name)
        al = cls.lookup("_cache_aliases")
        full = name
        for x in al or ():
            d = self.base_heap.get(x.oid) if isinstance(x, Ref) else None
            if d is not None and name in (d.get("entries") or {}):
                v = d.f["entries"][name]
                if len(v) == 1 and isinstance(v[0], Const):
                    full = v[0].val
        directed = any(isinstance(k, Cls) and k.name == "DiGraph" for k in cls.mro())
        Av = o.f["attrs"]["_A"]
        out = ()
        for A in Av:
            c = self.content(A, st)
            if c is None:
                out = join(out, self.sym("any", maybe(self.deep_deps((A,), st))))
                continue
            out = join(out, self.property_of(A, c, root, full, mask, directed, st, node, o))
        return out

    def property_of(self, A, c, root, name, mask, directed, st, node, go):
        own = frozenset({f"cache:{root}"}) if go.get("owner") else NO
        nomask = not mask or all(isinstance(m, Const) and m.val is None for m in mask)
        struct, vals = c.p, c.v

        def ten(tk, cc, tok=None):
            cc = cc.but(tok=tok or ("prop", name, c.tok))
            if not nomask:
                cc = self.apply_mask(cc, mask, st, node)
                return self.tensor(st, node, tk, cc, tag=("prop", name, A.oid, "m"))
            return self.tensor(st, node, tk, cc, owner=own, tag=("prop", name, A.oid))

        base = name[:-1] if name[-1:] in "+-" else name
        minus = name.endswith("-")
        vec = Content(p=struct, rs=c.rs)
        if name == "A":
            if nomask:
                return V(A)
            return ten("M", c)
        if name == "AT":
            t = self.transpose(c)
            if not directed and not nomask:
                return ten("M", t)
            if not directed:
                return V(A)
            return ten("M", t, tok=tflip_(c.tok))
        if name == "offdiag":
            return ten("M", c.but(reg=frozenset("LU")))
        if base in ("L", "U"):
            reg = frozenset(base) if minus else frozenset(base + "D")
            return ten("M", c.but(reg=reg, sym=None))
        if name == "diag":
            return ten("V", vec.but(v=vals))
        if name == "has_self_edges":
            return V(Sym("bool", struct, name=("prop", root, name), tag=("prop", root, name)))
        if base.startswith("has_negative"):
            return V(Sym("bool", vals | struct, tag=("prop", root, name)))
        if name == "is_iso":
            return V(Sym("bool", vals | struct, tag=("prop", root, name)))
        if name == "iso_value":
            return join(self.tensor(st, node, "S", Content(v=vals, full=True), owner=own, tag=("prop", name, A.oid)), V(Const(None, vals)))
        if base in ("recip_degrees",):
            dd = frozenset({("both", "*")}) if c.orient in ("N", "T") else NO
            return ten("V", vec.but(p=struct | dirl(dd), v=struct | dirl(dd), d=dd))
        if base in ("total_degrees",):
            dd = frozenset({("both", "*")}) if c.orient in ("N", "T") else NO
            return ten("V", vec.but(p=struct | dirl(dd), v=struct | dirl(dd), d=dd))
        if base == "total_recip":
            return self.tensor(st, node, "S", Content(v=struct, full=True), owner=own, tag=("prop", name, A.oid)) if name in getattr(self, "scalar_props", ()) else V(Sym("int", struct))
        m = re.match(r"(.+)_(rowwise|columnwise|element|diagonal)$", base)
        if m:
            op, how = m.groups()
            v = self.reduce_v(op, c)
            if how in ("rowwise", "columnwise"):
                row = how == "rowwise" or c.sym
                dd = self.step(c.orient, "N" if row else "T", Content(src=NO))
                return ten("V", vec.but(p=struct | dirl(dd), v=v | dirl(dd) if v else v, d=dd))
            if how == "diagonal":
                return self.tensor(st, node, "S", Content(v=v, p=struct), owner=own, tag=("prop", name, A.oid))
            return self.tensor(st, node, "S", Content(v=v, p=struct if op != "count" else NO, full=op == "count"), owner=own, tag=("prop", name, A.oid))
        self.event("badprop", node, name=name)
        return self.sym("any", maybe(struct | vals))

    # ------------------------------------------------------------ numbering tables
    def dict_segments(self, o, r, st):
        """Recognise {label: row} tables: every label of one numbering, at an offset."""
        k, v = o.get("k") or (), o.get("v") or ()
        if o.get("entries") or not k or not v or r.get("filtered"):
            return o
        if len(v) == 1 and isinstance(v[0], Sym) and v[0].kind == "idx" and v[0].space is not None:
            sp = v[0].space
            off = ()
            if sp[0] == "off":
                off, sp = sp[2], sp[1]
            kd = deps_of(k)
            ksp = {x.space for x in k if isinstance(x, Sym)}
            src = None
            if sp[0] == "n":
                src = sp
            elif sp[0] == "seq":
                src = sp
            elif sp[0] == "run":
                src = sp
            if src is not None:
                return o.set(segs=((src, off, tuple(sorted(map(str, ksp)))),))
        return o


def tflip_(t):
    from .gbmodel import tflip

    return tflip(t)
