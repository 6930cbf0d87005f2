"""Model of python-graphblas: what each operation does to the facts of `core.Content`.

Heap kinds: tensor (a stored Matrix/Vector/Scalar), expr (unevaluated expression), tview (transposed view),
mask, upd (x(mask, accum, replace)), ns (the .ss namespace).
"""
from __future__ import annotations

import ast

from .core import *
from .pymodel import Iter, lin_of

COMMUTATIVE = {"plus", "times", "min", "max", "any", "pair", "oneb", "lor", "land", "lxor", "lxnor", "eq", "ne", "iseq", "isne", "bor", "band", "bxor", "absfirst_not", "numpy.hypot"}
IGNORE_BOTH = {"pair", "oneb", "one"}
UNARY_CONST = {"one"}
POSITIONAL_ROW = {"rowindex", "positioni", "index", "firsti", "positioni1", "secondi"}
POSITIONAL_COL = {"colindex", "positionj", "firstj", "secondj"}
SELECT_STRUCT = {"tril", "triu", "diag", "offdiag", "rowle", "rowgt", "colle", "colgt", "indexle", "indexgt", "row", "col", "index"}
SELECT_VALUE = {"valueeq", "valuene", "valuelt", "valuele", "valuegt", "valuege", "value", "nonzero", "nonnan", "nonnull"}
MONOIDS = {"plus", "times", "any", "min", "max", "lor", "land", "lxor", "lxnor", "eq", "bor", "band"}


def short(name):
    """graphblas.semiring.any_pair[bool] -> ('semiring', 'any_pair')"""
    parts = name.split(".")
    if parts and parts[0] == "graphblas":
        parts = parts[1:]
    if len(parts) >= 2:
        return parts[0], ".".join(parts[1:])
    return "", parts[0] if parts else ""


def semi_split(op):
    for m in sorted(MONOIDS, key=len, reverse=True):
        if op.startswith(m + "_"):
            return m, op[len(m) + 1 :]
    return op, op


def flip(o):
    return {"N": "T", "T": "N"}.get(o, o)


def tflip(t):
    if t is None:
        return None
    if isinstance(t, tuple) and t and t[0] == "T":
        return t[1]
    return ("T", t)


class GbModel:
    intercept = True

    # ------------------------------------------------------------ construction
    def tensor(self, st, node, tk, c, dims=None, owner=NO, tag=None, **kw):
        r = self.new(st, node, HObj("tensor", tk=tk, c=c, dims=dims, owner=owner, deps=NO, **kw), tag=("tensor", tag))
        o = st.heap[r.oid]
        if o.f["c"].tok is None:
            st.heap[r.oid] = o.set(c=o.f["c"].but(tok=("w", r.oid, getattr(node, "lineno", 0), self.iterpath)))
        return V(r)

    def expr(self, st, node, tk, c, dims=None, tag=None, **kw):
        return V(self.new(st, node, HObj("expr", tk=tk, c=c, dims=dims, deps=NO, **kw), tag=("expr", tag)))

    def is_tensorish(self, o):
        return o is not None and o.kind in ("tensor", "expr", "tview", "mask")

    def content(self, a, st):
        """Content of a tensor-like value, or None."""
        o = self.obj(a, st)
        if o is None:
            return None
        if o.kind in ("tensor", "expr"):
            return o.f["c"].labels(a.deps)
        if o.kind == "tview":
            b = st.heap.get(o.f["base"])
            if b is None:
                return Content()
            return self.transpose(b.f["c"]).labels(a.deps)
        if o.kind == "mask":
            return self.mask_content(a, o, st)
        return None

    def tkof(self, a, st):
        o = self.obj(a, st)
        if o is None:
            return None
        if o.kind == "tview":
            return "M"
        if o.kind == "mask":
            return self.tkof(Ref(o.f["parent"]), st)
        return o.get("tk")

    def transpose(self, c):
        if c.sym:
            return c
        return c.but(asym=flip_asym(c.asym), rs=c.cs, cs=c.rs, orient=flip(c.orient), tok=tflip(c.tok), reg={None: None}.get(c.reg, frozenset({"L": "U", "U": "L"}.get(x, x) for x in c.reg) if c.reg is not None else None), blocks=tuple(self.flip_block(b) for b in c.blocks))

    def flip_block(self, b):
        if len(b) == 3:
            return (b[1], b[0], ("T", b[2]))
        return b

    def space_of_dim(self, v):
        if v is None or len(v) != 1:
            return None
        a = v[0]
        if isinstance(a, Sym):
            if a.space is not None:
                return a.space
            if a.lin is not None:
                return ("lin", a.lin)
        if isinstance(a, Const) and isinstance(a.val, int):
            return ("lin", lin_of(a))
        return None

    def dim_of_space(self, sp, deps):
        if sp is not None and sp[0] == "lin":
            l = sp[1]
            if self.nodes == 0:
                l = tuple(x for x in l if not str(x[0]).startswith("n:"))
            if not l:
                return Const(Nothing(), deps) if l != sp[1] else Const(0)
            if len(l) == 1 and l[0][0] == "":
                return Const(l[0][1])
            return Sym("int", deps, lin=l)
        return super().dim_of_space(sp, deps)

    # ------------------------------------------------------------ masks
    def mask_content(self, a, o, st):
        p = st.heap.get(o.f["parent"])
        c = p.f["c"] if p is not None and p.kind in ("tensor", "expr") else Content()
        labels = c.p | (NO if o.f["struct"] else c.v) | a.deps
        asym = asy(c)
        if asym is not None and asym[0] not in PATTERN and o.f["struct"]:
            asym = None
        return Content(asym=asym, p=labels, v=NO, rs=c.rs, cs=c.cs, sym=c.sym, tok=("mask", c.tok, o.f["struct"], o.f["comp"]), d=c.d, src=c.src, reg=None if o.f["comp"] else c.reg, full=bool(c.full and o.f["struct"] and not o.f["comp"]), orig=c.orig if not o.f["comp"] else None, orient=c.orient)

    def mask_infos(self, v, st):
        """[(atom, content|None)] for a mask argument; None mask gives (atom, None)."""
        out = []
        for a in v or ():
            if isinstance(a, Const) and a.val is None:
                out.append((a, None))
                continue
            o = self.obj(a, st)
            if o is not None and o.kind in ("mask", "tensor", "expr", "tview"):
                out.append((a, self.content(a, st)))
            else:
                out.append((a, Content(p=maybe(self.deep_deps((a,), st)))))
        return out

    def joined(self, before, a, b, after):
        """Two branches met: a matrix that lost its symmetry in one of them has lost it (if it was symmetric before)."""
        for oid, o in before.heap.items():
            if o.kind != "tensor" or not o.f["c"].sym:
                continue
            x, y = a.heap.get(oid), b.heap.get(oid)
            if x is y or x is None or y is None or (x is not o and y is not o):
                continue
            why = asy((y if x is o else x).f["c"])
            if why is not None and oid in after.heap:
                n = after.heap[oid]
                after.heap[oid] = n.set(c=n.f["c"].but(asym=why, sym=None))

    def apply_mask(self, c, mask, st, node):
        if not mask:
            return c
        outs = []
        for a, m in self.mask_infos(mask, st):
            if m is None:
                outs.append(c)
                continue
            self.check_space(c.rs, m.rs, node, "mask")
            if c.cs is not None:
                self.check_space(c.cs, m.cs, node, "mask")
            reg = c.reg
            if m.reg is not None:
                reg = m.reg if reg is None else reg & m.reg
            outs.append(
                c.but(
                    p=c.p | m.p,
                    rs=c.rs or m.rs,
                    cs=c.cs or m.cs,
                    sym=bool(c.sym and m.sym) or None,
                    asym=one_asym(c, m),
                    full=bool(c.full and m.full),
                    cover=(m.tok,) if c.full else None,
                    reg=reg,
                    tok=None,
                    d=c.d | m.d,
                    orient=self.mask_orient(c, m),
                )
            )
        r = outs[0]
        for x in outs[1:]:
            r = r.join(x)
        return r

    def mask_orient(self, c, m):
        """Orientation of what a mask lets through."""
        if c.full and c.orient is None:
            return m.orient or ("S" if m.sym else None)
        if {c.orient, m.orient} == {"N", "T"}:
            t = m.tok
            if isinstance(t, tuple) and t and t[0] == "mask" and c.tok is not None and t[1] == tflip(c.tok):
                return "S" if not t[3] else "X"
            return "X"
        return c.orient

    def check_space(self, a, b, node, what):
        if a is None or b is None or a == b:
            return
        if self.space_known(a) and self.space_known(b) and self.spaces_clash(a, b):
            self.event("space", node, what=f"{what}: positions in {self.show_space(a)} combined with positions in {self.show_space(b)}")

    def lin_of_space(self, s):
        if s[0] == "lin":
            return s[1]
        if s[0] == "n":
            return ((f"n:{s[1]}", 1),)
        return None

    def spaces_clash(self, a, b):
        """Two different known spaces: certain to be about different things?"""
        if "lin" in (a[0], b[0]):
            # a block of rows is only known by its extent
            x, y = self.lin_of_space(a), self.lin_of_space(b)
            if x is None or y is None:
                return False
            return x != y and all(k == "" or k.startswith("n:") for k, _ in x + y)
        return True

    def space_known(self, s):
        if isinstance(s, tuple) and s and s[0] == "seq" and isinstance(s[1], tuple) and s[1][:1] in (("coo",), ("alt",)):
            return False  # positions of stored entries: equal to themselves, otherwise unknown
        return isinstance(s, tuple) and s and s[0] in ("n", "lin", "seq", "run")

    def show_space(self, s):
        if s[0] == "n":
            return f"the node numbering of {s[1]}"
        if s[0] == "seq":
            return f"the sequence {s[1]}"[:80]
        return str(s)[:80]

    # ------------------------------------------------------------ element-wise and products
    def operand(self, a, st):
        """(content, tk) of an operand; scalars give tk 'P' (plain)."""
        o = self.obj(a, st)
        if o is not None and o.kind in ("tensor", "expr", "tview", "mask"):
            tk = self.tkof(a, st)
            return self.content(a, st), tk
        return Content(p=NO, v=self.shallow_deps(a, st)), "P"

    def ewise(self, op, a, b, st, node, union, default=False):
        """Content of an element-wise combination."""
        l, lk = self.operand(a, st)
        r, rk = self.operand(b, st)
        sc_l, sc_r = lk in ("P", "S"), rk in ("P", "S")
        v = self.bin_v(op, l, r, union and not default and not sc_l and not sc_r)
        if sc_l and sc_r:
            return Content(v=l.v | r.v | l.p | r.p), "S" if "S" in (lk, rk) else "P"
        if sc_r or sc_l:
            c = r if sc_l else l
            s = l if sc_l else r
            return c.but(v=v | (s.v if op not in IGNORE_BOTH and not (op == "first" and sc_r) and not (op == "second" and sc_l) else NO), tok=self.tok_scalar(op, c, s, sc_l), vs=None, orig=c.orig if (op == "first" and sc_r) else None, iso=c.iso if (op == "first" and sc_r) else False, full=c.full), rk if sc_l else lk
        # broadcasting a vector over a matrix uses rows
        if lk != rk and {lk, rk} == {"M", "V"}:
            m, w = (l, r) if lk == "M" else (r, l)
            self.check_space(m.rs if rk == "V" else m.cs, w.rs, node, "element-wise operation")
            s = self.step(m.orient, "N" if lk == "V" else "T", w) if w.src else NO  # chosen nodes on rows or on columns
            dl = dirl(s)
            sym, asym = self.scaled(m, w, "row" if lk == "V" else "col", op, v)
            return m.but(p=l.p | r.p | dl, v=v | dl if v else v, sym=sym, asym=asym, reg=None if union else m.reg, tok=None, d=s or l.d | r.d, src=l.src | r.src), "M"
        self.check_space(l.rs, r.rs, node, "element-wise operation")
        if lk == "M":
            self.check_space(l.cs, r.cs, node, "element-wise operation")
        sym = asym = None
        if lk == "M":
            sym, asym = self.pair_of(l, r, op, union, default)
        orient = self.mix_orient(l, r, sym, op)
        tok = None
        if op in ("minus", "iseq"):
            tok = ("diff", l.tok, r.tok)
        reg = None if l.reg is None or r.reg is None else (l.reg | r.reg if union else l.reg & r.reg)
        if not union and (l.reg is None) != (r.reg is None):
            reg = l.reg if r.reg is None else r.reg
        blocks = l.blocks + tuple(x for x in r.blocks if x not in l.blocks) if union else ()
        return (
            Content(
                p=l.p | r.p,
                v=v,
                rs=l.rs if l.rs is not None else r.rs,
                cs=l.cs if l.cs is not None else r.cs,
                orient=orient,
                d=l.d | r.d,
                src=l.src | r.src,
                sym=sym,
                asym=asym,
                full=bool((l.full or r.full) if union else (l.full and r.full)),
                reg=reg,
                tok=tok,
                blocks=blocks,
                orig=l.orig if l.orig == r.orig else None,
            ),
            lk,
        )

    def scaled(self, m, w, side, op, v):
        """(sym, asym) of a matrix combined with a vector along its rows or columns."""
        if op in IGNORE_BOTH or not varies(w) or not (v & w.v):
            return None, None
        if m.sym:
            return None, ("bc", side, w.tok, op)
        a = m.asym
        if a is not None and a[0] == "bc" and a[1] != side and a[3] == op and a[2] is not None and a[2] == w.tok:
            return True, None
        return None, None

    def pair_of(self, l, r, op, union, default):
        """(sym, asym) of an element-wise combination of two matrices."""
        if l.sym and r.sym:
            return True, None
        if l.tok is not None and r.tok == tflip(l.tok):
            disjoint = l.reg is not None and r.reg is not None and l.reg & r.reg <= {"D"}
            if disjoint and not default and op not in ("minus", "rminus", "isub"):
                return True, None
            if op in COMMUTATIVE and (op != "any" or not l.orient in ("N", "T") or not varies(l, (".vals",))):
                return True, None
            if op in ("any", "first", "second") and l.orient in ("N", "T") and varies(l, (".vals",)):
                return None, ("def", f"where both directions are present `{op}` takes each from its own side")
            return None, None
        a, b = asy(l), asy(r)
        if not (l.sym and b is not None or r.sym and a is not None):
            return None, None
        s, x, f = (l, r, b) if b is not None else (r, l, a)
        used = op not in IGNORE_BOTH and not (op == "first" and x is r) and not (op == "second" and x is l)
        if not union:
            return None, f if f[0] in PATTERN or used else None
        if f[0] in PATTERN:
            extra = {q for q in x.p if q.endswith(".struct") and not q.startswith("?")} - s.p
            return None, f if extra or op in ("plus", "minus") else None
        return None, f if op in ("plus", "minus") else None

    def mix_orient(self, l, r, sym, op):
        """Orientation of an element-wise combination ('X': rows are tails in one part and heads in the other)."""
        if l.orient == r.orient:
            return l.orient
        if sym:
            return "S"
        if None in (l.orient, r.orient):
            return l.orient or r.orient
        if "S" in (l.orient, r.orient):
            return l.orient if r.orient == "S" else r.orient
        if op == "minus" and l.tok is not None and r.tok == tflip(l.tok):
            return l.orient  # antisymmetric: the sign follows the left operand
        if op in ("first", "pair", "oneb") and op != "first":
            return "S" if l.tok is not None and r.tok == tflip(l.tok) else "X"
        return "X"

    def tok_scalar(self, op, c, s, left):
        if isinstance(c.tok, tuple) and c.tok and c.tok[0] in ("diff", "absdiff"):
            return c.tok
        return None

    def bin_v(self, op, l, r, mixed):
        if op in IGNORE_BOTH and not mixed:
            return NO
        if op == "first" and not mixed:
            return l.v
        if op == "second" and not mixed:
            return r.v
        v = l.v | r.v
        if mixed:
            v = v | l.p | r.p
        return v

    def matmul(self, op, a, b, st, node):
        l, lk = self.operand(a, st)
        r, rk = self.operand(b, st)
        add, mul = semi_split(op)
        v = self.bin_v(mul, l, r, False)
        vs = None
        if mul in ("secondi", "firstj"):
            vs = r.rs
        elif mul == "firsti":
            vs = l.rs
        elif mul == "secondj":
            vs = r.cs
        if vs is not None:
            v = v | axis_end(r.orient if mul in ("secondi", "secondj") or mul == "firstj" and rk == "M" else l.orient, mul in ("secondi",) or mul == "firsti" or mul == "firstj" and rk == "M")
        counting = add not in ("any", "lor", "land", "max", "min") or bool(v)
        if counting and not (add == "any" and not v):
            v = v | l.p | r.p
        lcs = l.cs if lk == "M" else l.rs
        if add == "any" and (v or vs is not None) and "n" in ((lcs or ("",))[0], (r.rs or ("",))[0]):
            v = v | self.arbitrary(node)
        self.check_space(lcs, r.rs, node, "matrix product")
        src = l.src | r.src
        orient = None
        sym = asym = None
        full = False
        d = NO
        if lk == "V" and rk == "M":
            d = self.step(r.orient, "N", l)
            rs, cs, tk = r.cs, None, "V"
        elif lk == "M" and rk == "V":
            d = self.step(l.orient, "T", r)
            rs, cs, tk = l.rs, None, "V"
        elif lk == "M" and rk == "M":
            rs, cs, tk = l.rs, r.cs, "M"
            if r.orient in ("N", "T") and l.orient is None:
                d = d | self.step(r.orient, "N", l)
            if l.orient in ("N", "T") and r.orient is None:
                d = d | self.step(l.orient, "T", r)
            if l.orient == r.orient and l.orient in ("N", "T"):
                orient = l.orient
            elif l.orient == "S" and r.orient == "S":
                orient = "S"
            if l.tok is not None and (r.tok == tflip(l.tok) or (l.sym and r.tok == l.tok)) and mul in COMMUTATIVE | IGNORE_BOTH:
                sym = True
            if add in ("plus", "any", "min", "max") and mul in ("times", "plus"):
                for dg, m, side in ((l, r, "row"), (r, l, "col")):
                    if dg.reg == {"D"} and m.reg != {"D"}:
                        sym, asym = self.scaled(m, dg, side, mul, v)
        else:
            rs, cs, tk = None, None, "S"
        dl = dirl(d)
        v = v | dl if v else v
        d = d or l.d | r.d
        return Content(p=l.p | r.p | dl, v=v, rs=rs, cs=cs, vs=vs, orient=orient, d=d, src=src, sym=sym, asym=asym, full=full, row=l.row if lk == "M" else None), tk

    def arbitrary(self, node):
        return frozenset({"unord:any keeps an arbitrary value@%s:%d" % (self.modfile.get(self.cur_mod(), "?"), getattr(node, "lineno", 0))})

    def step(self, orient, against, frontier):
        """Traversal label of one product with an oriented matrix."""
        if orient not in ("N", "T"):
            return NO
        dr = "out" if orient == against else "in"
        return frozenset((dr, s) for s in (frontier.src or {"*"}))

    def reduce_v(self, op, c):
        if op in ("count", "count_nonzero", "exists"):
            return c.p | (c.v if op == "count_nonzero" else NO)
        if op in ("any", "any_value"):
            return c.v
        return c.v | c.p

    # ------------------------------------------------------------ attributes
    def getattr_ext(self, a, o, name, st, node):
        if name in ("size", "shape", "nbytes"):
            self.counted(o)
        k = o.kind
        if k in ("tensor", "expr", "tview", "mask") and name in ("__class__",):
            return self.type_ext(a, o, st)
        if k in ("tensor", "expr"):
            c = o.f["c"]
            tk = o.f["tk"]
            if name in ("S", "V"):
                if k == "tensor" or o.get("tk") in ("M", "V"):
                    return V(self.new(st, node, HObj("mask", parent=a.oid, comp=False, struct=name == "S", deps=NO), tag=("mask", name, a.oid)).with_deps(a.deps))
            if name == "T" and tk == "M":
                if k == "tensor":
                    return V(self.new(st, node, HObj("tview", base=a.oid, deps=NO), tag=("T", a.oid)).with_deps(a.deps))
                return self.expr(st, node, "M", self.transpose(c), None, tag=("T", a.oid))
            if name == "nvals":
                if self.counts is not None and not isinstance(node, ast.Call):
                    self.counts.add((a.oid, c.tok))
                if self.edges == 0 and isinstance(c.tok, tuple) and c.tok and (c.tok[0] == "A" or c.tok[0] == "prop" and isinstance(c.tok[2], tuple) and c.tok[2][:1] == ("A",)):
                    return V(Const(Nothing(), c.p | a.deps))
                if c.full and tk == "V" and c.rs is not None:
                    return V(self.dim_of_space(c.rs, c.p | a.deps))
                return V(Sym("int", c.p | a.deps, name=("nvals", a.oid, c.tok)))
            if name in ("nrows", "size", "ncols") or (name == "shape"):
                dims = o.get("dims")

                def dim(i, sp):
                    if dims and len(dims) > i and dims[i] is not None:
                        return dims[i]
                    if sp is not None:
                        return V(self.dim_of_space(sp, self.space_deps(sp)))
                    return self.sym("int", maybe(c.p))

                if name in ("nrows", "size"):
                    return dim(0, c.rs)
                if name == "ncols":
                    return dim(1, c.cs)
                return V(self.new(st, node, HObj("tuple", elts=[dim(0, c.rs)] + ([dim(1, c.cs)] if tk == "M" else []), deps=NO), tag="shape"))
            if name == "dtype":
                return V(Ext("?dtype", self.dtype_deps(c)))
            if name == "name":
                return self.sym("str")
            if name == "ss":
                return V(self.new(st, node, HObj("ns", of=a.oid, deps=NO), tag=("ss", a.oid)).with_deps(a.deps))
            if name == "value" and tk in ("S", "P"):
                return self.scalar_value(c, a, optional=True)
            if name in ("is_empty", "is_cscalar", "is_grbscalar"):
                return self.sym("bool", c.p | a.deps)
            if name == "ndim":
                return const({"M": 2, "V": 1}.get(tk, 0))
        elif k == "tview":
            b = st.heap.get(o.f["base"])
            if name == "T":
                return V(Ref(o.f["base"], a.deps))
            if b is not None:
                if name in ("nrows", "ncols"):
                    return self.getattr_ext(Ref(o.f["base"], a.deps), b, "ncols" if name == "nrows" else "nrows", st, node)
                if name in ("nvals", "dtype", "ss", "name", "ndim"):
                    return self.getattr_ext(Ref(o.f["base"], a.deps), b, name, st, node)
            if name in ("S", "V"):
                self.raise_exc(Ext("builtins.AttributeError"), node, st, info={"attr": "TransposedMatrix." + name}, end=True)
        elif k == "mask":
            if name == "parent":
                return V(Ref(o.f["parent"], a.deps))
            if name in ("complement",):
                return const(o.f["comp"])
            if name == "structure":
                return const(o.f["struct"])
            if name in ("value",):
                return const(not o.f["struct"])
            p = st.heap.get(o.f["parent"])
            if p is not None and name in ("size", "nrows", "ncols", "dtype", "name"):
                return self.getattr_ext(Ref(o.f["parent"], a.deps), p, name, st, node)
        elif k == "ns":
            b = st.heap.get(o.f["of"])
            c = b.f["c"] if b is not None and b.kind in ("tensor", "expr") else Content()
            if name == "is_iso":
                return V(Sym("bool", c.v | a.deps, tag=("iso", o.f["of"], c.tok)))
            if name == "iso_value":
                return self.tensor(st, node, "S", Content(v=c.v | a.deps, full=True), tag=("iso", o.f["of"]))
            if name in ("format", "orientation", "sparsity_status", "nbytes"):
                return self.sym("str")
        return None

    def space_deps(self, sp):
        if sp is None:
            return NO
        if sp[0] == "n" and sp[1]:
            return frozenset({f"{sp[1]}.struct"})
        if sp[0] == "lin":
            return frozenset(f"{k[2:]}.struct" for k, _ in sp[1] if k.startswith("n:"))
        return NO

    def dtype_deps(self, c):
        return NO

    def scalar_value(self, c, a, optional):
        s = Sym("num", c.v | c.p | a.deps, space=c.vs, tag=c.tok if isinstance(c.tok, tuple) and c.tok and c.tok[0] in ("absdiff", "diff", "is_iso") else None)
        if c.vs is not None:
            s.kind = "idx"
        v = V(s)
        if optional and not c.full:
            v = join(v, V(Const(None, c.p | a.deps)))
        return v

    def setattr_ext(self, a, o, name, val, st, node):
        if o.kind in ("tensor",) and o.get("owner") and name != "name":
            self.event("mutate", node, owner=o.f["owner"], how="." + name + "=", kind="tensor")

    # ------------------------------------------------------------ type tests
    def isinst_ext(self, a, o, n, st):
        if o.kind in ("tensor", "expr", "tview", "mask"):
            tk = o.get("tk") or self.tkof(a, st)
            last = n.rsplit(".", 1)[-1]
            if n.startswith("graphblas"):
                if o.kind == "tensor":
                    return {"Matrix": tk == "M", "Vector": tk == "V", "Scalar": tk == "S"}.get(last, False)
                if o.kind == "tview":
                    return last == "TransposedMatrix"
                if o.kind == "mask":
                    if last == "Mask":
                        return True
                    return {"StructuralMask": o.f["struct"] and not o.f["comp"], "ValueMask": not o.f["struct"] and not o.f["comp"]}.get(last, False)
                if o.kind == "expr":
                    return last in ("BaseExpression", "VectorExpression", "MatrixExpression", "ScalarExpression") or None if last.endswith("Expression") else False
            return False if n != "builtins.object" else True
        if o.kind in ("upd", "ns", "nif", "partial"):
            return False
        return None

    def type_ext(self, a, o, st):
        if o is None:
            return None
        if o.kind in ("tensor", "expr"):
            if o.kind == "tensor":
                return V(Ext("graphblas." + {"M": "Matrix", "V": "Vector", "S": "Scalar"}[o.f["tk"]]))
            return V(Ext("graphblas.core.expr"))
        if o.kind == "mask":
            return V(Ext("graphblas.core.mask.Mask"))
        if o.kind == "tview":
            return V(Ext("graphblas.core.matrix.TransposedMatrix"))
        return None

    # ------------------------------------------------------------ operators
    UNION_OPS = {"Add": "plus", "Sub": "minus"}
    INTER_OPS = {"Mult": "times", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "BitXor": "lxor"}

    def binop_ext(self, op, a, b, st, node):
        oa, ob = self.obj(a, st), self.obj(b, st)
        ka = oa.kind if oa is not None else None
        kb = ob.kind if ob is not None else None
        if op == "LShift":
            if ka in ("tensor", "upd", "expr"):
                self.do_lshift(a, oa, b, st, node)
                return V(NONE)
            return None
        if ka == "mask" and kb == "mask" and op in ("BitAnd", "BitOr"):
            ca, cb = self.content(a, st), self.content(b, st)
            t = self.tensor(st, node, self.tkof(a, st), Content(p=ca.p | cb.p, rs=ca.rs, cs=ca.cs, sym=bool(ca.sym and cb.sym) or None, tok=("maskop", op, ca.tok, cb.tok)), tag="maskop")
            return V(self.new(st, node, HObj("mask", parent=t[0].oid, comp=False, struct=True, deps=NO), tag=("maskop", op)))
        if not (ka in ("tensor", "expr", "tview", "mask") or kb in ("tensor", "expr", "tview", "mask")):
            return None
        for x, o in ((a, oa), (b, ob)):
            if o is not None and o.kind not in ("tensor", "expr", "tview", "mask", "ndarray"):
                return None
        if op == "MatMult":
            c, tk = self.matmul("plus_times", a, b, st, node)
            return self.expr(st, node, tk, c, tag=("mm", a.key(), b.key()), form="matmul", l=V(a), r=V(b))
        if op in ("BitOr", "BitAnd"):
            c, tk = self.ewise("plus" if op == "BitOr" else "times", a, b, st, node, op == "BitOr")
            if op == "BitAnd" and {self.operand(a, st)[1], self.operand(b, st)[1]} == {"M", "V"}:
                pass
            return self.expr(st, node, tk, c, self.dims_of(a, b, st), tag=("ew", op, a.key(), b.key()), form="union" if op == "BitOr" else "inter", l=V(a), r=V(b))
        if op in self.UNION_OPS or op in self.INTER_OPS:
            union = op in self.UNION_OPS
            nm = self.UNION_OPS.get(op) or self.INTER_OPS[op]
            c, tk = self.ewise(nm, a, b, st, node, union)
            if tk == "P":
                return None
            return self.expr(st, node, tk, c, self.dims_of(a, b, st), tag=("ar", op, a.key(), b.key()))
        return None

    def dims_of(self, a, b, st):
        for x in (a, b):
            o = self.obj(x, st)
            if o is not None and o.kind in ("tensor", "expr") and o.get("dims"):
                return o.f["dims"]
        return None

    def unary_ext(self, op, a, st, node):
        o = self.obj(a, st)
        if isinstance(a, Sym) and op == "abs":
            t = a.tag
            if isinstance(t, tuple) and t[0] == "diff":
                t = ("absdiff",) + t[1:]
            return V(Sym("num", a.deps, tag=t))
        if o is None or o.kind not in ("tensor", "expr", "tview", "mask"):
            return None
        if o.kind == "mask":
            if op == "Invert":
                return V(self.new(st, node, HObj("mask", parent=o.f["parent"], comp=not o.f["comp"], struct=o.f["struct"], deps=NO), tag=("inv", a.oid)).with_deps(a.deps))
            return None
        c = self.content(a, st)
        tok = None
        if op == "abs" and isinstance(c.tok, tuple) and c.tok and c.tok[0] == "diff":
            tok = ("absdiff",) + c.tok[1:]
        return self.expr(st, node, self.tkof(a, st), c.but(tok=tok, vs=None, orig=None), o.get("dims"), tag=("un", op, a.key()))

    def inplace_ext(self, op, a, o, rhs, st, node):
        if o.kind not in ("tensor",):
            if o.kind in ("expr", "upd"):
                if op == "LShift":
                    self.do_lshift(a, o, rhs[0], st, node)
                    return V(a)
            return None
        r = None
        if op in self.UNION_OPS or op in self.INTER_OPS or op in ("BitOr", "BitAnd"):
            if o.f["tk"] == "S":
                # `s -= 1` changes the Scalar itself
                for b in rhs:
                    for x in self.binop(op, (a,), (b,), st, node):
                        self.do_lshift(a, st.heap[a.oid], x, st, node)
                return V(a)
            nm = self.UNION_OPS.get(op) or self.INTER_OPS.get(op) or op
            for b in rhs:
                cb, tb = self.operand(b, st)
                c, tk = self.ewise(nm, a, b, st, node, op in self.UNION_OPS or op == "BitOr")
                self.write(a, st.heap[a.oid], c, st, node, how=op + "=")
            return V(a)
        return None

    def compare_ext(self, op, a, b, st, node):
        oa, ob = self.obj(a, st), self.obj(b, st)
        ka = oa.kind if oa is not None else None
        kb = ob.kind if ob is not None else None
        if ka not in ("tensor", "expr", "tview") and kb not in ("tensor", "expr", "tview"):
            return None
        for x, o in ((a, oa), (b, ob)):
            if o is not None and o.kind not in ("tensor", "expr", "tview"):
                return self.sym("bool", maybe(self.shallow_deps(a, st) | self.shallow_deps(b, st)))
            if isinstance(x, Const) and x.val is None and op in ("Eq", "NotEq"):
                return const(op == "NotEq")
        c, tk = self.ewise({"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[op], a, b, st, node, False)
        if tk == "S":
            ca, cb = self.operand(a, st)[0], self.operand(b, st)[0]
            d = ca.p | ca.v | cb.p | cb.v
            pa = Sym("num", ca.v | ca.p, tag=ca.tok) if ka is not None else a
            pb = Sym("num", cb.v | cb.p, tag=cb.tok) if kb is not None else b
            tag = self.cmp_tag(op, pa, pb, node, st)
            return V(Sym("bool", d, tag=tag))
        return self.expr(st, node, tk, c, self.dims_of(a, b, st), tag=("cmp", op, a.key(), b.key()))

    def cmp_tag(self, op, a, b, node, st):
        tag = super().cmp_tag(op, a, b, node, st)
        if tag is not None:
            return tag
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op))):
            t = getattr(x, "tag", None)
            if isinstance(t, tuple) and t and t[0] in ("absdiff", "diff"):
                if o in ("Lt", "LtE"):
                    g = ("conv", t, y.deps)
                    self.event("conv", node, tok=t, tol=y.deps, op=o, iter=self.iterpath)
                    return g
                if o in ("Gt", "GtE"):
                    self.event("conv", node, tok=t, tol=y.deps, op=o, iter=self.iterpath)
                    return ("not", ("conv", t, y.deps))
            nm = getattr(x, "name", None)
            if isinstance(nm, tuple) and nm and nm[0] == "nvals":
                ynm = getattr(y, "name", None)
                if isinstance(ynm, tuple) and ynm and ynm[0] == "nvals":
                    ref = ynm
                elif isinstance(y, Sym) and y.lin is not None:
                    ref = ("dim", y.lin)
                elif isinstance(y, Const):
                    ref = ("const", y.val)
                else:
                    continue
                if o in ("Lt", "NotEq"):
                    return ("not", ("covered", nm, ref))
                if o in ("GtE", "Eq"):
                    return ("covered", nm, ref)
        return None

    def len_ext(self, a, o, st, node):
        if o.kind in ("tensor", "expr") and o.f["tk"] == "V":
            return self.getattr_ext(a, o, "size", st, node)
        return None

    def contains_ext(self, cont, o, x, st, node):
        if o.kind in ("tensor", "expr"):
            c = self.content(cont, st)
            self.check_index(V(x), c.rs, st, node)
            return V(Sym("bool", c.p | x.deps | cont.deps, tag=self.has_tag(c, x)))
        return None

    def has_tag(self, c, x):
        """The name of the test whether a vector has an entry for a node."""
        return ("has", c.tok, x.key()) if c.tok is not None and isinstance(x, Sym) and x.kind == "idx" else None

    def known_entry(self, c, k, st):
        return len(k) == 1 and self.has_tag(c, k[0]) is not None and ("true", self.has_tag(c, k[0])) in st.facts

    # ------------------------------------------------------------ indexing
    def check_index(self, k, sp, st, node, what="position"):
        for x in k:
            if isinstance(x, Sym):
                if x.kind == "key":
                    self.event("space", node, what="a node label is used as a row/column number")
                elif x.kind == "idx" and x.space is not None and sp is not None and x.space != sp:
                    if self.space_known(sp) and self.space_known(x.space) and sp[0] != "lin" and x.space[0] != "lin":
                        self.event("space", node, what=f"{what}: number from {self.show_space(x.space)} used in {self.show_space(sp)}")
                    elif sp[0] == "lin" and x.space[0] == "n" and isinstance(x.space[1], str):
                        # several numberings one after the other (all nodes of G, then more): a number of another
                        # graph's own numbering has no place there
                        of = {t for t, c in sp[1] or () if isinstance(t, str)}
                        if "n:" + x.space[1] not in of and any(t.startswith("n:") for t in of):
                            self.event("space", node, what=f"{what}: number from {self.show_space(x.space)} used where the nodes of {sorted(of)} follow each other")

    def index_info(self, k, sp, st, node):
        """One index: ('all',), ('one', atom), ('many', Iter), ('slice', lo, hi) plus labels."""
        outs = []
        for x in k:
            if isinstance(x, Const) and x.val is Ellipsis:
                outs.append(("all", NO, sp, NO))
                continue
            o = self.obj(x, st)
            if o is not None and o.kind == "slice":
                lo, hi, stp = o.f["lo"], o.f["hi"], o.f["step"]
                isn = lambda v: len(v) == 1 and isinstance(v[0], Const) and v[0].val is None
                if isn(lo) and isn(hi) and isn(stp):
                    outs.append(("all", NO, sp, NO))
                else:
                    llo = () if isn(lo) else lin_of(lo[0]) if len(lo) == 1 else None
                    lhi = None
                    if isn(hi):
                        lhi = self.lin_of_space(sp)
                    elif len(hi) == 1:
                        lhi = lin_of(hi[0])
                    from .pymodel import lin_add

                    n = lin_add(lhi, llo, -1) if lhi is not None and llo is not None else None
                    outs.append(("slice", o.f["deps"], ("lin", n) if n is not None else None, NO, llo, n))
                continue
            if o is not None and o.kind in ("list", "tuple", "ndarray", "iter", "set"):
                i = self.iterate1(x, st, node)
                e = i.elem
                self.check_index(e, sp, st, node)
                d = i.deps | deps_of(e) | x.deps
                un = NO
                if i.unord:
                    d = d | frozenset({"unord:rows taken in unspecified order@%s:%d" % (self.modfile.get(self.cur_mod(), "?"), getattr(node, "lineno", 0))})
                nsp = ("seq", i.seq) if i.seq is not None else None
                if i.seq is not None and i.seq[0] == "nodes":
                    nsp = ("n", i.seq[1])
                outs.append(("many", d, nsp, deps_of(e) | i.deps, i))
                continue
            if o is not None and o.kind in ("tensor", "expr"):
                outs.append(("many", obj_deps(o), None, obj_deps(o), None))
                continue
            if isinstance(x, (Const, Sym)):
                self.check_index(V(x), sp, st, node)
                outs.append(("one", x.deps, None, x.deps, x))
                continue
            outs.append(("?", maybe(self.deep_deps(V(x), st)), None, NO))
        if len(outs) == 1:
            return outs[0]
        kinds = {o[0] for o in outs}
        d = frozenset().union(*[o[1] for o in outs])
        src = frozenset().union(*[o[3] for o in outs])
        if len(kinds) == 1:
            o = outs[0]
            sps = {x[2] for x in outs}
            sp = None
            if len(sps) == 1:
                (sp,) = sps
            elif o[0] == "many" and all(s is not None and s[0] == "seq" for s in sps):
                sp = ("seq", ("alt", tuple(sorted(repr(s[1]) for s in sps))))
            return (o[0], d, sp, src) + tuple(o[4:])
        return ("?", d, None, src)

    def lin_of_space(self, sp):
        if sp is None:
            return None
        if sp[0] == "n":
            return (("n:" + str(sp[1]), 1),)
        if sp[0] == "lin":
            return sp[1]
        return None

    def split_index(self, k, st):
        """Tuple indices of a matrix."""
        for a in k:
            o = self.obj(a, st)
            if o is not None and o.kind == "tuple" and o.get("elts") is not None:
                return o.f["elts"]
        return None

    def getitem_ext(self, a, o, k, st, node):
        if o.kind in ("tensor", "expr", "tview"):
            c = self.content(a, st)
            tk = self.tkof(a, st)
            if tk == "M":
                parts = self.split_index(k, st)
                if parts is None or len(parts) != 2:
                    return None
                i = self.index_info(parts[0], c.rs, st, node)
                j = self.index_info(parts[1], c.cs, st, node)
                return self.extract_m(a, o, c, i, j, k, st, node)
            if tk == "V":
                i = self.index_info(k, c.rs, st, node)
                src = c.src | self.srcs(i)
                nc = c.but(p=c.p | i[1], v=c.v | i[1], src=src, tok=None, orig=None)
                if i[0] == "one":
                    nc = nc.but(rs=None, cs=None, full=c.full or self.known_entry(c, k, st))
                    return self.expr(st, node, "S", nc, tag=("ext", a.key()), base=a.oid, index=k)
                return self.expr(st, node, "V", nc.but(rs=i[2] if i[0] != "all" else c.rs), tag=("ext", a.key()), base=a.oid, index=k)
            return self.sym("any", c.p | c.v)
        if o.kind == "upd":
            n = o.set(index=k)
            return V(self.new(st, node, n, tag="updidx"))
        if o.kind == "mask":
            return None
        return None

    def srcs(self, i):
        return frozenset(x for x in strip(i[3]) if isinstance(x, str) and x.startswith("param:"))

    def extract_m(self, a, o, c, i, j, k, st, node):
        d = c.d
        src = c.src | self.srcs(i) | self.srcs(j)
        deps = i[1] | j[1]
        base = dict(base=a.oid, index=k) if o.kind == "tensor" else {}
        if i[0] == "one" and j[0] == "one":
            nc = Content(p=c.p | deps, v=c.v | deps, src=src, d=d, full=c.full, vs=c.vs)
            return self.expr(st, node, "S", nc, tag=("ext", a.key()), **base)
        if i[0] == "one":
            fr = Content(src=self.srcs(i))
            s = self.step(c.orient, "N", fr)
            deps = deps | dirl(s)
            nc = Content(p=c.p | deps, v=c.v | deps, rs=c.cs if j[0] == "all" else j[2], src=src, d=s or d, full=c.full, vs=c.vs, row=c.row)
            nc = nc.but(row=("row", getattr(i[4], "name", None)))
            return self.expr(st, node, "V", nc, tag=("ext", a.key()), **base)
        if j[0] == "one":
            fr = Content(src=self.srcs(j))
            s = self.step(c.orient, "T", fr)
            deps = deps | dirl(s)
            nc = Content(p=c.p | deps, v=c.v | deps, rs=c.rs if i[0] == "all" else i[2], src=src, d=s or d, full=c.full, vs=c.vs)
            return self.expr(st, node, "V", nc, tag=("ext", a.key()), **base)
        rs = c.rs if i[0] == "all" else i[2]
        cs = c.cs if j[0] == "all" else j[2]
        sym = asym = None
        if c.sym or asy(c):
            if i[0] == "all" and j[0] == "all":
                sym = True
            elif i[0] == "many" and j[0] == "many" and i[2] is not None and i[2] == j[2]:
                sym = True
            elif i[0] == "many" and j[0] == "many" and i[2] is None and j[2] is None and len(i) > 4 and i[4] is not None:
                parts = self.split_index(k, st)
                if parts[0] == parts[1] and len(parts[0]) == 1:
                    sym = True
            if not c.sym and sym:
                sym, asym = None, asy(c)
        d2 = d
        if i[0] == "many" and j[0] == "all":
            d2 = self.step(c.orient, "N", Content(src=self.srcs(i)))
        elif i[0] == "all" and j[0] == "many":
            d2 = self.step(c.orient, "T", Content(src=self.srcs(j)))
        else:
            d2 = NO
        deps = deps | dirl(d2)
        d2 = d2 or d
        nc = Content(p=c.p | deps, v=c.v | deps, rs=rs, cs=cs, orient=c.orient, src=src, d=d2, sym=sym, asym=asym, full=c.full, vs=c.vs, orig=c.orig, iso=c.iso, blocks=c.blocks if (i[0], j[0]) == ("all", "all") else ())
        if i[0] == "many" and j[0] == "many" and c.tok is not None and i[2] is not None and i[2] == j[2]:
            nc = nc.but(tok=("perm", c.tok, i[2]) if not (isinstance(c.tok, tuple) and c.tok[0] == "T") else ("T", ("perm", c.tok[1], i[2])))
        return self.expr(st, node, "M", nc, tag=("ext", a.key()), **base)

    def setitem_ext(self, a, o, k, val, st, node, aug):
        if o.kind in ("tensor", "upd"):
            target = a if o.kind == "tensor" else Ref(o.f["of"])
            if len(val) == 1:
                self.assign_into(target, k, val, st, node, o if o.kind == "upd" else None)
            else:
                self.each(val, st, lambda v, s: self.assign_into(target, k, V(v), s, node, o if o.kind == "upd" else None) or V(NONE), node)

    def delitem_ext(self, a, o, k, st, node):
        if o.kind == "tensor":
            self.own_mutate(a, o, st, node, "del")
            c = o.f["c"]
            if o.f["tk"] == "V" or not any((t := self.obj(x, st)) is not None and t.kind == "tuple" for x in k):
                self.check_index(k, c.rs, st, node)
            else:
                for x in k:
                    t = self.obj(x, st)
                    for y, sp in zip((t.get("elts") or ()) if t is not None and t.kind == "tuple" else (), (c.rs, c.cs)):
                        self.check_index(y, sp, st, node)
            st.heap[a.oid] = o.set(c=c.but(p=c.p | deps_of(k) | st.pc, full=False, tok=self.wtok(a, node)))

    def wtok(self, a, node):
        return ("w", a.oid, getattr(node, "lineno", 0), self.iterpath)

    def own_mutate(self, a, o, st, node, how):
        if o.get("owner"):
            self.event("mutate", node, owner=o.f["owner"], how=how, kind="tensor")
        if a.oid in self.base_heap and not self.module_mode:
            self.event("static_write", node, how=how, deps=st.pc | obj_deps(o) | frozenset({"?content"}), name=None)

    def assign_into(self, a, k, val, st, node, upd=None):
        """x[k] << val"""
        o = st.heap.get(a.oid)
        if o is None or o.kind != "tensor":
            return
        self.own_mutate(a, o, st, node, "[]=")
        c = o.f["c"]
        tk = o.f["tk"]
        rc = None
        for b in val:
            x, xk = self.operand(b, st)
            rc = (x, xk) if rc is None else (rc[0].join(x), rc[1])
        x, xk = rc if rc else (Content(), "P")
        parts = self.split_index(k, st) if tk == "M" else [k]
        infos = []
        for q, pk in enumerate(parts or []):
            infos.append(self.index_info(pk, c.rs if q == 0 else c.cs, st, node))
        deps = frozenset().union(*[i[1] for i in infos]) | st.pc if infos else st.pc
        mask = upd.get("mask") if upd is not None else None
        md = NO
        for _, m in self.mask_infos(mask, st):
            if m is not None:
                md |= m.p
        allidx = infos and all(i[0] == "all" for i in infos)
        accum = upd.get("accum") if upd is not None else None
        if allidx and xk in ("P", "S") and not mask:
            full = True
            nv = x.v | deps | (c.v if accum else NO)
            nc = c.but(p=deps, v=nv, full=True, tok=self.wtok(a, node), iso=False, reg=None, sym=True if tk == "M" else c.sym, asym=None)
        else:
            vs = c.vs
            nc = c.but(p=c.p | x.p | deps | md, v=c.v | x.v | deps | (x.p if accum else NO), d=c.d | x.d, src=c.src | x.src | frozenset().union(*[self.srcs(i) for i in infos]) if infos else c.src | x.src, tok=self.wtok(a, node), full=c.full and xk in ("P",) or False, sym=None, asym=None, reg=None, vs=x.vs if x.vs is not None else c.vs if not c.v else c.vs)
            # spaces of block assignment
            if tk == "M" and xk == "M":
                nc = nc.but(orient=self.join_orient(c, x, accum_name(accum) if accum else None))
            if tk == "M" and len(infos) == 2:
                blk = self.block_of(infos, x, xk, a, c, st, node)
                if blk is not None and not mask:
                    sym, asym = self.block_sym(c, blk, x, xk, val, accum)
                    nc = nc.but(sym=sym, asym=asym)
                if blk is not None:
                    old = c.blocks if c.blocks != (("?",),) else c.blocks
                    nc = nc.but(blocks=tuple(old) + (blk,))
                rspaces = []
                for q, i in enumerate(infos):
                    xs = x.rs if q == 0 else x.cs
                    if xk == "M":
                        self.check_space(i[2], xs, node, "assignment")
                if xk == "V":
                    nonone = [i for i in infos if i[0] != "one"]
                    if len(nonone) == 1:
                        sp = nonone[0][2]
                        self.check_space(sp, x.rs, node, "assignment")
                ones = [i for i in infos if i[0] == "one"]
                if ones and xk == "V":
                    row = x.row
                    self.event("row_assign", node, oid=a.oid, idx=ones[0][4], row=row, src=x.src, rs=c.rs)
            elif tk == "V" and infos:
                if xk == "V":
                    self.check_space(infos[0][2], x.rs, node, "assignment")
        st.heap[a.oid] = o.set(c=nc)

    def block_of(self, infos, x, xk, a, c, st, node):
        def side(i, sp):
            if i[0] == "all":
                return ("at", (), self.lin_of_space(sp))
            if i[0] == "slice":
                return ("at", i[4], i[5])
            if i[0] == "many" and i[4] is not None:
                e = i[4].elem
                if len(e) == 1 and isinstance(e[0], Sym) and e[0].space is not None and e[0].space[0] == "run":
                    return ("at", e[0].space[1], e[0].space[2])
                return ("seq", i[2], tuple(sorted(map(str, (b.space for b in e if isinstance(b, Sym))))))
            return ("?",)

        r, cc = side(infos[0], c.rs), side(infos[1], c.cs)
        return (r, cc, (x.tok if x.tok is not None else ("?", id(x)), x.rs, x.cs, x.sym, x.orient, tuple(sorted(x.p))))

    def block_sym(self, c, blk, x, xk, val, accum):
        """(sym, asym) of a matrix after a block was assigned."""
        r, q = blk[0], blk[1]
        known = lambda s: s[0] == "at" and s[1] is not None and s[2] is not None or s[0] == "seq" and s[1] is not None
        if not known(r) or not known(q):
            return None, None
        base = c.sym or c.reg == frozenset()
        if r == q:
            if xk in ("P", "S"):
                return (True, None) if base else (None, None)
            if xk != "M" or not base:
                return None, None
            return (True, None) if x.sym else (None, asy(x))
        content = x.tok if xk == "M" else ("const", tuple(a.val for a in val)) if all(isinstance(a, Const) for a in val) else None
        if c.asym is not None and c.asym[0] == "blk" and c.asym[1] == (q, r):
            was = c.asym[2]
            if content is None or was is None:
                return None, None
            if was == content and content[0] == "const" or xk == "M" and was == tflip(content):
                return True, None
            if was[0] == "const" and content[0] == "const":
                return None, ("def", "the two off-diagonal blocks are filled with different values")
            return None, None
        if base and r[0] == q[0] == "at" and (xk != "M" or x.p):
            return None, ("blk", (r, q), content)
        return None, None

    # ------------------------------------------------------------ writes
    def do_lshift(self, a, oa, b, st, node):
        """a << b"""
        if oa.kind == "expr":
            if oa.get("base") is not None and oa.get("index") is not None:
                self.assign_into(Ref(oa.f["base"]), oa.f["index"], V(b), st, node)
            return
        x, xk = self.operand(b, st)
        if oa.kind == "tensor":
            self.write(a, oa, self.fill(oa, x, xk), st, node)
            return
        # updater
        t = Ref(oa.f["of"])
        to = st.heap.get(t.oid)
        if to is None or to.kind != "tensor":
            return
        if oa.get("index") is not None:
            self.assign_into(t, oa.f["index"], V(b), st, node, oa)
            return
        self.write(t, to, self.fill(to, x, xk), st, node, mask=oa.get("mask"), accum=oa.get("accum"), replace=oa.get("replace"), rk=xk)

    def fill(self, to, x, xk):
        """Broadcast a scalar to the shape of the target."""
        if xk in ("P", "S") and to.f["tk"] != "S":
            c = to.f["c"]
            return Content(p=x.p, v=x.v, rs=c.rs, cs=c.cs, full=True, sym=True if to.f["tk"] == "M" else None)
        return x

    def write(self, a, o, x, st, node, mask=None, accum=None, replace=None, how="<<", rk=None):
        self.own_mutate(a, o, st, node, how)
        c = o.f["c"]
        tk = o.f["tk"]
        self.check_space(c.rs, x.rs, node, "assignment")
        if tk == "M":
            self.check_space(c.cs, x.cs, node, "assignment")
        tok = self.wtok(a, node)
        rep = bool(replace) and any(isinstance(r, Ext) or isinstance(r, Const) and r.val is True for r in replace)
        outs = []
        minfos = self.mask_infos(mask, st) if mask else [(None, None)]
        for ma, m in minfos:
            pc = st.pc | (ma.deps if ma is not None else NO)
            if m is None and not accum:
                n = x.but(p=x.p | pc, v=x.v | pc, rs=x.rs or c.rs, cs=x.cs or c.cs)
                n = n.but(full=x.full)
            elif m is None:
                an = accum_name(accum)
                v = self.bin_v(an, c, x, True)
                n = c.but(
                    p=c.p | x.p | pc, v=v | pc, d=c.d | x.d, src=c.src | x.src, full=bool(c.full or x.full), asym=self.accum_asym(c, x, an), sym=True if ((c.sym or not c.p) and x.sym or self.pair_sym(c, x, an)) else None, orient=self.join_orient(c, x, an), vs=c.vs if x.vs is None else x.vs, blocks=c.blocks + tuple(b for b in x.blocks if b not in c.blocks), iso=False, orig=None, cover=None, reg=None if c.reg is None or x.reg is None else c.reg | x.reg,
                    rs=c.rs or x.rs, cs=c.cs or x.cs,
                )
            else:
                self.check_space(c.rs, m.rs, node, "mask")
                keep = not rep or bool(accum)
                p = x.p | m.p | pc | (c.p if keep else NO)
                v = x.v | pc | ((c.v | m.p) if keep else NO)
                if rep and not accum:
                    p, v = x.p | m.p | pc, x.v | pc
                    if m.orig is None and False:
                        v = v | m.p
                covered = False
                base_cover = c.cover if keep and c.cover is not None else ()
                cover = None
                full = bool(keep and c.full)
                if x.full and m.tok is not None:
                    ms = tuple(base_cover) + (m.tok,)
                    cover = ms
                    if not full and keep:
                        # mask and complement together cover everything
                        for t in ms:
                            if isinstance(t, tuple) and t[0] == "mask":
                                t2 = ("mask", t[1], t[2], not t[3])
                                if t2 in ms:
                                    full = True
                                # filling the complement of its own structure
                                if t[3] and t[2] and t[1] == c.tok:
                                    full = True
                    if not full and m.full:
                        full = True
                elif keep:
                    cover = base_cover or None
                x = x.but(orient=self.mask_orient(x, m))
                n = Content(
                    p=p, v=v, rs=c.rs or x.rs, cs=c.cs or x.cs, d=(c.d if keep else NO) | x.d | m.d, src=(c.src if keep else NO) | x.src, full=full, cover=cover, vs=x.vs if x.vs is not None else (c.vs if keep else None),
                    sym=True if ((c.sym or not c.p or not keep) and x.sym and m.sym) else None, orient=self.join_orient(c, x) if keep else x.orient, iso=False,
                    blocks=c.blocks if keep else (), reg=self.mask_reg(c if keep else None, x, m),
                    asym=one_asym(*([c] if keep and c.reg != frozenset() else []), x, m) if tk == "M" else None,
                )
            outs.append(n)
        r = outs[0]
        for q in outs[1:]:
            r = r.join(q)
        r = r.but(tok=tok)
        if not mask and not accum and x.tok is not None and not (isinstance(x.tok, tuple) and x.tok[0] in ("w",)):
            r = r.but(tok=tok)
        st.heap[a.oid] = o.set(c=r)

    def mask_reg(self, c, x, m):
        n = x.reg if m.reg is None else m.reg if x.reg is None else x.reg & m.reg
        if c is not None:
            n = None if n is None or c.reg is None else n | c.reg
        return n

    def accum_asym(self, c, x, op):
        if c.reg == frozenset():
            return None if x.sym else asy(x)
        if self.pair_sym(c, x, op):
            if op == "any" and c.orient in ("N", "T") and varies(c, (".vals",)):
                return ("def", "where both directions are present `any` takes each from its own side")
            return None
        return self.pair_of(c, x, op, True, False)[1]

    def pair_sym(self, c, x, op):
        """D(op) << D.T makes D symmetric."""
        return op in COMMUTATIVE and c.tok is not None and x.tok == tflip(c.tok) and not (op == "any" and c.orient in ("N", "T") and varies(c, (".vals",)))

    def join_orient(self, c, x, op=None):
        if c.orient == x.orient:
            return c.orient
        if c.orient is None and (not c.p and not c.full or c.full):
            return x.orient  # nothing there yet, or the same everywhere
        if not x.p:
            return c.orient
        if None in (c.orient, x.orient):
            return None
        if "S" in (c.orient, x.orient):
            return x.orient if c.orient == "S" else c.orient
        if op is not None and self.pair_sym(c, x, op):
            return "S"
        return "X"

    # ------------------------------------------------------------ calls
    def ext_getitem(self, a, k, st, node):
        if a.name.startswith("graphblas"):
            return V(Ext(a.name, a.deps | frozenset(x for x in deps_of(k) if x.lstrip("?").startswith("param:"))))
        return V(a)

    def call_obj_ext(self, f, o, args, kwargs, st, node):
        if o.kind in ("tensor", "upd"):
            upd = {"mask": None, "accum": None, "replace": None}
            if o.kind == "upd":
                upd = {k: o.get(k) for k in upd}
            for v in args:
                for a in v:
                    if isinstance(a, Ext):
                        if a.name.endswith(".replace"):
                            upd["replace"] = V(a)
                        else:
                            upd["accum"] = V(a)
                    elif isinstance(a, Const) and a.val is None:
                        upd["mask"] = join(upd["mask"], V(a))
                    elif isinstance(a, Ref):
                        upd["mask"] = join(upd["mask"], V(a))
                    else:
                        upd["accum"] = V(a)
            if "mask" in kwargs:
                upd["mask"] = kwargs["mask"]
            if "accum" in kwargs:
                upd["accum"] = kwargs["accum"] if not (len(kwargs["accum"]) == 1 and isinstance(kwargs["accum"][0], Const)) else None
            if "replace" in kwargs:
                upd["replace"] = kwargs["replace"]
            return V(self.new(st, node, HObj("upd", of=f.oid if o.kind == "tensor" else o.f["of"], index=o.get("index"), deps=NO, **upd), tag="upd"))
        if o.kind == "nif":
            return self.call_nif(f, o, args, kwargs, st, node)
        return None

    def call_nif(self, f, o, args, kwargs, st, node):
        """Object made by networkx not_implemented_for: decorator."""
        if o.get("inner") is None:
            out = ()
            for a in args[0]:
                out = join(out, V(self.new(st, node, HObj("nif", types=o.f["types"], inner=V(a), subst=o.get("subst"), deps=NO), tag=("nifdec", o.f["types"]))))
            return out
        # calling the decorated function
        g = args[0] if args else next(iter(kwargs.values()), V(Sym("any")))
        self.check_nif(o, g, st, node)
        return self.call(o.f["inner"], args, kwargs, st, node)

    def check_nif(self, o, g, st, node):
        from .interp import PathEnd

        kinds = set()
        for a in g:
            kinds.add(self.graph_kind(a, st))
        if len(kinds) == 1:
            k = kinds.pop()
            if k is not None:
                directed, multi = k
                m = True
                for t in o.f["types"]:
                    m = m and {"directed": directed, "undirected": not directed, "multigraph": multi, "graph": not multi}.get(t, False)
                if m:
                    self.raise_exc(Ext("networkx.NetworkXNotImplemented"), node, st, end=True)

    def graph_kind(self, a, st):
        """(directed, multigraph) of a value, or None."""
        o = self.obj(a, st)
        if o is None:
            return None
        if o.kind == "nxgraph":
            return (o.f["directed"], o.f["multi"])
        if o.kind == "inst":
            c = o.f["cls"]
            r = []
            for nm in ("is_directed", "is_multigraph"):
                m = c.lookup(nm)
                if m is None:
                    return None
                from .interp import PathEnd

                try:
                    v = self.call_method(a, m, [], {}, st.copy(), None)
                except PathEnd:
                    return None
                if len(v) != 1 or not isinstance(v[0], Const):
                    return None
                r.append(bool(v[0].val))
            return tuple(r)
        if o.kind == "tensor" and o.f["tk"] == "M":
            return "matrix"
        return None

    def call_gb(self, n, f, args, kwargs, st, node):
        if not n.startswith("graphblas"):
            return None
        mod, op = short(n)
        last = n.rsplit(".", 1)[-1]
        if n in ("graphblas.Matrix", "graphblas.Vector", "graphblas.Scalar") or n.startswith("graphblas.core.") and last in ("Matrix", "Vector", "Scalar"):
            return self.construct(last, args, kwargs, st, node)
        if ".Matrix." in "." + n or ".Vector." in "." + n or ".Scalar." in "." + n:
            cls = [p for p in n.split(".") if p in ("Matrix", "Vector", "Scalar")][0]
            return self.construct_from(cls, last, args, kwargs, st, node)
        if last in ("output_type",):
            out = ()
            for a in args[0]:
                tk = self.tkof(a, st) if self.obj(a, st) is not None else None
                nm = {"M": "Matrix", "V": "Vector", "S": "Scalar"}.get(tk)
                out = join(out, V(Ext("graphblas." + nm)) if nm else self.sym("any"))
            return out
        if mod == "dtypes" or "dtype" in n:
            d = NO
            for x in args:
                d |= deps_of(x)
            return V(Ext("?dtype", d))
        if mod == "op" and op == "from_string" or last == "from_string":
            if self.hashable_const(args[0]) and isinstance(args[0][0].val, str):
                return V(Ext("graphblas.op." + args[0][0].val))
            return V(Ext("graphblas.op.?", deps_of(args[0])))
        if mod in ("binary", "unary", "monoid", "semiring", "select", "indexunary", "op", "agg"):
            return self.call_op(mod, op, args, kwargs, st, node)
        return None

    def op_alts(self, v, default="?"):
        r = []
        for a in v or ():
            if isinstance(a, Ext):
                r.append(short(a.name))
            elif isinstance(a, Const) and isinstance(a.val, str):
                r.append(("str", STROPS.get(a.val, a.val)))
            else:
                r.append(("?", "?"))
        return r or [("?", default)]

    def call_op(self, mod, op, args, kwargs, st, node):
        a = args[0] if args else ()
        out = ()
        for x in a:
            o = self.obj(x, st)
            if o is not None and o.kind == "expr" and o.get("form") and len(args) == 1:
                defaults = "left_default" in kwargs or "right_default" in kwargs
                pairs = [(l, r) for l in o.f["l"] or () for r in o.f["r"] or ()]
                if pairs:
                    c = None
                    for l, r in pairs:
                        c1, tk = self.matmul(op, l, r, st, node) if o.f["form"] == "matmul" else self.ewise(op, l, r, st, node, o.f["form"] == "union", defaults)
                        c = c1 if c is None else c.join(c1)
                    if defaults:
                        for k in ("left_default", "right_default"):
                            if k in kwargs and op not in IGNORE_BOTH:
                                c = c.but(v=c.v | deps_of(kwargs[k]))
                    out = join(out, self.expr(st, node, tk, c, o.get("dims") if o.f["form"] != "matmul" else None, tag=("op", op, x.key())))
                    continue
                # the operands are not known any more: any operator may replace the default one
                c, tk = self.operand(x, st)
                out = join(out, self.expr(st, node, tk, c.but(v=maybe(c.v | c.p), vs=None, tok=None, sym=None, asym=None), o.get("dims"), tag=("op", op, x.key())))
                continue
            out = join(out, self.apply_op(mod, op, x, args[1:], kwargs, st, node))
        return out or self.sym("any")

    def apply_op(self, mod, op, x, rest, kwargs, st, node):
        c, tk = self.operand(x, st)
        if tk == "P":
            # binary.times(alpha, A)
            if rest:
                for y in rest[0]:
                    cy, ty = self.operand(y, st)
                    if ty != "P":
                        c2, tk2 = self.ewise(op, x, y, st, node, False)
                        o2 = self.obj(y, st)
                        return self.expr(st, node, tk2, c2, o2.get("dims"), tag=("bind1", op, y.key()))
            d = self.shallow_deps(x, st)
            for y in list(rest) + list(kwargs.values()):
                d |= self.deep_deps(y, st)
            return self.sym("any", maybe(d))
        o = self.obj(x, st)
        dims = o.get("dims")
        if mod in ("select",) or op in SELECT_VALUE and mod != "indexunary":
            th = rest[0] if rest else kwargs.get("thunk") or ()
            td = NO
            for y in th:
                td |= self.shallow_deps(y, st)
            return self.expr(st, node, tk, self.select_c(op, c, td, th), dims, tag=("sel", op, x.key()))
        if mod == "indexunary":
            th = rest[0] if rest else ()
            vs = c.rs if op in POSITIONAL_ROW else c.cs if op in POSITIONAL_COL else None
            uses = op.startswith("value")
            return self.expr(st, node, tk, c.but(v=(c.v if uses else NO) | deps_of(th) | (axis_end(c.orient, op in POSITIONAL_ROW) if vs is not None and tk == "M" else NO), vs=vs, tok=None, sym=None if vs else c.sym, asym=("def", "row and column numbers as values") if vs and c.sym and tk == "M" else asy(c) if not vs else None, iso=False, orig=None, reg=c.reg if uses or vs else None), dims, tag=("iu", op, x.key()))
        if rest or "right" in kwargs or "left" in kwargs:
            y = rest[0] if rest else kwargs.get("right") or kwargs.get("left")
            swap = not rest and "right" not in kwargs
            outs = ()
            for b in y:
                c2, tk2 = self.ewise(op, b, x, st, node, False) if swap else self.ewise(op, x, b, st, node, mod == "monoid" and False)
                outs = join(outs, self.expr(st, node, tk2 if tk2 != "P" else tk, c2, dims, tag=("bind2", op, x.key(), b.key())))
            return outs
        # unary
        v = NO if op in UNARY_CONST or op in IGNORE_BOTH else c.v
        vs = None
        if op in POSITIONAL_ROW or op in POSITIONAL_COL:
            vs = c.rs if op in POSITIONAL_ROW else c.cs
            v = axis_end(c.orient, op in POSITIONAL_ROW) if tk == "M" else NO
        tok = None
        if op == "abs" and isinstance(c.tok, tuple) and c.tok and c.tok[0] == "diff":
            tok = ("absdiff",) + c.tok[1:]
        if op in ("identity",):
            tok = c.tok
        if op == "isinf" or op == "isnan":
            pass
        return self.expr(st, node, tk, c.but(v=v, vs=vs, tok=tok, orig=None, iso=False, sym=None if vs else c.sym, asym=c.asym if not vs and (v or c.asym and c.asym[0] in PATTERN) else None), dims, tag=("un", op, x.key()))

    def select_c(self, op, c, td, th=()):
        reg = c.reg
        sym = None
        p = c.p | td
        v = c.v
        if op in ("tril", "triu"):
            k = th[0].val if len(th) == 1 and isinstance(th[0], Const) else (0 if not th else None)
            if k is None:
                nr = None
            elif op == "tril":
                nr = frozenset("LD") if k == 0 else frozenset("L") if k < 0 else None
            else:
                nr = frozenset("UD") if k == 0 else frozenset("U") if k > 0 else None
            reg = nr if reg is None else (reg & nr if nr is not None else reg)
            return c.but(p=p, reg=reg, sym=None, asym=None, full=False, tok=None, orig=None)
        if op == "offdiag":
            return c.but(p=p, reg=(reg - {"D"}) if reg is not None else frozenset("LU"), full=False, tok=None, orig=None)
        if op == "diag":
            return c.but(p=p, reg=frozenset("D"), sym=True, asym=None, full=False, tok=None, orig=None)
        keep = c.asym if c.asym is not None and c.asym[0] in PATTERN else None
        if op in SELECT_STRUCT:
            return c.but(p=p, sym=None, asym=None, full=False, tok=None, orig=None)
        return c.but(p=p | c.v, full=False, asym=keep, tok=None, orig=None)

    # ------------------------------------------------------------ constructors
    def construct(self, cls, args, kwargs, st, node):
        tk = {"Matrix": "M", "Vector": "V", "Scalar": "S"}[cls]
        names = {"M": ["dtype", "nrows", "ncols"], "V": ["dtype", "size"], "S": ["dtype"]}[tk]
        b = dict(zip(names, args))
        b.update({k: v for k, v in kwargs.items() if k in names})
        d = NO
        dims = tuple(b.get(k) for k in names[1:])
        rs = self.space_of_dim(dims[0]) if dims else None
        cs = self.space_of_dim(dims[1]) if len(dims) > 1 else None
        return self.tensor(st, node, tk, Content(rs=rs, cs=cs, sym=True if tk == "M" and rs is not None and rs == cs else None, orient=None, reg=frozenset() if tk == "M" else None), dims, tag=cls)

    def construct_from(self, cls, name, args, kwargs, st, node):
        tk = {"Matrix": "M", "Vector": "V", "Scalar": "S"}[cls]
        if name == "from_value":
            x = args[0]
            d = NO
            for a in x:
                d |= self.shallow_deps(a, st)
            return self.tensor(st, node, "S", Content(v=d, full=True), tag="fv")
        if name == "from_coo":
            n = 2 if tk == "M" else 1
            pos = list(args)
            keys = ["rows", "columns", "values"] if tk == "M" else ["indices", "values"]
            b = dict(zip(keys, pos))
            b.update(kwargs)
            p, v = NO, NO
            spaces = []
            un = None
            infos = []
            for k in keys[:-1]:
                i = self.iterate(b[k], st, node) if k in b else Iter(elem=self.sym("any"))
                infos.append(i)
                p |= i.deps | deps_of(i.elem)
                sps = {x.space for x in i.elem if isinstance(x, Sym)}
                kinds = {x.kind for x in i.elem if isinstance(x, Sym)}
                if "key" in kinds:
                    self.event("space", node, what="node labels are used as row/column numbers")
                spaces.append(sps.pop() if len(sps) == 1 else None)
            vs = None
            if b.get("values") is not None:
                vv = b["values"]
                i = self.iterate(vv, st, node) if any(self.obj(a, st) is not None for a in vv) else None
                if i is not None:
                    infos.append(i)
                    v |= i.deps | deps_of(i.elem)
                    sps = {x.space for x in i.elem if isinstance(x, Sym) and x.kind == "idx"}
                    vs = sps.pop() if len(sps) == 1 and all(isinstance(x, Sym) and x.kind == "idx" for x in i.elem) else None
                else:
                    v |= deps_of(vv)
            if any(i.unord for i in infos) and not all(i.unord or i.seq is None for i in infos):
                v = v | frozenset({"unord:paired with an ordered sequence@%s:%d" % (self.modfile.get(self.cur_mod(), "?"), getattr(node, "lineno", 0))})
            if tk == "V":
                dim = b.get("size")
                rs = self.space_of_dim(dim) or spaces[0]
                if spaces[0] is not None and self.space_of_dim(dim) is not None:
                    self.check_space(spaces[0], self.space_of_dim(dim), node, "from_coo")
                self.event("from_coo", node, infos=infos, rs=rs)
                full = False
                i0 = infos[0]
                if i0.seq is not None and (i0.seq == ("range", rs)):
                    full = True
                src = frozenset(x for x in strip(p) if x.startswith("param:"))
                return self.tensor(st, node, "V", Content(p=p, v=v, rs=rs, vs=vs, src=src, full=full), (dim,) if dim else None, tag="coo")
            r, c = self.space_of_dim(b.get("nrows")), self.space_of_dim(b.get("ncols"))
            src = frozenset(x for x in strip(p) if x.startswith("param:"))
            return self.tensor(st, node, "M", Content(p=p, v=v, rs=r or spaces[0], cs=c or spaces[1], vs=vs, src=src), (b.get("nrows"), b.get("ncols")), tag="coo")
        if name in ("from_scalar",):
            d = self.deep_deps(args[0], st)
            dim = args[1:] + [kwargs[k] for k in ("size", "nrows", "ncols") if k in kwargs]
            return self.tensor(st, node, tk, Content(v=d, full=True, rs=self.space_of_dim(dim[0]) if dim else None, cs=self.space_of_dim(dim[1]) if len(dim) > 1 else None, sym=True), tuple(dim), tag="fs")
        d = NO
        for a in list(args) + list(kwargs.values()):
            d |= self.deep_deps(a, st)
        if name == "from_dict":
            i = self.iterate(args[0], st, node)
            o = self.obj(args[0][0], st) if args[0] else None
            k = (o.get("k") if o is not None and o.kind == "dict" else None) or i.elem or ()
            vals = (o.get("v") if o is not None and o.kind == "dict" else ()) or ()
            sps = {x.space for x in k if isinstance(x, Sym)}
            if any(isinstance(x, Sym) and x.kind == "key" for x in k):
                self.event("space", node, what="node labels are used as row/column numbers")
            sp = self.space_of_dim(kwargs.get("size")) or (sps.pop() if len(sps) == 1 else None)
            kd = deps_of(k) | i.deps
            return self.tensor(st, node, tk, Content(p=kd, v=deps_of(vals) | kd, rs=sp, src=frozenset(x for x in strip(kd) if x.startswith("param:"))), (kwargs.get("size"),) if "size" in kwargs else None, tag="fd")
        return self.tensor(st, node, tk, Content(p=d, v=d), tag=("from", name))

    # ------------------------------------------------------------ methods
    def call_method_ext(self, a, o, name, args, kwargs, st, node):
        if o.kind in ("tensor", "expr", "tview", "mask"):
            return self.gb_method(a, o, name, args, kwargs, st, node)
        if o.kind == "ns":
            return self.ns_method(a, o, name, args, kwargs, st, node)
        if o.kind == "upd":
            if name == "update":
                self.do_lshift(a, o, args[0][0], st, node)
                return V(NONE)
        if o.kind in ("nif", "property", "exc", "slice"):
            if o.kind == "nif":
                return self.nif_method(a, o, name, args, kwargs, st, node)
            return self.sym("any")
        return None

    def nif_method(self, a, o, name, args, kwargs, st, node):
        return self.sym("any")

    def get_arg(self, args, kwargs, i, *names):
        for n in names:
            if n in kwargs:
                return kwargs[n]
        if i is not None and i < len(args):
            return args[i]
        return None

    def gb_method(self, a, o, name, args, kwargs, st, node):
        c = self.content(a, st)
        tk = self.tkof(a, st)
        dims = o.get("dims")
        if name in ("new", "dup"):
            mask = self.get_arg([], kwargs, None, "mask")
            c2 = c
            if o.kind == "mask":
                c2 = c.but(tok=None, orig=None)
                dims = None
            c2 = self.apply_mask(c2, mask, st, node) if mask else c2
            dt = self.get_arg(args, kwargs, 0, "dtype")
            if dt:
                c2 = c2.but(v=c2.v | frozenset(x for x in deps_of(dt) if x.lstrip("?").startswith("param:")), tok=c2.tok, orig=c2.orig)
            cl = kwargs.get("clear")
            if cl and not (len(cl) == 1 and isinstance(cl[0], Const) and not cl[0].val):
                c2 = Content(rs=c.rs, cs=c.cs, sym=c.sym, reg=frozenset() if tk == "M" else None)
            keep_tok = not mask and not cl and o.kind != "mask"
            t = c.tok if keep_tok else None
            if t is not None and isinstance(t, tuple) and t[0] == "w" and name in ("new", "dup"):
                t = None if False else t
            r = self.tensor(st, node, tk if tk != "P" else "S", c2.but(tok=t), dims, tag=("new", a.key()))
            if dt:  # the data type stays with the object whatever is written into it
                h = st.heap[r[0].oid]
                st.heap[r[0].oid] = h.set(deps=(h.get("deps") or NO) | frozenset(x for x in deps_of(dt) if x.lstrip("?").startswith("param:")))
            return r
        if name in ("get",):
            if tk == "V":
                i = args[0]
                self.check_index(i, c.rs, st, node)
                nc = c.but(p=c.p | deps_of(i), v=c.v | deps_of(i))
                r = self.scalar_value(nc, a, False)
                r = self.relate_row(r, c, i)
                if self.known_entry(c, i, st):
                    return r
                d = args[1] if len(args) > 1 else kwargs.get("default")
                return join(r, add_deps(d, c.p) if d is not None else V(Const(None, c.p)) if not c.full else None)
            if tk == "M":
                self.check_index(args[0], c.rs, st, node)
                self.check_index(args[1], c.cs, st, node)
                d = self.get_arg(args, kwargs, 2, "default")
                return join(V(Sym("num", c.v | c.p | deps_of(args[0]) | deps_of(args[1]), space=None)), d if d is not None else V(NONE))
            d = self.get_arg(args, kwargs, 0, "default")
            r = self.scalar_value(c, a, False)
            return join(r, add_deps(d, c.p) if d is not None else V(Const(None, c.p)) if not c.full else None)
        if name == "to_coo":
            return self.to_coo(a, o, c, tk, kwargs, args, st, node)
        if name in ("to_values",):
            return self.to_coo(a, o, c, tk, kwargs, args, st, node)
        if name in ("reduce", "reduce_rowwise", "reduce_columnwise", "reduce_scalar"):
            ops = self.op_alts(args[0] if args else kwargs.get("op"), "plus")
            out = ()
            for m, op in ops:
                if op == "?":
                    op = "plus"
                v = self.reduce_v(op, c)
                if v and op in ("any", "any_value"):
                    v = v | self.arbitrary(node)
                tok = c.tok if isinstance(c.tok, tuple) and c.tok and c.tok[0] in ("diff", "absdiff") else None
                if name in ("reduce", "reduce_scalar"):
                    out = join(out, self.expr(st, node, "S", Content(p=c.p if op not in ("count",) else NO, v=v, d=c.d | self.total(c), src=c.src, tok=tok, full=op in ("count", "exists")), tag=("red", op, a.key())))
                else:
                    row = name == "reduce_rowwise"
                    dd = self.step(c.orient, "N" if row else "T", Content(src=NO))
                    dl = dirl(dd)
                    out = join(out, self.expr(st, node, "V", Content(p=c.p | dl, v=v | dl if v else v, rs=c.rs if row else c.cs, d=dd or c.d, src=c.src, tok=("red", op, row, c.tok) if c.tok is not None else None), tag=("red", op, a.key())))
            return out
        if name == "apply":
            out = ()
            for m, op in self.op_alts(args[0] if args else kwargs.get("op")):
                rest = args[1:2]
                out = join(out, self.apply_op(m if m != "str" else "binary", op, a, rest, {k: v for k, v in kwargs.items() if k in ("right", "left")}, st, node))
            return out
        if name == "select":
            out = ()
            th = args[1] if len(args) > 1 else kwargs.get("thunk") or ()
            td = NO
            for y in th:
                td |= self.shallow_deps(y, st)
            for y in args[0]:
                yo = self.obj(y, st)
                if yo is not None and yo.kind in ("mask", "expr", "tensor"):
                    m = self.content(y, st)
                    out = join(out, self.expr(st, node, tk, c.but(p=c.p | m.p | (m.v if yo.kind != "mask" else NO), full=False, tok=None, sym=bool(c.sym and m.sym) or None, asym=one_asym(c, m)), dims, tag=("selm", a.key())))
                    continue
                for m, op in self.op_alts(V(y)):
                    out = join(out, self.expr(st, node, tk, self.select_c(op, c, td, th), dims, tag=("sel", op, a.key())))
            return out
        if name in ("ewise_add", "ewise_mult", "ewise_union"):
            out = ()
            opv = self.get_arg(args, kwargs, 1, "op")
            for m, op in self.op_alts(opv, "plus"):
                for b in args[0]:
                    c2, tk2 = self.ewise(op, a, b, st, node, name != "ewise_mult", name == "ewise_union")
                    out = join(out, self.expr(st, node, tk2, c2, dims, tag=(name, op, a.key(), b.key())))
            return out
        if name in ("mxm", "mxv", "vxm", "inner"):
            out = ()
            opv = self.get_arg(args, kwargs, 1, "op")
            for m, op in self.op_alts(opv, "plus_times"):
                for b in args[0]:
                    c2, tk2 = self.matmul(op, a, b, st, node)
                    out = join(out, self.expr(st, node, tk2, c2, tag=(name, op, a.key(), b.key())))
            return out
        if name == "outer":
            out = ()
            opv = self.get_arg(args, kwargs, 1, "op")
            for m, op in self.op_alts(opv, "times"):
                for b in args[0]:
                    r, rk = self.operand(b, st)
                    op1 = semi_split(op)[1] if m == "semiring" else op
                    samevec = (c.tok is not None and c.tok == r.tok) or a.key() == b.key()
                    out = join(out, self.expr(st, node, "M", Content(p=c.p | r.p, v=self.bin_v(op1, c, r, False), rs=c.rs, cs=r.rs, sym=True if samevec and op1 in COMMUTATIVE else None, asym=None if samevec or op1 not in ("times", "plus") or (bool(varies(c)) == bool(varies(r))) or c.v and r.v else ("bc", "row" if varies(c) else "col", (c if varies(c) else r).tok, op1), full=c.full and r.full, d=c.d | r.d, src=c.src | r.src, orient=outer_orient(c, r)), tag=("outer", op, a.key(), b.key())))
            return out
        if name == "diag":
            if tk == "V":
                return self.tensor(st, node, "M", Content(p=c.p, v=c.v, rs=c.rs, cs=c.rs, sym=True, reg=frozenset("D"), d=c.d, src=c.src, tok=("diagof", c.tok) if c.tok is not None else None), tag=("diag", a.key()))
            return self.tensor(st, node, "V", Content(p=c.p, v=c.v, rs=c.rs, d=c.d, src=c.src), tag=("diag", a.key()))
        if name == "reposition":
            return self.expr(st, node, tk, c.but(rs=None, cs=None, sym=None, asym=None, reg=None, tok=None), tag=("repos", a.key()))
        if name in ("isequal", "isclose"):
            d = c.p | c.v
            for b in args[0]:
                r, _ = self.operand(b, st)
                d |= r.p | r.v
            return V(Sym("bool", d, tag=("same", c.tok) if False else None))
        if name == "clear":
            self.own_mutate(a, o, st, node, "clear")
            if o.kind == "tensor":
                st.heap[a.oid] = o.set(c=Content(p=st.pc, v=st.pc, rs=c.rs, cs=c.cs, sym=True, reg=frozenset() if tk == "M" else None, tok=self.wtok(a, node)))
            return V(NONE)
        if name == "resize":
            self.own_mutate(a, o, st, node, "resize")
            if o.kind == "tensor":
                st.heap[a.oid] = o.set(c=c.but(rs=self.space_of_dim(args[0]), cs=self.space_of_dim(args[1]) if len(args) > 1 else None, full=False, tok=None), dims=tuple(args))
            return V(NONE)
        if name in ("update", "__lshift__"):
            if o.kind == "tensor":
                for b in args[0]:
                    self.do_lshift(a, o, b, st, node)
            return V(NONE)
        if name == "build":
            self.own_mutate(a, o, st, node, "build")
            if o.kind == "tensor":
                d = NO
                for x in args:
                    d |= self.deep_deps(x, st)
                st.heap[a.oid] = o.set(c=c.but(p=c.p | d, v=c.v | d, tok=None, full=False, sym=None, asym=None, reg=None))
            return V(NONE)
        if name in ("wait", "close"):
            return V(NONE)
        if name == "to_dense":
            fv = kwargs.get("fill_value") or (args[0] if args else V(NONE))
            d = c.p | c.v | self.deep_deps(fv, st)
            full = c.full or not any(isinstance(x, Const) and x.val is None for x in fv)
            return V(self.new(st, node, HObj("ndarray", elem=V(Sym(None, d)), deps=d, dense=full), tag="dense"))
        if name == "to_dict":
            return self.sym("any", c.p | c.v)
        if name in ("__iter__",):
            return self.b_iter([V(a)], {}, st, node)
        if name == "__getitem__":
            return self.getitem1(a, args[0], st, node)
        if name == "__contains__":
            return self.contains_ext(a, o, args[0][0], st, node)
        if name in ("power", "kronecker"):
            d = NO
            for x in args:
                d |= self.deep_deps(x, st)
            return self.expr(st, node, tk, c.but(p=c.p | d, v=c.v | c.p | d, tok=None, sym=c.sym if name == "power" else None, asym=None, reg=None), tag=(name, a.key()))
        return None

    def total(self, c):
        return NO

    def relate_row(self, r, c, i):
        return r

    def to_coo(self, a, o, c, tk, kwargs, args, st, node):
        off = lambda k: k in kwargs and len(kwargs[k]) == 1 and isinstance(kwargs[k][0], Const) and not kwargs[k][0].val
        un = None
        if off("sort"):
            un = "sort=False"
        p = c.p | a.deps
        seq = ("coo", a.oid, c.tok if c.tok is not None else ("?", getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        full = c.full and tk == "V" and c.rs is not None
        elts = []

        def col(space, deps, rng=False):
            s = Sym("idx", deps, space=space) if space is not None else Sym("idx", deps)
            q = ("range", space) if rng else seq
            return V(self.new(st, node, HObj("ndarray", elem=V(s), deps=p, seq=q, unord=un if not rng else None, length=self.getattr_ext(a, o, "nvals", st, node) if not rng else V(self.dim_of_space(space, p))), tag=("coo", len(elts), a.oid)))

        if tk == "M":
            ends = {"N": ("end:tail", "end:head"), "T": ("end:head", "end:tail")}.get(c.orient, ())
            elts.append(V(NONE) if off("rows") else col(c.rs, p | frozenset(ends[:1])))
            elts.append(V(NONE) if off("columns") else col(c.cs, p | frozenset(ends[1:])))
        else:
            elts.append(V(NONE) if off("indices") else col(c.rs, p, full and un is None))
        if off("values"):
            elts.append(V(NONE))
        else:
            k = Sym("idx", c.v | p, space=c.vs) if c.vs is not None else Sym("num", c.v | p)
            elts.append(V(self.new(st, node, HObj("ndarray", elem=V(k), deps=p, seq=("range", c.rs) if full and un is None else seq, unord=un), tag=("coov", a.oid))))
        return V(self.new(st, node, HObj("tuple", elts=elts, deps=NO), tag=("coot", a.oid)))

    def ns_method(self, a, o, name, args, kwargs, st, node):
        t = Ref(o.f["of"], a.deps)
        b = st.heap.get(o.f["of"])
        if b is None:
            return None
        c = b.f["c"] if b.kind in ("tensor", "expr") else Content()
        tk = b.get("tk")
        p = c.p | a.deps
        if name in ("iterkeys", "itervalues", "iteritems"):
            idx = V(Sym("idx", p, space=c.rs))
            if tk == "M":
                idx = V(self.new(st, node, HObj("tuple", elts=[V(Sym("idx", p, space=c.rs)), V(Sym("idx", p, space=c.cs))], deps=NO), tag="ij"))
            val = V(Sym("idx" if c.vs is not None else "num", c.v | p, space=c.vs))
            e = idx if name == "iterkeys" else val if name == "itervalues" else V(self.new(st, node, HObj("tuple", elts=[idx, val], deps=NO), tag="kv"))
            return V(self.new(st, node, HObj("iter", elts=None, elem=e, deps=p, seq=("coo", o.f["of"], c.tok) if c.tok is not None else None), tag=name))
        if name in ("export", "unpack"):
            if name == "unpack":
                self.own_mutate(t, b, st, node, "unpack")
            d = c.p | c.v | a.deps
            r = HObj("dict", entries={}, k=V(Sym("str")), v=V(self.new(st, node, HObj("ndarray", elem=self.sym("any", maybe(d)), deps=p), tag="exp")), deps=p)
            return V(self.new(st, node, r, tag="export"))
        if name in ("pack", "config", "resize", "build_scalar"):
            self.own_mutate(t, b, st, node, "ss." + name)
            return V(NONE)
        return self.sym("any", maybe(c.p | c.v))

    def iterate_ext(self, a, o, st, node):
        if o.kind in ("tensor", "expr"):
            c = self.content(a, st)
            tk = self.tkof(a, st)
            if tk == "V":
                return Iter(elem=V(Sym("idx", c.p, space=c.rs)), deps=c.p, seq=("coo", a.oid, c.tok) if c.tok is not None else None)
            t = self.new(st, node, HObj("tuple", elts=[V(Sym("idx", c.p, space=c.rs)), V(Sym("idx", c.p, space=c.cs))], deps=NO), tag="ij")
            return Iter(elem=V(t), deps=c.p)
        return None


STROPS = {"+": "plus", "-": "minus", "*": "times", "/": "truediv", "|": "lor", "&": "land", "!=": "valuene", "==": "valueeq", "<": "valuelt", "<=": "valuele", ">": "valuegt", ">=": "valuege"}


PATTERN = ("tri", "dir", "blk")  # reasons that concern which entries are present


def flip_asym(a):
    if a is not None and a[0] == "bc":
        return ("bc", "col" if a[1] == "row" else "row") + a[2:]
    if a is not None and a[0] == "blk":
        return ("blk", a[1][::-1], tflip(a[2]) if a[2] is not None and a[2][:1] != ("const",) else a[2])
    return a


def asy(c):
    """Why a matrix is certainly not symmetric for some undirected input, or None."""
    if c.sym:
        return None
    if c.asym is not None:
        return c.asym
    if c.reg is not None and ("U" in c.reg) != ("L" in c.reg):
        return ("tri", "only one triangle holds entries")
    if c.orient in ("N", "T"):
        return ("dir", "edges of a directed graph")
    return None


def one_asym(*cs):
    """Exactly one part is not symmetric and the others are."""
    bad = [asy(c) for c in cs]
    if sum(b is not None for b in bad) == 1 and all(b is not None or c.sym for b, c in zip(bad, cs)):
        return next(b for b in bad if b is not None)
    return None


def varies(c, what=(".struct", ".vals")):
    return any(isinstance(l, str) and not l.startswith("?") and l.endswith(what) for l in c.v)


def dirl(d):
    """Labels that say along which direction of the edges something was found."""
    return frozenset(f"dir:{dr}:{s}" for dr, s in d)


def axis_end(orient, row):
    """Which end of the edges the row (column) numbers of an oriented matrix are."""
    if orient not in ("N", "T"):
        return NO
    return frozenset({"end:tail" if row == (orient == "N") else "end:head"})


def outer_orient(l, r):
    a, b = {x for x, _ in l.d}, {x for x, _ in r.d}
    if a == {"out"} and b == {"in"}:
        return "N"
    if a == {"in"} and b == {"out"}:
        return "T"
    return None


def accum_name(v):
    for a in v or ():
        if isinstance(a, Ext):
            return short(a.name)[1]
    return "plus"
