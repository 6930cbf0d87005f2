"""C03: every derived fact equals its definition, whatever was asked before.

The getters are evaluated over a denotational domain: a matrix is what it holds in the lower, diagonal and upper part
(A's own entry, the mirrored entry, or their overlap), a vector is a sum of per-row counts (or a reduction) over such
parts, a scalar a sum over parts.  The graph itself is any graph: facts such as "has self-edges" are split into cases
when they matter.  What is already cached is any subset of the facts some getter can cache, each equal to its
definition (the induction hypothesis); each getter must then return its definition and leave only correct facts behind.
"""
import math
import os
import re
from itertools import product

from ..mini import *

MATRIX = set("S T V apply build clear diag dtype dup ewise_add ewise_mult ewise_union isclose isequal kronecker mxm mxv name ncols ndim nrows nvals power reduce_columnwise reduce_rowwise reduce_scalar reposition resize select setdiag shape ss get to_coo to_csc to_csr to_dcsc to_dcsr to_dense to_dicts to_edgelist update wait new _is_transposed _as_vector gb_obj".split())
VECTOR = set("S V apply build clear diag dtype dup ewise_add ewise_mult ewise_union inner isclose isequal name ndim nvals outer reduce reposition resize select shape size ss to_coo to_dense to_dict update vxm wait get _as_matrix new gb_obj".split())
AGG = {"count", "mean", "varp", "vars", "stdp", "stds", "sum_of_squares", "argmin", "argmax", "first", "last", "peak_to_peak", "hypot", "L1norm", "L2norm", "Linfnorm", "exists", "geometric_mean", "harmonic_mean"}
OPS = ("count", "plus", "min", "max", "any")

# ---- worlds -------------------------------------------------------------------------------------------------------
FACTS = ("H", "OE", "ND", "NO", "dlt", "DT", "I", "IN")


def worlds():
    out = []
    for w in product([0, 1], [0, 1], [0, 1], [0, 1], [0, 1], ["nonneg", "signed", "udt"], [0, 1], [0, 1]):
        H, OE, ND, NO, dlt, DT, I, IN = w
        if ND and not H or NO and OE:
            continue
        if DT != "signed" and (ND or NO or IN):
            continue
        if dlt and (not H or OE) or ND and not NO and not OE and not dlt or not ND and NO and H and dlt:
            continue
        if I:
            if not H and OE:
                continue
            if H and ND != IN or not OE and NO != IN or dlt:
                continue
        elif IN:
            continue
        out.append(dict(zip(FACTS, w)))
    return out


WORLDS = worlds()
T_ = {"a": "t", "t": "a", "r": "r", "1a": "1t", "1t": "1a", None: None}
FLIP = {"L": "U", "U": "L", "D": "D"}


class Dt(Abs):
    def attr(self, ev, name, node):
        if name == "_is_udt":
            return ev.ask(lambda w: w["DT"] == "udt")
        return Unk(name)

    def within(self, ev, s, node):
        names = [x.name.split(".")[-1] if isinstance(x, Ext) else None for x in s]
        if None in names:
            return Unk("in")
        nonneg = {"BOOL", "UINT8", "UINT16", "UINT32", "UINT64"}
        allin = nonneg <= set(names)
        anysigned = bool(set(names) - nonneg)
        somein = bool(set(names) & nonneg)
        dt = "nonneg" if ev.ask(lambda w: w["DT"] == "nonneg") else "udt" if ev.ask(lambda w: w["DT"] == "udt") else "signed"
        if dt == "udt":
            return False
        if dt == "nonneg":
            return True if allin else False if not somein else ev.choose([True, False], "dtype")
        return ev.choose([True, False], "dtype") if anysigned else False

    def contains(self, ev, item, node):
        return Unk("in")


class OpV(Abs):
    def __init__(self, name, kind=None):
        self.name, self.kind = name, kind

    def call(self, ev, args, kwargs, node):
        if len(args) == 1 and isinstance(args[0], Pair):
            return args[0].combine(ev, self.name, node)
        if len(args) == 2 and all(isinstance(a, (Vec, Mat)) for a in args):
            return Unk("op")
        if len(args) == 1 and isinstance(args[0], (Vec, Mat)):
            return args[0].unary(self.name)
        return Unk("op call")

    def getitem(self, ev, key, node):
        return self

    def attr(self, ev, name, node):
        return Unk(name)


class Mask(Abs):
    def compare(self, ev, op, other, swapped, node):
        if other is None:
            return op in ("is not", "!=")
        if other is self:
            return op in ("is", "==")
        return Unk(op)

    def truth(self, ev, node):
        return True


class Pair(Abs):
    def __init__(self, how, a, b):
        self.how, self.a, self.b = how, a, b

    def combine(self, ev, op, node):
        a, b = self.a, self.b
        if type(a) is not type(b):
            return Unk("pair")
        return a.combine(ev, op, self.how, b)

    def attr(self, ev, name, node):
        if name == "new":
            return Prim(lambda ev, a, k, n: Unk("pair.new"))
        return Unk(name)


def opname(v, default=None):
    if v is None:
        return default
    if isinstance(v, OpV):
        return v.name
    if isinstance(v, str):
        return v
    if isinstance(v, Ext):
        return v.name.split(".")[-1]
    return None


class Mat(Abs):
    """parts: what is stored at positions below, on and above the diagonal."""

    def __init__(self, parts, ev):
        self.parts = ev.canon_parts(parts)
        self.e = ev

    def fresh(self, parts=None):
        return Mat(dict(self.parts if parts is None else parts), self.e)

    def transposed(self):
        return self.fresh({FLIP[r]: T_[t] for r, t in self.parts.items()})

    def only(self, regs):
        return self.fresh({r: (t if r in regs else None) for r, t in self.parts.items()})

    def sel(self, which, k=0):
        k = 0 if k is None else k
        if which in ("triu", "tril") and isinstance(k, int):
            keep, lose = ("U", "L") if which == "triu" else ("L", "U")
            if k == 0:
                return self.only({keep, "D"})
            if k == (1 if which == "triu" else -1):
                return self.only({keep})
            if k == (-1 if which == "triu" else 1):
                return None  # other diagonals: not a part
            return None
        if which == "offdiag" and k == 0:
            return self.only({"L", "U"})
        if which == "diag" and k == 0:
            return self.only({"D"})
        return None

    def unary(self, name):
        if name == "one":
            return self.fresh({r: None if t is None else t if t.startswith("1") or t == "r" else "1" + t for r, t in self.parts.items()})
        return Unk(name)

    def combine(self, ev, op, how, o):
        parts = {}
        for r in "LDU":
            x, y = self.parts[r], o.parts[r]
            if how == "&" and op in ("pair", "one", "oneb"):
                if x is None or y is None:
                    parts[r] = None
                    continue
                b = {x.lstrip("1"), y.lstrip("1")}
                parts[r] = "r" if len(b) == 2 or "r" in b else "1" + b.pop()
            elif how == "|" and (x is None or y is None):
                parts[r] = x or y
            elif how == "|" and x == y and op in ("any", "min", "max", "first", "second"):
                parts[r] = x
            else:
                return Unk("combine")
        return self.fresh(parts)

    def reduce(self, op, cols=False):
        m = self.transposed() if cols else self
        return Vec.reduced(m.e, op, frozenset((r, t) for r, t in m.parts.items() if t is not None))

    def attr(self, ev, name, node):
        if name not in MATRIX and not name.startswith("__"):
            raise MRaise("AttributeError", node)
        if name in ("new", "dup"):
            def new(ev, a, k, n):
                if k.get("mask") is not None:
                    return Unk("masked matrix")
                return self.fresh()
            return Prim(new)
        if name == "T":
            return self.transposed()
        if name == "nvals":
            return SLin({(r, t if t.startswith("1") or t == "r" else "1" + t): 1 for r, t in self.parts.items() if t is not None}, ev)
        if name == "diag":
            return Prim(lambda ev, a, k, n: Vec(ev, "red", "id", frozenset(("D", t) for t in [self.parts["D"]] if t is not None)) if not (a and a[0] != 0) else Unk("diag"))
        if name in ("reduce_rowwise", "reduce_columnwise"):
            def red(ev, a, k, n):
                op = opname(a[0] if a else k.get("op"), "plus")
                return self.reduce(op, name == "reduce_columnwise") if op else Unk("op")
            return Prim(red)
        if name == "reduce_scalar":
            def reds(ev, a, k, n):
                op = opname(a[0] if a else k.get("op"), "plus")
                if not op:
                    return Unk("op")
                v = self.reduce(op)
                v._fresh_count = True
                return v.scalar(op, ev)
            return Prim(reds)
        if name == "select":
            def s(ev, a, k, n):
                w = opname(a[0] if a else None)
                return self.sel(w, a[1] if len(a) > 1 else k.get("thunk")) or Unk("select")
            return Prim(s)
        if name in ("ewise_mult", "ewise_add"):
            def e(ev, a, k, n):
                op = opname(a[1] if len(a) > 1 else k.get("op"))
                o = a[0] if a else k.get("other")
                if op and isinstance(o, Mat):
                    return self.combine(ev, op, "&" if name == "ewise_mult" else "|", o)
                return Unk("ewise")
            return Prim(e)
        if name == "apply":
            return Prim(lambda ev, a, k, n: self.unary(opname(a[0])) if a else Unk("apply"))
        if name == "dtype":
            return Dt()
        if name == "ss":
            return SS()
        return Unk(name)

    def binop(self, ev, op, other, swapped, node):
        if op in ("&", "|") and isinstance(other, Mat):
            return Pair(op, other, self) if swapped else Pair(op, self, other)
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (self is other) == (op == "is")
        return Unk(op)

    def denote(self):
        return ("mat",) + tuple(sorted((r, t) for r, t in self.parts.items() if t is not None))

    def __repr__(self):
        return "Matrix{" + ", ".join(f"{r}:{t}" for r, t in self.parts.items() if t) + "}"


class SS(Abs):
    def attr(self, ev, name, node):
        if name == "is_iso":
            return ev.ask(lambda w: w["I"])
        if name == "iso_value":
            if not ev.ask(lambda w: w["I"]):
                raise MRaise("ValueError", node)
            return IsoVal()
        return Unk(name)


class IsoVal(Abs):
    def attr(self, ev, name, node):
        if name in ("get", "value", "new", "dup"):
            return Prim(lambda ev, a, k, n: self) if name != "value" else self
        return Unk(name)

    def compare(self, ev, op, other, swapped, node):
        if other is None:
            return op in ("is not", "!=")
        if other == 0 and not isinstance(other, Abs):
            if op == "<":
                return ev.ask(lambda w: w["IN"])
            if op == ">=":
                return not ev.ask(lambda w: w["IN"])
        return Unk(op)

    def truth(self, ev, node):
        return Unk("iso").truth(ev, node)

    def denote(self):
        return ("iso",)

    def __repr__(self):
        return "iso value"


IND = ("1a", "1t", "r")


class Vec(Abs):
    """kind 'lin': sum of coef * per-row count of a part; kind 'red': reduction of the values of parts by one operator;
    kind 'odd': a value known to be something else."""

    def __init__(self, ev, kind, op, data, mask=None, zeros=False):
        self.e, self.kind, self.op, self.mask, self.zeros = ev, kind, op, mask, zeros
        if kind == "lin":
            data = ev.canon_lin(data)
        elif kind == "red":
            data = frozenset(ev.canon_term(r, t) for r, t in data)
            data = frozenset((r, t) for r, t in data if t is not None)
        self.data = data

    @staticmethod
    def reduced(ev, op, terms):
        if op == "count":
            return Vec(ev, "lin", None, {(r, t if t.startswith("1") or t == "r" else "1" + t): 1 for r, t in terms})
        if op == "plus" and terms and all(t in IND for _, t in terms):
            return Vec(ev, "lin", None, {x: 1 for x in terms})
        return Vec(ev, "red", op, terms)

    def copy(self, mask="same"):
        return Vec(self.e, self.kind, self.op, self.data, self.mask if mask == "same" else mask, self.zeros)

    def empty(self):
        return not self.data and self.kind != "odd"

    def unary(self, name):
        if name == "one" and self.kind == "red" and self.op == "id":
            return Vec(self.e, "lin", None, {(r, t if t.startswith("1") else "1" + t): 1 for r, t in self.data}, self.mask)
        if self.empty():
            return self.copy()
        return Unk(name)

    def combine(self, ev, op, how, o):
        mask = self.mask if self.mask is o.mask else "partial"
        if how == "&":
            return Unk("&")
        if self.empty():
            return o.copy(mask if o.mask is not self.mask else "same")
        if o.empty():
            return self.copy(mask if o.mask is not self.mask else "same")
        if "odd" in (self.kind, o.kind):
            return Vec(ev, "odd", None, ("combined",), mask)
        if self.kind == o.kind == "lin" and op in ("plus", "minus"):
            if op == "minus" and not set(o.data) <= set(self.data):
                # where only the right side has an entry, the union keeps it un-negated
                d = ev.canon_lin({k: v for k, v in o.data.items() if k not in self.data})
                if d:
                    return Vec(ev, "odd", None, ("minus of a larger set",), mask)
            out = dict(self.data)
            for k, v in o.data.items():
                out[k] = out.get(k, 0) + (v if op == "plus" else -v)
            return Vec(ev, "lin", None, out, mask, self.zeros or o.zeros or op == "minus")
        if self.kind == o.kind == "red":
            if self.op == o.op == op:
                if self.data & o.data and op == "plus":
                    return Vec(ev, "odd", None, ("counted twice",), mask)
                return Vec(ev, "red", op, self.data | o.data, mask)
            if op in OPS and self.op in OPS and o.op in OPS:
                return Vec(ev, "odd", None, (op, self.op, o.op), mask)
        return Unk("combine")

    def scalar(self, op, ev):
        if self.mask is not None:
            return Unk("masked scalar")
        if self.kind == "odd":
            return SRed("odd", frozenset({self.data}), ev)
        if self.kind == "lin":
            if op == "plus":
                return SLin(self.data, ev)
            if op == "count" and len(self.data) > 0:
                if self._fresh_count:
                    return SLin(self.data, ev)
                return SRed("odd", frozenset({("number of rows", tuple(sorted(self.data.items())))}), ev)
            return Unk("reduce")
        if self.op in (op, "id") or not self.data:
            if op == "count" and self.data:
                return SLin({(r, "1" + t.lstrip("1")): 1 for r, t in self.data}, ev) if self.op == "id" else Unk("count")
            return SRed(op, self.data, ev)
        if op in OPS and self.op in OPS:
            return SRed("odd", frozenset({(op, self.op)}), ev)
        return Unk("reduce")

    _fresh_count = False

    def attr(self, ev, name, node):
        if name not in VECTOR and not name.startswith("__"):
            raise MRaise("AttributeError", node)
        if name in ("new", "dup"):
            def new(ev, a, k, n):
                m = k.get("mask", a[1] if len(a) > 1 else None)
                return self.copy(m if m is not None else "same")
            return Prim(new)
        if name == "nvals":
            if self.mask is not None or self.zeros or self.kind == "odd":
                return Unk("nvals")
            if self.kind == "lin" and set(self.data) <= {("D", "1a")} or self.kind == "red" and self.op == "id":
                return SLin({(r, "1a"): 1 for r, _ in self.data}, ev)
            return NRows(frozenset((r, t.lstrip("1") if t != "r" else t) for r, t in self.data), ev)
        if name == "reduce":
            def red(ev, a, k, n):
                op = opname(a[0] if a else k.get("op"), "plus")
                return self.scalar(op, ev) if op else Unk("op")
            return Prim(red)
        if name == "isequal":
            def iseq(ev, a, k, n):
                if isinstance(a[0], Vec) and self.mask is None and a[0].mask is None:
                    return ev.same(self, a[0])
                return Unk("isequal")
            return Prim(iseq)
        if name == "V":
            return ValMask(self)
        if name == "apply":
            return Prim(lambda ev, a, k, n: self.unary(opname(a[0])) if a else Unk("apply"))
        if name == "ewise_add":
            def e(ev, a, k, n):
                op = opname(a[1] if len(a) > 1 else k.get("op"))
                return self.combine(ev, op, "|", a[0]) if op and a and isinstance(a[0], Vec) else Unk("ewise")
            return Prim(e)
        if name == "select":
            def s(ev, a, k, n):
                w, t = opname(a[0] if a else None), a[1] if len(a) > 1 else k.get("thunk")
                if self.kind == "lin" and (w in ("!=", "valuene", "ne") or w in (">", "valuegt", "gt")) and t == 0 and all(v > 0 for v in self.data.values()):
                    return Vec(ev, "lin", None, self.data, self.mask)
                return Unk("select")
            return Prim(s)
        if name in ("_as_matrix", "S"):
            return Unk(name)
        return Unk(name)

    def call(self, ev, args, kwargs, node):
        return Target(self, args)

    def binop(self, ev, op, other, swapped, node):
        if op in ("|", "&") and isinstance(other, Vec):
            return Pair(op, other, self) if swapped else Pair(op, self, other)
        if op in ("+", "-") and isinstance(other, Vec):
            a, b = (other, self) if swapped else (self, other)
            if op == "+":
                return a.combine(ev, "plus", "|", b)
            if a.kind == b.kind == "lin":
                out = dict(a.data)
                for k, v in b.data.items():
                    out[k] = out.get(k, 0) - v
                return Vec(ev, "lin", None, out, a.mask if a.mask is b.mask else "partial", True)
        if op == "<<":
            return Unk("<<")
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (self is other) == (op == "is")
        return Unk(op)

    def denote(self):
        if self.empty():
            return ("vec", "empty")
        d = tuple(sorted(self.data.items())) if self.kind == "lin" else self.data
        return ("vec", self.kind, self.op, d)

    def __repr__(self):
        m = "" if self.mask is None else " partly masked" if self.mask == "partial" else " masked"
        if self.kind == "lin":
            s = " + ".join(f"{v if v != 1 else ''}count({r},{t})" for (r, t), v in sorted(self.data.items())) or "nothing"
            return f"per-row {s}{' with explicit zeros' if self.zeros else ''}{m}"
        if self.kind == "red":
            return f"per-row {self.op} of {','.join(r + ':' + t for r, t in sorted(self.data)) or 'nothing'}{m}"
        return f"{self.data}{m}"


class ValMask(Abs):
    def __init__(self, v):
        self.v = v


class Target(Abs):
    def __init__(self, v, args):
        self.v, self.args = v, args

    def binop(self, ev, op, other, swapped, node):
        if op == "<<" and not swapped:
            v = self.v
            vm = [a for a in self.args if isinstance(a, ValMask)]
            rep = any(isinstance(a, Ext) and a.name.endswith("replace") for a in self.args)
            if isinstance(other, Vec) and other is v and len(vm) == 1 and vm[0].v is v and rep:
                if v.kind == "lin" and all(c > 0 for c in v.data.values()):
                    v.zeros = False  # zero entries dropped
                else:
                    v.kind, v.data = "odd", ("zeros dropped",)
                return None
            ev.spoil(v)
        return None


def cmp_sign(ev, op, possible):
    res = set()
    for s in possible:
        res.add({"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[op])
    res = sorted(res)
    return res[0] if len(res) == 1 else ev.choose(res, "sign")


class SLin(Abs):
    def __init__(self, coefs, ev, const=0):
        self.e = ev
        self.coefs, self.const = ev.canon_slin(coefs), const

    def attr(self, ev, name, node):
        if name in ("get", "new", "dup"):
            return Prim(lambda ev, a, k, n: self)
        if name == "value":
            return self
        return Unk(name)

    def binop(self, ev, op, other, swapped, node):
        if op == "*" and isinstance(other, int):
            return SLin({k: v * other for k, v in self.coefs.items()}, ev, self.const * other)
        if op in ("+", "-"):
            o = other if isinstance(other, SLin) else SLin({}, ev, other) if isinstance(other, int) else None
            if o is not None:
                a, b = (o, self) if swapped else (self, o)
                out = dict(a.coefs)
                for k, v in b.coefs.items():
                    out[k] = out.get(k, 0) + (v if op == "+" else -v)
                return SLin(out, ev, a.const + (b.const if op == "+" else -b.const))
        if op == "%" and isinstance(other, int) and other > 0 and not swapped:
            c = {k: v % other for k, v in self.coefs.items() if v % other}
            if ("D", "1a") in c and not ev.ask(lambda w: w["H"]):
                c.pop(("D", "1a"))
            if any(r != "D" for r, _ in c) and ev.ask(lambda w: w["OE"]):
                c = {k: v for k, v in c.items() if k[0] == "D"}
            if not c:
                return self.const % other
            g = other
            for v in c.values():
                g = math.gcd(g, v)
            return ev.choose([(self.const + i) % other for i in range(0, other, g)], "remainder")  # the counts are independent
        if op in ("//", "/") and isinstance(other, int) and not swapped and other and all(v % other == 0 for v in self.coefs.values()) and self.const % other == 0:
            return SLin({k: v // other for k, v in self.coefs.items()}, ev, self.const // other)
        return Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return op == "is not"
        o = other if isinstance(other, SLin) else SLin({}, ev, other) if isinstance(other, int) else None
        if o is None or op not in ("<", "<=", ">", ">=", "==", "!="):
            return Unk(op)
        d = self.binop(ev, "-", o, False, node)
        c = dict(d.coefs)
        if ("D", "1a") in c:
            if not ev.ask(lambda w: w["H"]):
                c.pop(("D", "1a"))
        if any(r != "D" for r, _ in c) and ev.ask(lambda w: w["OE"]):
            c = {k: v for k, v in c.items() if k[0] == "D"}
        k = d.const
        if not c:
            return cmp_sign(ev, op, {(k > 0) - (k < 0)})
        pos = any(v > 0 for v in c.values())
        neg = any(v < 0 for v in c.values())
        strict = ("D", "1a") in c and (not pos or not neg)
        if pos and not neg and k >= 0:
            return cmp_sign(ev, op, {1} if strict or k > 0 else {0, 1})
        if neg and not pos and k <= 0:
            return cmp_sign(ev, op, {-1} if strict or k < 0 else {0, -1})
        return cmp_sign(ev, op, {-1, 0, 1})

    def truth(self, ev, node):
        return self.compare(ev, "!=", 0, False, node)

    def denote(self):
        return ("scalar", tuple(sorted(self.coefs.items())), self.const)

    def __repr__(self):
        return "scalar " + (" + ".join(f"{v if v != 1 else ''}count({r},{t})" for (r, t), v in sorted(self.coefs.items())) or "0")


class NRows(Abs):
    """Number of rows in which a part has an entry."""

    def __init__(self, terms, ev):
        self.terms, self.e = terms, ev

    def compare(self, ev, op, other, swapped, node):
        if not isinstance(other, NRows):
            return Unk(op)
        a, b = self.terms, other.terms
        if a ^ b and not ev.ask(lambda w: w["H"]):
            a = frozenset(x for x in a if x[0] != "D")
            b = frozenset(x for x in b if x[0] != "D")
        if a == b:
            return cmp_sign(ev, op, {0})
        if a < b:
            return cmp_sign(ev, op, {0, -1})
        if b < a:
            return cmp_sign(ev, op, {0, 1})
        return cmp_sign(ev, op, {-1, 0, 1})


class SRed(Abs):
    def __init__(self, op, terms, ev, plain=False):
        self.e, self.op, self.plain = ev, op, plain
        self.terms = terms if op == "odd" else ev.canon_sterms(terms)

    def attr(self, ev, name, node):
        if name == "get":
            return Prim(lambda ev, a, k, n: SRed(self.op, self.terms, ev, plain=True) if a and a[0] == 0 else Unk("get"))
        if name in ("new", "dup"):
            return Prim(lambda ev, a, k, n: self)
        if name == "is_empty":
            return self.nothing(ev)
        if name == "_as_vector":
            return Prim(lambda ev, a, k, n: OneVec(self))
        return Unk(name)

    def nothing(self, ev):
        r = {x[0] for x in self.terms}
        if not r:
            return True
        if r == {"D"}:
            return not ev.ask(lambda w: w["H"])
        if r == {"L", "U"} or ev.sym and r == {"L"}:
            return ev.ask(lambda w: w["OE"])
        if r == {"L", "D", "U"} or ev.sym and r == {"L", "D"}:
            return not ev.ask(lambda w: w["H"]) and ev.ask(lambda w: w["OE"])
        return ev.choose([True, False], "empty part")

    def negative(self, ev):
        """min over the parts < 0 (None when not known)."""
        r = {x[0] for x in self.terms}
        if not r:
            return False
        off = r - {"D"}
        if off and not (off == {"L", "U"} or ev.sym):
            return None
        return ev.ask(lambda w: bool("D" in r and w["ND"] or off and w["NO"]))

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not") and other is None:
            return op == "is not"
        if self.op == "odd":
            return Unk(op)
        if self.op == "min" and not isinstance(other, Abs) and other == 0 and op in ("<", ">="):
            e = self.nothing(ev)
            if e:
                return op == ">=" if self.plain else False
            n = self.negative(ev)
            if n is None:
                return Unk(op)
            return n if op == "<" else not n
        if isinstance(other, SRed) and op in ("==", "!=", "<", ">", "<=", ">="):
            if self.terms == other.terms and self.op == other.op:
                if not (self.plain and other.plain) and self.nothing(ev) and op != "!=":
                    return op == "=="
                return cmp_sign(ev, op, {0})
            if self.op == other.op == "min" and op in ("<", ">"):
                r, q = {x[0] for x in self.terms}, {x[0] for x in other.terms}
                full, off = ({"L", "D"}, {"L"}) if ev.sym else ({"L", "D", "U"}, {"L", "U"})
                if r == full and q == off and op == "<" or q == full and r == off and op == ">":
                    if ev.ask(lambda w: w["OE"]):
                        return False if not (self.plain or other.plain) else Unk(op)
                    return ev.ask(lambda w: w["dlt"])
            d = self.terms ^ other.terms
            if self.op == other.op and {x[0] for x in d} == {"D"} and not ev.ask(lambda w: w["H"]):
                return cmp_sign(ev, op, {0})
            return ev.choose([True, False], "scalars")
        if isinstance(other, float) and other in (float("inf"), float("-inf")) and op in ("<", "<=", ">", ">=") and self.op != "odd":
            if not self.plain and self.nothing(ev):
                return False
            return (op in ("<", "<=")) == (other > 0)
        if not isinstance(other, Abs) and isinstance(other, (int, float)):
            return ev.choose([True, False], "scalar")
        return Unk(op)

    def truth(self, ev, node):
        return ev.choose([True, False], "scalar")

    def denote(self):
        if not self.terms:
            return ("scalar", "empty")
        return ("scalar", self.op, self.terms)

    def __repr__(self):
        return f"{self.op} over {','.join(str(x[0]) + ':' + str(x[1]) if len(x) == 2 else str(x) for x in sorted(self.terms, key=str)) or 'nothing'}"


class OneVec(Abs):
    def __init__(self, s):
        self.s = s

    def binop(self, ev, op, other, swapped, node):
        if op == "|" and isinstance(other, OneVec):
            return OnePair(self.s, other.s)
        return Unk(op)


class OnePair(Pair):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def combine(self, ev, op, node):
        a, b = self.a, self.b
        if a.op == b.op == op:
            return OneVecR(SRed(op, a.terms | b.terms, ev))
        if op in OPS:
            return OneVecR(SRed("odd", frozenset({(op, a.op, b.op)}), ev))
        return Unk("pair")


class OneVecR(Abs):
    def __init__(self, s):
        self.s = s

    def getitem(self, ev, key, node):
        return self.s if key == 0 else Unk("[]")


class Cache(Abs):
    """Any correct set of remembered facts: presence of a key is split into cases when it matters."""

    def __init__(self, ev):
        self.present = {}
        self.written = {}

    def has(self, ev, key):
        if not isinstance(key, str):
            return None
        if key not in self.present:
            if key not in ev.cacheable:
                self.present[key] = (False, None)
            else:
                self.present[key] = (ev.choose([False, True], ("cached", key)), None)
                if self.present[key][0]:
                    self.present[key] = (True, ev.definition(key))
                    ev.trail.append(f"{key} cached")
        return self.present[key][0]

    def contains(self, ev, item, node):
        h = self.has(ev, item)
        return Unk("in cache") if h is None else h

    def getitem(self, ev, key, node):
        h = self.has(ev, key)
        if h is None:
            return Unk("cache")
        if not h:
            raise MRaise("KeyError", node, (key,))
        return self.present[key][1]

    def setitem(self, ev, key, value, node):
        if isinstance(key, str):
            self.present[key] = (True, value)
            self.written[key] = (value, node, ev.stack[-1][0] if ev.stack else None)
            ev.wrote.add(key)

    def delitem(self, ev, key, node):
        if isinstance(key, str):
            self.present[key] = (False, None)
            self.written.pop(key, None)

    def attr(self, ev, name, node):
        if name == "get":
            def get(ev, a, k, n):
                h = self.has(ev, a[0])
                if h is None:
                    return Unk("cache.get")
                if h:
                    return self.present[a[0]][1]
                return a[1] if len(a) > 1 else k.get("default")
            return Prim(get)
        if name == "setdefault":
            def sd(ev, a, k, n):
                if not self.has(ev, a[0]):
                    self.setitem(ev, a[0], a[1] if len(a) > 1 else None, n)
                return self.present[a[0]][1]
            return Prim(sd)
        if name == "update":
            def up(ev, a, k, n):
                if a and isinstance(a[0], dict):
                    for x, y in a[0].items():
                        self.setitem(ev, x, y, n)
                for x, y in k.items():
                    self.setitem(ev, x, y, n)
            return Prim(up)
        if name == "pop":
            def pop(ev, a, k, n):
                h = self.has(ev, a[0])
                if h:
                    v = self.present[a[0]][1]
                    self.delitem(ev, a[0], n)
                    return v
                if len(a) > 1:
                    return a[1]
                raise MRaise("KeyError", n)
            return Prim(pop)
        return Unk(name)

    def truth(self, ev, node):
        return Unk("cache").truth(ev, node)


class DictInst(MInst):
    def __init__(self, cls, data):
        super().__init__(cls)
        self.data = dict(data)

    def getitem(self, ev, key, node):
        try:
            if key in self.data:
                return self.data[key]
        except TypeError:
            return Unk("dict")
        if self.cls.lookup(ev, "__missing__") is not None:
            return self.special(ev, "__missing__", [key], node)
        raise MRaise("KeyError", node)

    def setitem(self, ev, key, value, node):
        self.data[key] = value

    def contains(self, ev, item, node):
        return item in self.data

    def attr(self, ev, name, node):
        if name == "get":
            return Prim(lambda ev, a, k, n: self.data.get(a[0], a[1] if len(a) > 1 else None))
        if name in ("__getitem__",):
            return Prim(lambda ev, a, k, n: self.getitem(ev, a[0], n))
        return super().attr(ev, name, node)


class DefaultDict(Abs):
    def __init__(self, factory, data):
        self.factory, self.data = factory, dict(data)

    def getitem(self, ev, key, node):
        if key not in self.data:
            self.data[key] = ev.call(self.factory, [], {}, node)
        return self.data[key]

    def attr(self, ev, name, node):
        if name == "__getitem__":
            return Prim(lambda ev, a, k, n: self.getitem(ev, a[0], n))
        if name == "get":
            return Prim(lambda ev, a, k, n: self.data.get(a[0], a[1] if len(a) > 1 else None))
        return Unk(name)


class Dom(Domain):
    def ext_attr(self, ev, base, name, node):
        if base in ("graphblas.binary", "graphblas.monoid", "graphblas.unary", "graphblas.agg"):
            return OpV(name)
        if base == "graphblas.op" and name != "from_string":
            return OpV(name)
        return None

    def ext_call(self, ev, name, args, kwargs, node):
        s = name.split(".")
        if name.startswith("graphblas"):
            if "select" in s and args and isinstance(args[0], Mat):
                r = args[0].sel(s[-1], args[1] if len(args) > 1 else kwargs.get("thunk"))
                return r if r is not None else Unk("select")
            if s[-1] == "from_string" and args and isinstance(args[0], str):
                return OpV(args[0])
            if s[-1] == "find_opclass" and isinstance(args[0], OpV):
                return (args[0], "UnknownOpClass" if args[0].name in AGG else "BinaryOp")
            if s[-1] == "Vector":
                return Vec(ev, "red", "id", frozenset())
            if s[-1] == "Scalar":
                return SRed("min", frozenset(), ev)
            if s[-1] == "Matrix":
                return Mat({"L": None, "D": None, "U": None}, ev)
        if s[-1] == "defaultdict":
            return DefaultDict(args[0] if args else None, args[1] if len(args) > 1 else {})
        return Unk(name)

    def instantiate(self, ev, cls, args, kwargs, node):
        if any(isinstance(b, Prim) and b.name == "dict" for b in cls.bases(ev)):
            return DictInst(cls, args[0] if args and isinstance(args[0], dict) else kwargs)
        return super().instantiate(ev, cls, args, kwargs, node)

    def intercept(self, ev, f, args, kwargs, node):
        # the most asked-for fact is answered by its definition when another getter asks; it is checked as a query of its own
        if f.name == "get_property" and ev.depth and ev.modular and ev.query != "has_self_edges":
            nm = args[1] if len(args) > 1 else kwargs.get("name")
            if nm == "has_self_edges" and isinstance(args[0], MInst) and isinstance(args[0].attrs.get("_cache"), Cache):
                c = args[0].attrs["_cache"]
                if c.present.get(nm, (False, None))[0]:
                    return (c.present[nm][1],)
                c.present[nm] = (True, ev.ask(lambda w: w["H"]))
                for k in ev.effects - {nm}:
                    if k in c.present and not c.present[k][0]:
                        del c.present[k]
                return (c.present[nm][1],)
        return None

    def augment(self, ev, op, cur, v, node):
        r = ev.binop(op, cur, v, node)
        if isinstance(cur, Vec):
            if isinstance(r, Vec):
                cur.kind, cur.op, cur.data, cur.zeros, cur.mask = r.kind, r.op, r.data, r.zeros, r.mask
            else:
                ev.spoil(cur)
            return cur
        return r


class Getters(Mini):
    def __init__(self, repo, sym):
        super().__init__(repo, Dom())
        self.sym = sym
        self.cacheable = set()
        self.wrote = set()
        self.effects = set()
        self.modular = False
        self.query = None

    def start(self):
        self.left = WORLDS
        self.trail = []

    def ask(self, pred):
        yes = [w for w in self.left if pred(w)]
        if len(yes) == len(self.left):
            return True
        if not yes:
            return False
        b = self.choose([False, True], "fact")
        self.left = yes if b else [w for w in self.left if not pred(w)]
        return b

    # canonical forms; nothing here asks for facts except through ask in `same`
    def canon_term(self, r, t):
        if t is None:
            return r, t
        if r == "D":
            t = {"t": "a", "1t": "1a", "r": "1a"}.get(t, t)
        if self.sym:
            t = {"t": "a", "1t": "1a", "r": "1a"}.get(t, t)
        return r, t

    def canon_parts(self, parts):
        return {r: self.canon_term(r, t)[1] for r, t in parts.items()}

    def canon_lin(self, d):
        out = {}
        for (r, t), v in d.items():
            k = self.canon_term(r, t)
            out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}

    def canon_slin(self, d):
        out = {}
        for (r, t), v in self.canon_lin(d).items():
            if t == "1t":
                r, t = FLIP[r], "1a"
            if r == "U" and (t == "r" or self.sym):
                r = "L"
            out[(r, t)] = out.get((r, t), 0) + v
        return {k: v for k, v in out.items() if v}

    def canon_sterms(self, terms):
        out = set()
        for r, t in terms:
            r, t = self.canon_term(r, t)
            if t in ("t", "1t"):
                r, t = FLIP[r], t.replace("t", "a")
            if r == "U" and (t == "r" or self.sym):
                r = "L"
            out.add((r, t))
        return frozenset(out)

    def spoil(self, v):
        v.kind, v.data = "unk", ()

    def same(self, a, b):
        """Do two values agree, splitting on self-edges if that decides it?"""
        x, y = a.denote(), b.denote()
        if x == y:
            return True
        if self.without(a).denote() == self.without(b).denote():
            return not self.ask(lambda w: w["H"])
        if self.ask(lambda w: not w["H"] and w["OE"]):
            return True
        return False

    def without(self, v):
        if isinstance(v, Mat):
            return Mat({**v.parts, "D": None}, self)
        if isinstance(v, Vec):
            if v.kind == "lin":
                return Vec(self, "lin", None, {k: c for k, c in v.data.items() if k[0] != "D"})
            if v.kind == "red":
                return Vec(self, "red", v.op, frozenset(x for x in v.data if x[0] != "D"))
        if isinstance(v, SLin):
            return SLin({k: c for k, c in v.coefs.items() if k[0] != "D"}, self, v.const)
        if isinstance(v, SRed) and v.op != "odd":
            return SRed(v.op, frozenset(x for x in v.terms if x[0] != "D"), self)
        return v

    # ---- definitions
    def A(self):
        return Mat({"L": "a", "D": "a", "U": "a"}, self)

    def definition(self, key):
        """The value a fact stands for; None when the name is not one this check knows."""
        A = self.A()
        base, sgn = (key[:-1], key[-1]) if key[-1] in "+-" else (key, "")
        M = A.only({"L", "U"}) if sgn == "-" else A
        if key == "A":
            return A
        if key == "AT":
            return A.transposed()
        if key == "offdiag":
            return A.only({"L", "U"})
        if base in ("U", "L") and sgn:
            return M.only({base, "D"})
        if key == "diag":
            return Vec(self, "red", "id", frozenset({("D", "a")}))
        if base == "recip_degrees" and sgn:
            return Mat({r: t and "r" for r, t in M.parts.items()}, self).reduce("plus")
        if base == "total_degrees" and sgn:
            v = M.reduce("count").combine(self, "plus", "|", M.reduce("count", True))
            return v
        if base == "total_recip" and sgn:
            return Mat({r: t and "r" for r, t in M.parts.items()}, self).reduce("plus").scalar("plus", self)
        m = re.fullmatch(r"(\w+)_(rowwise|columnwise|element)([+-])", key)
        if m:
            op, what, _ = m.groups()
            if what == "element":
                v = M.reduce(op)
                v._fresh_count = True
                return v.scalar(op, self)
            return M.reduce(op, what == "columnwise")
        if key.endswith("_diagonal") and key not in self.known:
            v = A.only({"D"}).reduce(key[: -len("_diagonal")])
            v._fresh_count = True
            return v.scalar(key[: -len("_diagonal")], self)
        facts = {
            "has_self_edges": lambda w: w["H"], "has_negative_diagonal": lambda w: w["ND"], "has_negative_edges-": lambda w: w["NO"],
            "has_negative_edges+": lambda w: w["ND"] or w["NO"], "is_iso": lambda w: w["I"],
        }
        if key in facts:
            return self.ask(facts[key])
        if key == "iso_value":
            return IsoVal() if self.ask(lambda w: w["I"]) else None
        return None

    known = {"A", "AT", "offdiag", "U+", "U-", "L+", "L-", "diag", "recip_degrees+", "recip_degrees-", "total_degrees+", "total_degrees-", "total_recip+", "total_recip-", "is_iso", "iso_value",
             "has_negative_diagonal", "has_negative_edges-", "has_negative_edges+", "has_self_edges"}

    def judge(self, key, v, mask=None):
        """None: agrees or not judged; otherwise a description of the disagreement.  Also returns whether it was judged."""
        if isinstance(v, Unk) or isinstance(v, Vec) and v.kind == "unk":
            return None, False
        want = self.definition(key)
        if isinstance(want, bool) or key == "iso_value":
            if isinstance(v, IsoVal) or isinstance(v, bool) or v is None:
                ok = isinstance(v, IsoVal) if isinstance(want, IsoVal) else v is want
                return (None if ok else f"{describe(v)} instead of {describe(want)}"), True
            if isinstance(v, int):
                return (None if bool(v) == want else f"{v} instead of {want}"), True
            if isinstance(want, bool) and isinstance(v, (SLin, SRed)):
                return None, False
            return (f"{describe(v)} instead of {describe(want)}" if v is None or isinstance(v, (Mat, Vec)) else None), True
        if v is None:
            return f"None instead of {want!r}", True
        if not isinstance(v, (Mat, Vec, SLin, SRed)):
            return None, False
        if isinstance(v, Vec) and isinstance(want, Vec):
            if v.mask is not mask:
                return f"{v!r} {'although a mask was given' if mask is not None else 'although no mask was given'}", True
            if v.zeros and v.kind == "lin":
                return f"{v!r} instead of {want!r}", True
        if isinstance(v, (SLin, SRed)) and isinstance(want, (SLin, SRed)) or type(v) is type(want):
            if isinstance(v, SRed) and isinstance(want, SLin) and not v.terms:
                v = SLin({}, self)  # an empty scalar stands for a zero count
            if not self.same(v, want):
                return f"{v!r} instead of {want!r}", True
            return None, True
        return f"{v!r} instead of {want!r}", True


def describe(v):
    return repr(v)


def keys_of(ev, cls):
    gp = cls.lookup(ev, "_get_property")
    lit = list(gp.data) if isinstance(gp, DictInst) else []
    gen = [f"{op}_{w}{s}" for op in OPS for w in ("rowwise", "columnwise", "element") for s in "+-"] + [f"{op}_diagonal" for op in OPS]
    return [k for k in lit if k in Getters.known] + gen, [k for k in lit if k not in Getters.known and not re.search("_(rowwise|columnwise|element)[+-]$|_diagonal$", k)]


ALIASES = {
    "Graph": {f"{p}degrees{s}": f"count_rowwise{s}" for p in ("", "row_", "column_") for s in "+-"},
    "DiGraph": {f"{p}_degrees{s}": f"count_{w}{s}" for p, w in (("row", "rowwise"), ("column", "columnwise")) for s in "+-"},
}


def run(rep):
    tier = os.environ.get("VERIF_TIER", "quick")
    rep.explanation = (
        "Every getter behind get_property/get_properties is evaluated over a denotational domain (which part of A a value holds or counts), with case splits on the graph's facts "
        "(self-edges, negative edges, iso-valued, data type) and on which facts are already remembered; a remembered fact is assumed to equal its definition, and each getter must return "
        "its definition (restricted to the mask when one is given) and leave only correct facts behind. The set of facts that can be remembered is computed as a fixpoint."
    )
    rep.assumptions = [
        "the meaning of the GraphBLAS selections, reductions, unions and intersections used by the getters (algebraic model in c03.py)",
        "A itself is not modified after the graph is made (C01)", "the adjacency matrix of an undirected graph is symmetric (C14)",
    ]
    base = "graphblas_algorithms.classes"
    npaths = 0
    for kind, modname in (("Graph", "graph"), ("DiGraph", "digraph")):
        ev = Getters(rep.repo, kind == "Graph")
        ev.start()
        m = ev.module(f"{base}.{modname}")
        if m is None or kind not in m.defs:
            rep.notes.append(f"{kind} not found")
            continue
        cls = ev.module_name(m, kind)
        next(iter(ev.paths(lambda: None)))
        keys, extra = keys_of(ev, cls)
        aliases = cls.lookup(ev, "_cache_aliases")
        aliases = aliases if isinstance(aliases, dict) else {}
        queries = [(k, k) for k in keys] + [(n, d) for n, d in ALIASES[kind].items()]
        limit = 4000 if tier == "quick" else 40000
        # which facts can be remembered at all: grow until nothing new is cached
        seen_bad = {}
        for rnd in range(6):
            before = set(ev.cacheable)
            ev.wrote = set()
            ev.effects = set()
            bad = {}
            counts = {}
            queries.sort(key=lambda q: q[0] != "has_self_edges")
            for name, key in queries:
                ev.query = name
                ev.modular = rnd > 0 and tier == "quick"
                if name != "has_self_edges" and not ev.effects:
                    ev.effects = set(ev.wrote)
                for masked in (False, True):
                    if masked and not re.search("rowwise|columnwise|degrees|^diag$", key):
                        continue
                    n = 0

                    def run():
                        ev.start()
                        cache = Cache(ev)
                        g = MInst(cls, {"_A": ev.A(), "_cache": cache})
                        mask = Mask() if masked else None
                        fn = cls.lookup(ev, "get_property")
                        try:
                            v = ev.call(fn, [g, name], {"mask": mask} if masked else {}, None)
                            if masked and isinstance(v, Vec) and v.mask == "partial":
                                pass
                            r, j = ev.judge(key, v, mask)
                        except MRaise as e:
                            if e.exc == "AttributeError" or e.exc in ("KeyError", "TypeError", "ValueError"):
                                r, j = f"raises {e.exc}" + (f" {e.xargs[0]!r}" if e.xargs else ""), True
                                r += f" at {loc(e.node)}"
                            else:
                                r, j = None, False
                        except TooDeep:
                            return None
                        out = [(name, r, j, None)]
                        for k, (v, node, f) in cache.written.items():
                            if k in ev.cacheable_names:
                                d, jj = ev.judge(k, v)
                                out.append((f"cache[{k}]", d, jj, (node, f)))
                        return out, list(ev.trail), ev.left

                    ev.cacheable_names = set(Getters.known) | {k for k in keys}
                    for res in ev.paths(run, limit):
                        n += 1
                        if res is None or ev.tainted:
                            continue
                        for what, d, j, at in res[0]:
                            if j:
                                c = f"{kind}: {what} while answering {name}" if at else f"{kind}: {name}{' with mask' if masked else ''}"
                                counts[c] = counts.get(c, 0) + 1
                                if d and c not in bad:
                                    w = res[2][0] if res[2] else {}
                                    bad[c] = (d, res[1], w, at, key)
                    npaths += n
                if os.environ.get('C03_DEBUG'):
                    print(rnd, kind, name, masked, n)
            ev.cacheable = {k for k in ev.wrote if k in ev.cacheable_names}
            if ev.cacheable == before:
                break
        for c in counts:
            rep.ob("derived-fact", c, n=counts[c])
            rep.ob("judged-query")
        for c, (d, trail, w, at, key) in bad.items():
            have = ", ".join(trail) or "nothing cached"
            facts = f"self-edges: {'yes' if w.get('H') else 'no'}"
            site = loc(at[0]) if at else None
            rep.viol("derived-fact", c, f"{d}; state: {have}; {facts}" + (f"; written in {at[1].name} line {site}" if at and at[1] else ""), modfile(at, modname))
        rep.functions |= ev.funcs
        rep.notes.append(f"{kind}: facts that can be remembered: {', '.join(sorted(ev.cacheable))}; names not judged: {', '.join(extra) or 'none'}")
        many(rep, ev, cls, kind)
    rep.notes.append(f"{npaths} abstract paths")
    rep.floor("judged-query", 60)


def loc(n):
    return getattr(n, "lineno", "?")


def modfile(at, modname):
    if at and at[1]:
        return [f"{at[1].mod.path.name}:{loc(at[0])} in {at[1].name}"]
    return [f"{modname}.py"]


def many(rep, ev, cls, kind):
    """get_properties returns the facts in the order they were asked for."""
    names = ["A", "has_self_edges", "diag", "AT", "offdiag", "U-", "L-", "count_rowwise+", "count_rowwise-", "min_element+", "plus_rowwise+", "row_degrees-", "column_degrees+", "has_negative_edges+", "iso_value", "U+"]
    full = {**ALIASES[kind]}
    tests = []
    for i, a in enumerate(names):
        b = names[(i * 5 + 3) % len(names)]
        tests.append([a, b])
        tests.append([b, a])
    tests.append(["has_self_edges", "diag", "A"])
    fn = cls.lookup(ev, "get_properties")
    bad = None
    n = 0
    for t in tests:
        for form in (" ".join(t), ", ".join(t), list(t)):
            def run():
                ev.start()
                cache = Cache(ev)
                g = MInst(cls, {"_A": ev.A(), "_cache": cache})
                old, ev.cacheable = ev.cacheable, set()
                try:
                    v = ev.call(fn, [g, form], {}, None)
                    if not isinstance(v, (list, tuple)) or len(v) != len(t):
                        return (f"{len(v)} results for {len(t)} names" if isinstance(v, (list, tuple)) else None), isinstance(v, (list, tuple))
                    for nm, x in zip(t, v):
                        d, j = ev.judge(full.get(nm, nm), x)
                        if d:
                            return f"{nm}: {d}", True
                    return None, True
                except MRaise as e:
                    return f"raises {e.exc}", True
                except TooDeep:
                    return None, False
                finally:
                    ev.cacheable = old
            for d, j in ev.paths(run, 50):
                if ev.tainted:
                    continue
                n += j
                if d and bad is None:
                    bad = (form, d)
    rep.ob("many-facts", f"{kind}: get_properties", n=n)
    if bad:
        rep.viol("many-facts", f"{kind}: get_properties", f"asked for {bad[0]!r}: {bad[1]}")
