"""Polynomials with rational coefficients over named non-negative integers, and floor/ceiling terms over them."""
from __future__ import annotations

from fractions import Fraction

from .mini import Abs, Unk


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def var(x):
        return Poly({(x,): Fraction(1)})

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                m = tuple(sorted(a + b, key=repr))
                t[m] = t.get(m, 0) + x * y
        return Poly(t)

    def is_const(self):
        return all(m == () for m in self.t)

    def value(self):
        return self.t.get((), Fraction(0))

    def vars(self):
        return {v for m in self.t for v in m}

    def subst(self, x, p):
        out = Poly()
        for m, c in self.t.items():
            q = Poly.const(c)
            for v in m:
                q = q * (p if v == x else Poly.var(v))
            out = out + q
        return out

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def positive(self, lows, strict=True):
        """Provably > 0 (>= 0 if not strict) when every variable v is at least lows.get(v, 0)."""
        p = self
        for v in sorted(self.vars(), key=repr):
            lo = lows.get(v, 0)
            if lo:
                p = p.subst(v, Poly.var(v) + Poly.const(lo))
        if any(c < 0 for m, c in p.t.items()):
            return False
        return p.value() > 0 if strict else True

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: repr(x[0])):
            s = "*".join(map(str, m))
            out.append(f"{c}" if not s else s if c == 1 else f"{c}*{s}")
        return " + ".join(out)
