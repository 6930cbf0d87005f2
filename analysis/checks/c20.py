"""Chunked and unchunked computation agree.

1. The splitting helpers: an abstract interpretation with one ghost variable, the end of the prefix of the input that has
   been yielded.  Every piece must start where the prefix ends, the prefix must reach the end of the input, pieces must
   not be empty.  Indices are polynomials (and floors of quotients) over the input length, the chunk size and the loop
   counter; loops are summarised by the equalities they preserve.
2. The functions with a chunk size: every route (all at once, one at a time, in chunks) is evaluated symbolically and
   must report the same thing: for a node x, the row computed for x by the same algorithm with the same other arguments.
"""
from __future__ import annotations

import ast
import os
from fractions import Fraction

from ..mini import Abs, BUILTINS, Domain, Ext, Frame, MBound, MClass, MFunc, MInst, Mini, MRaise, Prim, TooDeep, Unk, _Break, _Continue
from ..poly import Poly

# ------------------------------------------------------------------------------------------------ 1. splitting helpers


class Dead(Exception):
    """The path ends here (a loop iteration has been checked)."""


class P(Abs):
    """An integer: a polynomial."""

    def __init__(self, p):
        self.p = p

    def truth(self, ev, node):
        return ev.decide("!=", self.p, node)

    def binop(self, ev, op, other, swapped, node):
        o = poly(other)
        if o is None:
            if isinstance(other, Quot) and op in "+-*":
                return Opaque(f"({other!r} {op} {self!r})")
            return Unk(op)
        a, b = (o, self.p) if swapped else (self.p, o)
        if op == "+":
            return P(a + b)
        if op == "-":
            return P(a - b)
        if op == "*":
            return P(a * b)
        if op in ("//", "/"):
            return Quot(a, b, "floor" if op == "//" else "true")
        if op == "%":
            return Rem(a, b)
        return Unk(op)

    def unop(self, ev, op, node):
        return P(-self.p) if op == "-" else self if op == "+" else Unk(op)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (op == "is") == (other is self) if other is not None else op == "is not"
        o = poly(other)
        if o is None:
            if isinstance(other, Abs) and not isinstance(other, Unk):
                return ev.relate(op, self, other, node)
            return Unk(op)
        return ev.decide(op, self.p - o, node)

    def attr(self, ev, name, node):
        return Unk(name)

    def __repr__(self):
        return repr(self.p)


class Quot(Abs):
    """floor/ceil/true quotient of polynomials"""

    def __init__(self, num, den, kind):
        self.num, self.den, self.kind = num, den, kind

    def key(self):
        return (self.num, self.den, self.kind)

    def truth(self, ev, node):
        return ev.relate("!=", self, 0, node)

    def binop(self, ev, op, other, swapped, node):
        o = poly(other)
        if o is not None and op == "*" and self.kind != "true" and o == self.den:
            return Mult(self)
        if o is not None and op in "+-" and self.kind in ("floor", "ceil") and not (swapped and op == "-"):
            return Quot(self.num + (o if op == "+" else -o) * self.den, self.den, self.kind)
        if o is not None and op == "*":
            return ScaledQuot(self, o)
        return Opaque(op)

    def unop(self, ev, op, node):
        if op == "-" and self.kind in ("floor", "ceil"):
            return Quot(-self.num, self.den, "ceil" if self.kind == "floor" else "floor")
        return Opaque(op)

    def compare(self, ev, op, other, swapped, node):
        return ev.relate(op, self, other, node)

    def __repr__(self):
        return f"{self.kind}(({self.num!r})/({self.den!r}))"


class ScaledQuot(Quot):
    def __init__(self, q, by):
        super().__init__(q.num * by, q.den, "scaled")
        self.q, self.by = q, by


class Mult(Abs):
    """quotient * divisor: equals the dividend exactly when it divides"""

    def __init__(self, q):
        self.q = q

    def compare(self, ev, op, other, swapped, node):
        o = poly(other)
        if o is not None and o == self.q.num and op in ("==", "!="):
            r = ev.choose([True, False], ("divides", repr(self.q)))
            if (op == "==") == r:
                ev.divides.append((self.q.den, self.q.num))
                return True if op == "==" else True
            return False
        return ev.choose([True, False], ("mult", op, repr(self.q)))

    def truth(self, ev, node):
        return ev.choose([True, False], "mult")


class Rem(Abs):
    def __init__(self, num, den):
        self.num, self.den = num, den

    def truth(self, ev, node):
        r = ev.choose([True, False], ("rem", repr(self.num), repr(self.den)))
        if not r:
            ev.divides.append((self.den, self.num))
        return r

    def compare(self, ev, op, other, swapped, node):
        if other == 0 and op in ("==", "!="):
            return self.truth(ev, node) == (op == "!=")
        return Unk(op)


class Opaque(Abs):
    def __init__(self, why):
        self.why = why

    def truth(self, ev, node):
        return ev.choose([True, False], ("opaque", self.why))

    def binop(self, ev, op, other, swapped, node):
        return Opaque(op)

    def compare(self, ev, op, other, swapped, node):
        return ev.relate(op, self, other, node)

    def __repr__(self):
        return f"<{self.why}>"


def poly(x):
    if isinstance(x, P):
        return x.p
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return Poly.const(x)
    if isinstance(x, float) and x == int(x):
        return Poly.const(int(x))
    return None


class Seq(Abs):
    """The list to split: length N."""

    def length(self, ev, node):
        return P(ev.N)

    def truth(self, ev, node):
        return ev.decide("!=", ev.N, node)

    def getitem(self, ev, key, node):
        if isinstance(key, slice):
            if key.step is not None and key.step != 1:
                return Unk("step")
            return Piece(key.start if key.start is not None else 0, key.stop if key.stop is not None else P(ev.N))
        return ElemAt(key)

    def iterate(self, ev, node):
        return None

    def attr(self, ev, name, node):
        if name in ("copy", "tolist"):
            return Prim(lambda *a: self)
        if name == "size":
            return P(ev.N)
        return Unk(name)

    def compare(self, ev, op, other, swapped, node):
        if op in ("is", "is not"):
            return (self is other) == (op == "is")
        return Unk(op)


class ElemAt(Abs):
    def __init__(self, i):
        self.i = i


class Piece(Abs):
    """L[a:b]"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def length(self, ev, node):
        x, y = poly(self.a), poly(self.b)
        return P(y - x) if x is not None and y is not None else Opaque("len")

    def truth(self, ev, node):
        return ev.choose([True, False], "piece")

    def getitem(self, ev, key, node):
        if isinstance(key, slice) and key.step in (None, 1) and key.stop is None:
            a, d = poly(self.a), poly(key.start if key.start is not None else 0)
            if a is not None and d is not None:
                return Piece(P(a + d), self.b)
        if isinstance(key, slice) and key.step in (None, 1) and key.stop is not None:
            a, d, e = poly(self.a), poly(key.start if key.start is not None else 0), poly(key.stop)
            if None not in (a, d, e):
                return Piece(P(a + d), P(a + e))
        return Unk("piece")


class Range(Abs):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Pairs(Abs):
    """consecutive pairs of a range"""

    def __init__(self, r):
        self.r = r


class SplitEv(Mini):
    def begin(self):
        self.lows = dict(self.base_lows)
        self.facts = []  # (op, poly): poly op 0
        self.rel = []  # (op, key, key) over non-polynomial terms
        self.divides = []
        self.cursor = 0
        self.problems = []
        self.judged = 0
        self.fresh = 0

    # relations between integers
    def decide(self, op, d, node):
        """Truth of `d op 0`; splits if not known, remembering the answer."""
        if d.is_const():
            v = d.value()
            return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
        for a, b in ((">", "<="), ("<", ">="), ("==", "!=")):
            for yes, no in ((a, b), (b, a)):
                if op == yes and self.known(yes, d):
                    return True
                if op == yes and self.known(no, d):
                    return False
        r = self.choose([True, False], (op, repr(d)))
        neg = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}
        self.learn(op if r else neg[op], d)
        return r

    def learn(self, op, d):
        self.facts.append((op, d))
        # lower bounds of single variables
        if op in (">", ">=", "<", "<="):
            e = d if op in (">", ">=") else -d
            vs = list(e.vars())
            if len(vs) == 1 and e.t.get((vs[0],)) == 1 and set(e.t) <= {(), (vs[0],)}:
                lo = -e.value() + (1 if op in (">", "<") else 0)
                self.lows[vs[0]] = max(self.lows.get(vs[0], 0), lo)
            if not self.feasible(e, op in (">", "<")):
                raise Dead
        if op == "!=":
            vs = list(d.vars())
            if len(vs) == 1 and set(d.t) <= {(), (vs[0],)} and abs(d.t[(vs[0],)]) == 1 and -d.value() / d.t[(vs[0],)] == self.lows.get(vs[0], 0):
                self.lows[vs[0]] = self.lows.get(vs[0], 0) + 1

    def feasible(self, e, strict):
        return not (-e).positive(self.lows, not strict)

    def known(self, op, d):
        if op == ">":
            return self.sgn(d, True)
        if op == ">=":
            return self.sgn(d, False)
        if op == "<":
            return self.sgn(-d, True)
        if op == "<=":
            return self.sgn(-d, False)
        if op == "==":
            return any(o == "==" and (f == d or f == -d) for o, f in self.facts)
        return any(o == "!=" and (f == d or f == -d) for o, f in self.facts) or self.sgn(d, True) or self.sgn(-d, True)

    def sgn(self, d, strict):
        if d.positive(self.lows, strict):
            return True
        # one known inequality may help: d = f + rest
        for o, f in self.facts:
            g, s = {">": (f, True), ">=": (f, False), "<": (-f, True), "<=": (-f, False)}.get(o, (None, None))
            if g is None:
                continue
            r = d - g
            one = Poly.const(1) if s else Poly()
            if (r + one).positive(self.lows, strict):
                return True
        return False

    def relate(self, op, a, b, node):
        """Comparison that involves quotients."""
        if op in ("==", "!=") and same(a, b):
            return op == "=="
        ka, kb = key(a), key(b)
        for o, x, y in self.rel:
            if (x, y) in ((ka, kb), (kb, ka)) and op in ("==", "!=") and o in ("==", "!="):
                return o == op
        # quotient against integer: floor(n/d) <= c etc. when provable
        if isinstance(a, Quot) and a.kind in ("floor", "ceil", "true") and poly(b) is not None:
            c = poly(b)
            lo = c * a.den - a.num
            if op in ("<=", "<") and self.sgn(lo, op == "<"):
                return True
            if op in (">=", ">") and self.sgn(-lo, op == ">"):
                return True
        r = self.choose([True, False], ("rel", op, repr(ka), repr(kb)))
        neg = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}
        self.rel.append((op if r else neg[op], ka, kb))
        return r

    # yielding pieces
    def yield_(self, e, fr):
        env = fr
        if isinstance(e, ast.YieldFrom):
            v = self.eval(e.value, fr)
            if isinstance(v, Seq):
                self.emit(0, P(self.N), e, every=True)
            elif isinstance(v, Tiling):
                self.emit(v.a, v.b, e, every=True)
            elif isinstance(v, list) and all(isinstance(x, Piece) for x in v):
                for x in v:
                    self.emit(x.a, x.b, e)
            else:
                self.tainted = True
            return
        v = self.eval(e.value, fr) if e.value is not None else None
        if isinstance(v, Seq):
            self.emit(0, P(self.N), e)
        elif isinstance(v, Piece):
            self.emit(v.a, v.b, e)
        else:
            self.tainted = True

    def emit(self, a, b, node, every=False):
        self.judged += 1
        where = getattr(node, "lineno", "?")
        eq = self.equal(a, self.cursor)
        if eq is False:
            self.problems.append((f"line {where}: a piece starts at {a!r} although the input has been covered up to {self.cursor!r}", where))
        elif eq is None:
            self.tainted = True
        if not every:
            e = self.empty(a, b)
            if e:
                self.problems.append((f"line {where}: a piece may be empty ({e})", where))
        self.cursor = b

    def equal(self, a, b):
        """True / False (definitely different for some input) / None"""
        if same(a, b):
            return True
        x, y = poly(a), poly(b)
        if x is not None and y is not None:
            d = x - y
            if d == Poly() or self.known("==", d):
                return True
            return False if d.is_const() or self.known("!=", d) or self.free(d) else None
        eqs = [(k1, k2) for o, k1, k2 in self.rel if o == "=="] + [(("p", f.subst("", f)), ("p", Poly())) for o, f in self.facts if o == "=="]
        reach, todo = {key(a)}, [key(a)]
        while todo:
            z = todo.pop()
            for k1, k2 in eqs:
                for u, w in ((k1, k2), (k2, k1)):
                    if u == z and w not in reach:
                        reach.add(w)
                        todo.append(w)
        if key(b) in reach:
            return True
        qa, qb = (a if isinstance(a, Quot) else None), (b if isinstance(b, Quot) else None)
        if qa and qb and qa.kind == qb.kind and qa.den == qb.den:
            return False  # the same quotient shifted
        return None

    def free(self, d):
        """A nonzero polynomial in the free sizes N, k, chunksize takes a nonzero value unless some fact forbids it."""
        return d.vars() <= set(self.base_lows) and not any(o == "==" for o, f in self.facts) and not self.divides

    def empty(self, a, b):
        x, y = poly(a), poly(b)
        if x is not None and y is not None:
            if self.sgn(x - y, False):
                return f"L[{a!r}:{b!r}]"
            return None
        for o, k1, k2 in self.rel:
            if o in ("!=", "<", ">") and {k1, k2} == {key(a), key(b)}:
                return None
        if isinstance(b, Quot) and isinstance(a, Head) and b.kind in ("floor", "ceil"):
            i = self.counter
            if i is None:
                return None
            d = b.num - b.num.subst(i, Poly.var(i) - Poly.const(1))
            if self.sgn(b.den - d, True) or not self.sgn(d - b.den, False):
                return f"nothing says that {b!r} grows in every step"
        return None

    counter = None

    # loops
    def stmt(self, s, fr):
        if isinstance(s, ast.For):
            it = self.eval(s.iter, fr)
            if isinstance(it, (Range, Pairs)):
                return self.for_(s, it, fr)
            if isinstance(it, (Seq, Unk, Abs)):
                self.tainted = True
                raise Dead
            return self.plain_for(s, it, fr)
        if isinstance(s, ast.While):
            return self.while_(s, fr)
        return super().stmt(s, fr)

    def plain_for(self, s, it, fr):
        for x in self.items(it, s.iter):
            self.assign(s.target, x, fr)
            try:
                self.exec(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.exec(s.orelse, fr)

    def assigned(self, s):
        out = set()
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        return out

    def has_yield(self, s):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(ast.Module(s.body, [])))

    def for_(self, s, it, fr):
        r = it.r if isinstance(it, Pairs) else it
        n1 = self.fresh = self.fresh + 1
        if isinstance(it, Pairs):
            return self.pairs(s, r, fr)
        # zero iterations?
        if not self.known("<", r.lo - r.hi):
            if self.known(">=", r.lo - r.hi) or self.choose([True, False], ("zero", n1)):
                self.learn(">=", r.lo - r.hi)
                self.exec(s.orelse, fr)
                return
            self.learn("<", r.lo - r.hi)
        last = self.choose([False, True], ("last", n1))
        i = f"{ast.unparse(s.target)}'"
        self.lows.pop(i, None)
        iv = Poly.var(i)
        old_counter, self.counter = self.counter, i
        if r.lo.is_const():
            self.lows[i] = int(r.lo.value())
        first = False
        if r.step == Poly.const(1):
            self.facts.append(("<", iv - r.hi))
            self.facts.append((">=", iv - r.lo))
        self.assign(s.target, P(iv), fr)
        broke = self.body(s, fr, n1)
        if not last and not broke:
            raise Dead
        self.counter = old_counter
        if not broke:
            if r.step == Poly.const(1):
                self.at_last(fr, i, r.hi - Poly.const(1))
            self.exec(s.orelse, fr)

    def at_last(self, fr, i, v):
        def sub(x):
            if isinstance(x, P):
                return P(x.p.subst(i, v))
            if isinstance(x, Quot) and type(x) is Quot:
                return Quot(x.num.subst(i, v), x.den, x.kind)
            return x

        for k in list(fr.vars):
            fr.vars[k] = sub(fr.vars[k])
        self.cursor = sub(self.cursor)
        self.rel = [(o, subkey(a, i, v), subkey(b, i, v)) for o, a, b in self.rel]
        self.facts = [(o, f.subst(i, v)) for o, f in self.facts]

    def body(self, s, fr, n1):
        """One arbitrary iteration from the state the loop keeps; True if it left the loop."""
        names = self.assigned(s) - {n.id for n in ast.walk(getattr(s, "target", ast.Constant(0))) if isinstance(n, ast.Name)}
        site = (s.lineno, s.col_offset)
        dropped = self.dropped.setdefault(site, set())
        at = {}
        head = Head(site)
        follows = self.has_yield(s)
        for x in names:
            v = fr.vars.get(x)
            if follows and x not in dropped and v is not None and self.equal(v, self.cursor) is True:
                at[x] = head
        for x in names:
            fr.vars[x] = at.get(x, Off(head, x) if (site, x) in self.definite else Opaque(f"{x} at line {s.lineno}")) if x in fr.vars else Unk(x)
        if follows:
            self.cursor = head
        broke = False
        try:
            self.exec(s.body, fr)
        except _Break:
            broke = True
        except _Continue:
            pass
        if not broke:
            self.drop(site, at, dropped, fr)
        return broke

    def drop(self, site, at, dropped, fr):
        for x in at:
            e = self.equal(fr.vars.get(x), self.cursor)
            if e is not True:
                dropped.add(x)
                if e is False:
                    self.definite.add((site, x))
                self.again = True

    def while_(self, s, fr):
        n1 = self.fresh = self.fresh + 1
        if not self.truth(self.eval(s.test, fr), s.test):
            self.exec(s.orelse, fr)
            return
        more = self.choose([True, False], ("more", n1))
        names = self.assigned(s)
        site = (s.lineno, s.col_offset)
        dropped = self.dropped.setdefault(site, set())
        v = f"p{s.lineno}"
        at = {}
        for x in names:
            w = fr.vars.get(x)
            if self.has_yield(s) and x not in dropped and w is not None and self.equal(w, self.cursor) is True:
                at[x] = True
        start = self.cursor
        if at:
            # the common value of the cursor and those variables, an arbitrary position
            self.lows[v] = 0
            for x in names:
                fr.vars[x] = P(Poly.var(v)) if x in at else Opaque(x)
            self.cursor = P(Poly.var(v))
        else:
            self.cursor = Head(site)
            for x in names:
                fr.vars[x] = Off(self.cursor, x) if (site, x) in self.definite else Opaque(x)
        if not self.truth(self.eval(s.test, fr), s.test):
            raise Dead
        broke = False
        try:
            self.exec(s.body, fr)
        except _Break:
            broke = True
        except _Continue:
            pass
        if broke:
            return
        self.drop(site, at, dropped, fr)
        if self.truth(self.eval(s.test, fr), s.test):
            raise Dead
        self.exec(s.orelse, fr)

    def pairs(self, s, r, fr):
        """for start, stop in pairwise(range(lo, hi, step)): body"""
        if not (isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2):
            self.tainted = True
            raise Dead
        self.judged += 1
        # the body yields exactly L[start:stop]?
        a, b = Mark("start"), Mark("stop")
        self.assign(s.target, (a, b), fr)
        keep, self.cursor = self.cursor, a
        n = len(self.problems)
        self.exec(s.body, fr)
        if not same(self.cursor, b):
            if isinstance(self.cursor, Mark) or poly(self.cursor) is not None:
                self.problems.append((f"line {s.lineno}: an iteration over [start, stop) does not yield exactly that piece", s.lineno))
            else:
                self.tainted = True
        eq = self.equal(P(r.lo), keep)
        if eq is False:
            self.problems.append((f"line {s.lineno}: pieces start at {r.lo!r} instead of {keep!r}", s.lineno))
        # the range ends at or after N
        if self.known(">=", r.hi - r.step - self.N):
            self.cursor = P(self.N)
        elif any(den == r.step and num == self.N for den, num in self.divides) and self.known(">", r.hi - self.N):
            self.cursor = P(self.N)
        elif self.known("<=", r.hi - self.N):
            self.cursor = P(r.hi - Poly.const(1))
            self.problems.append((f"line {s.lineno}: the last bound of range({r.lo!r}, {r.hi!r}, {r.step!r}) is below the length of the input", s.lineno))
            self.cursor = P(self.N)
        elif self.known("<", r.hi - r.step - self.N):
            self.problems.append((f"line {s.lineno}: the bounds range({r.lo!r}, {r.hi!r}, {r.step!r}) need not reach the length of the input", s.lineno))
            self.cursor = P(self.N)
        else:
            self.tainted = True
        # last piece starts below N: hi - 1 - step < N
        if self.known(">", r.hi - Poly.const(1) - r.step - self.N + Poly.const(1)):
            self.problems.append((f"line {s.lineno}: the last piece may be empty", s.lineno))
        self.exec(s.orelse, fr)


class Head(Abs):
    """The end of the covered prefix when an iteration starts."""

    def __init__(self, site):
        self.site = site

    def compare(self, ev, op, other, swapped, node):
        return ev.relate(op, self, other, node)

    def binop(self, ev, op, other, swapped, node):
        o = poly(other)
        if o is not None and op in "+-" and not swapped:
            return Shift(self, o if op == "+" else -o)
        return Opaque(op)

    def truth(self, ev, node):
        return ev.relate("!=", self, 0, node)

    def __repr__(self):
        return "the end of the previous piece"


class Off(Abs):
    """A variable that an iteration can leave different from the end of the covered prefix."""

    def __init__(self, h, name):
        self.h, self.name = h, name

    def compare(self, ev, op, other, swapped, node):
        return ev.relate(op, self, other, node)

    def binop(self, ev, op, other, swapped, node):
        return Opaque(op)

    def truth(self, ev, node):
        return ev.relate("!=", self, 0, node)

    def __repr__(self):
        return f"{self.name} as the previous iteration left it"


class Shift(Abs):
    def __init__(self, h, d):
        self.h, self.d = h, d

    def compare(self, ev, op, other, swapped, node):
        return ev.relate(op, self, other, node)

    def binop(self, ev, op, other, swapped, node):
        o = poly(other)
        if o is not None and op in "+-" and not swapped:
            return Shift(self.h, self.d + (o if op == "+" else -o))
        return Opaque(op)

    def __repr__(self):
        return f"{self.h!r} + {self.d!r}"


class Mark(Abs):
    def __init__(self, name):
        self.name = name

    def compare(self, ev, op, other, swapped, node):
        return ev.relate(op, self, other, node)

    def binop(self, ev, op, other, swapped, node):
        o = poly(other)
        if o is not None and op in "+-" and not swapped:
            return Shift(self, o if op == "+" else -o)
        return Opaque(op)

    def __repr__(self):
        return self.name


class Tiling(Abs):
    """Result of another splitter applied to a piece of the input."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def iterate(self, ev, node):
        return None


def key(x):
    if isinstance(x, P):
        return ("p", x.p)
    if poly(x) is not None:
        return ("p", poly(x))
    if type(x) is Quot:
        return ("q",) + x.key()
    if isinstance(x, Shift):
        return ("s", key(x.h), x.d)
    return ("o", id(x))


def subkey(k, i, v):
    if k[0] == "p":
        return ("p", k[1].subst(i, v))
    if k[0] == "q":
        return ("q", k[1].subst(i, v), k[2].subst(i, v), k[3])
    return k


def same(a, b):
    return a is b or key(a) == key(b)


_eq0 = SplitEv.equal


def _equal(self, a, b):
    if isinstance(a, Off) and isinstance(b, Head) and a.h is b:
        return False
    if isinstance(a, Shift) and isinstance(b, (Shift, Head, Mark)) or isinstance(b, Shift) and isinstance(a, (Head, Mark)):
        ha, da = (a.h, a.d) if isinstance(a, Shift) else (a, Poly())
        hb, db = (b.h, b.d) if isinstance(b, Shift) else (b, Poly())
        if ha is hb:
            d = da - db
            return True if d == Poly() else False if d.is_const() or self.known("!=", d) else None
        return None
    if isinstance(a, Shift) and isinstance(b, Quot) or isinstance(b, Shift) and isinstance(a, Quot):
        return None
    if isinstance(a, Mark) and isinstance(b, Mark):
        return a is b
    r = _eq0(self, a, b)
    if r is None and isinstance(a, Head) is not isinstance(b, Head) and (poly(a) is not None or poly(b) is not None):
        return None
    return r


SplitEv.equal = _equal


class SplitDom(Domain):
    def __init__(self, names):
        self.splitters = names

    def ext_call(self, ev, name, args, kwargs, node):
        last = name.split(".")[-1]
        if last in ("pairwise",):
            return Pairs(args[0]) if isinstance(args[0], Range) else Unk("pairwise")
        if last == "ceil":
            x = args[0]
            if isinstance(x, Quot) and x.kind == "true":
                return Quot(x.num, x.den, "ceil")
            return x if isinstance(x, P) else Opaque("ceil")
        if last == "floor":
            x = args[0]
            if isinstance(x, Quot) and x.kind == "true":
                return Quot(x.num, x.den, "floor")
            return x if isinstance(x, P) else Opaque("floor")
        return Unk(name)

    def intercept(self, ev, f, args, kwargs, node):
        if f.name == "pairwise" and args and isinstance(args[0], Range):
            return (Pairs(args[0]),)
        if ev.depth and f.name in self.splitters:
            for x in list(args) + list(kwargs.values()):
                if isinstance(x, Seq):
                    return (Tiling(0, P(ev.N)),)
                if isinstance(x, Piece):
                    return (Tiling(x.a, x.b),)
        return None

    def range(self, ev, args, node):
        ps = [poly(x) for x in args]
        if any(isinstance(x, Abs) for x in args):
            if None in ps:
                return None
            lo, hi, st = (Poly.const(0), ps[0], Poly.const(1)) if len(ps) == 1 else (ps[0], ps[1], ps[2] if len(ps) > 2 else Poly.const(1))
            return Range(lo, hi, st)
        return None


def to_int(ev, a, k, n):
    x = a[0]
    if isinstance(x, P):
        return x
    if isinstance(x, Quot) and x.kind == "true":
        return Quot(x.num, x.den, "floor")
    if isinstance(x, Abs):
        return x if isinstance(x, (Quot, Opaque)) else Unk("int")
    return int(x) if isinstance(x, (int, float)) else Unk("int")


def divmod_(ev, a, k, n):
    x, y = poly(a[0]), poly(a[1])
    if x is None or y is None:
        return Unk("divmod")
    return (Quot(x, y, "floor"), Rem(x, y))


def minmax(which):
    def f(ev, a, k, n):
        if len(a) == 2:
            c = ev.compare("<=", a[0], a[1], n)
            if isinstance(c, Unk):
                return Opaque(which)
            le = ev.truth(c, n)
            return a[0] if le == (which == "min") else a[1]
        return Opaque(which)

    return f


def find_splitters(ev):
    """Generator functions that yield slices (or all) of one of their parameters."""
    out = []
    for path in sorted((ev.root / "graphblas_algorithms").rglob("*.py")):
        if "tests" in path.parts:
            continue
        rel = path.relative_to(ev.root).with_suffix("")
        name = ".".join(rel.parts)
        m = ev.module(name[: -len(".__init__")] if name.endswith(".__init__") else name)
        if m is None:
            continue
        for d in m.tree.body:
            if not isinstance(d, ast.FunctionDef):
                continue
            params = [a.arg for a in d.args.posonlyargs + d.args.args]
            for n in ast.walk(d):
                if isinstance(n, ast.Yield) and isinstance(n.value, ast.Subscript) and isinstance(n.value.slice, ast.Slice) and isinstance(n.value.value, ast.Name) and n.value.value.id in params:
                    out.append((m, d, n.value.value.id))
                    break
    return out


def splitters(rep):
    ev = SplitEv(rep.repo, None)
    names = {}
    ev.domain = SplitDom(names)
    found = find_splitters(ev)
    for m, d, p in found:
        names[d.name] = p
    saved = {k: BUILTINS.get(k) for k in ("int", "divmod", "min", "max")}
    BUILTINS.update(int=Prim(to_int, "int"), divmod=Prim(divmod_), min=Prim(minmax("min")), max=Prim(minmax("max")))
    try:
        for m, d, seqname in found:
            params = [a.arg for a in d.args.posonlyargs + d.args.args]
            kwonly = [a.arg for a in d.args.kwonlyargs]
            ev.N = Poly.var("N")
            ev.base_lows = {"N": 0}
            args = []
            for x in params:
                if x == seqname:
                    args.append(Seq())
                else:
                    ev.base_lows[x] = -(10**9)
                    args.append(P(Poly.var(x)))
            f = ev.module_name(m, d.name)
            probs, judged, paths = {}, 0, 0
            for flags in ([{k: b for k in kwonly} for b in (True, False)] if kwonly else [{}]):
                ev.dropped, ev.definite = {}, set()
                for rnd in range(6):
                    ev.again = False
                    probs_r, judged, paths = {}, 0, 0
                    for res in ev.paths(lambda: one_split(ev, f, args, flags), 5000):
                        paths += 1
                        if ev.tainted or res is None:
                            continue
                        judged += res[1]
                        for msg, line in res[0]:
                            probs_r.setdefault(msg, line)
                    if not ev.again:
                        break
                probs.update(probs_r)
            rep.ob("split-path", d.name, n=max(judged, 0))
            rep.ob("splitter", f"{m.name}.{d.name}", n=1)
            for msg, line in probs.items():
                rep.viol("tiling", f"{d.name}: {msg.split(': ', 1)[-1]}", msg, [f"{m.path.name}:{line} in {d.name}"])
            rep.functions.add((m.name, d.name))
    finally:
        for k, v in saved.items():
            if v is None:
                BUILTINS.pop(k, None)
            else:
                BUILTINS[k] = v
    rep.floor("splitter", 1)
    return set(names)


def one_split(ev, f, args, flags):
    ev.begin()
    for x in ev.base_lows:
        ev.lows[x] = ev.base_lows[x]
    try:
        ev.call(f, list(args), dict(flags), None)
    except Dead:
        return ev.problems, ev.judged
    except (TooDeep, MRaise):
        return None
    except (AttributeError, TypeError, KeyError, IndexError, ValueError):
        if os.environ.get('C20_DEBUG'):
            raise
        return None
    # the end: the cursor has reached N
    if ev.known("==", ev.N) or ev.known("<=", ev.N):
        ok = True
    else:
        ok = ev.equal(ev.cursor, P(ev.N))
        if ok is None and isinstance(ev.cursor, P) and ev.known(">=", ev.cursor.p - ev.N):
            ok = True
        if ok is None:
            ok = covered(ev)
        if ok is None:
            ok = unreached(ev)
    if ok is None:
        ev.tainted = True
        return None
    ev.judged += 1
    if not ok:
        ev.problems.append((f"the input is covered only up to {ev.cursor!r}", f.node.lineno))
    return ev.problems, ev.judged


def covered(ev):
    """What the path has tested about the cursor: at or above N is enough; at or above N - 1 only is not."""
    k, seen = key(ev.cursor), None
    for o, a, b in ev.rel:
        if b == k:
            o, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o), b, a
        if a != k or b[0] != "p":
            continue
        d = b[1] - ev.N
        if not d.is_const():
            continue
        v = d.value() + (1 if o == ">" else 0)
        if o in (">=", ">", "=="):
            if v >= 0:
                return True
            seen = False
        elif o != "!=":
            return None
    return seen


def unreached(ev):
    """The cursor is a floor/ceiling: False if it can be below N."""
    c = ev.cursor
    if isinstance(c, Quot) and c.kind in ("floor", "ceil"):
        # floor(num/den) == N  <=  N*den <= num < (N+1)*den ; ceil: (N-1)*den < num <= N*den
        lo = c.num - ev.N * c.den
        if c.kind == "floor":
            if ev.sgn(lo, False) and ev.sgn(c.den - lo, True):
                return True
            if ev.sgn(-lo, True):
                return False
        else:
            if ev.sgn(-lo, False) and ev.sgn(lo + c.den, True):
                return True
            if ev.sgn(-lo - c.den, False):
                return False
            # num <= N*den - something positive and the quotient can stay below: decided only when provable
        d = lo if c.kind == "floor" else lo
    return None


def run(rep):
    rep.explanation = "Splitting helpers: ghost-cursor abstract interpretation (contiguous, complete, non-empty). Chunked functions: symbolic evaluation of every route and comparison of what they report per node."
    rep.assumptions += ["a NodeNodeMap built from a matrix gives, for a node, the row with the node's number", "an algorithm called with nodes=L has row i for L[i] (numbering is property C09)"]
    names = splitters(rep)
    from . import c20b

    c20b.run(rep, names)
