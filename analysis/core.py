"""Abstract values, heap records and states of the interpreter.

A value (V) is a tuple of atoms, the alternatives it may be.  Atoms are immutable; mutable things live in the
heap (State.heap: oid -> HObj).  Every atom carries `deps`, the labels of the inputs that may have
decided it.  Labels are strings: "<root>.struct", "<root>.vals", "<root>.n", "<root>.dtype", "param:<name>"...
A leading "?" marks a label that went through an operation the model does not know exactly.
"""
from __future__ import annotations

NO = frozenset()


class Nothing(int):
    """0, because the run assumes that there are no nodes or edges."""





def maybe(labels):
    """Demote labels to uncertain ones."""
    return frozenset(x if x.startswith("?") else "?" + x for x in labels)


def strip(labels):
    return frozenset(x[1:] if x.startswith("?") else x for x in labels)


class Atom:
    __slots__ = ("deps",)

    def key(self):
        raise NotImplementedError

    def with_deps(self, deps):
        if deps <= self.deps:
            return self
        c = self.copy()
        c.deps = self.deps | deps
        return c

    def copy(self):
        c = type(self).__new__(type(self))
        for k in _slots(type(self)):
            setattr(c, k, getattr(self, k))
        return c


_SLOTCACHE = {}


def _slots(cls):
    r = _SLOTCACHE.get(cls)
    if r is None:
        r = []
        for c in cls.__mro__:
            r.extend(getattr(c, "__slots__", ()))
        _SLOTCACHE[cls] = r
    return r


class Const(Atom):
    __slots__ = ("val",)

    def __init__(self, val, deps=NO):
        self.val = val
        self.deps = deps

    def key(self):
        try:
            hash(self.val)
        except TypeError:
            return ("c", id(self.val))
        return ("c", type(self.val).__name__, self.val)

    def __repr__(self):
        return f"Const({self.val!r})"


class Sym(Atom):
    """Unknown scalar.  kind: key idx int float bool str num any."""

    __slots__ = ("kind", "space", "name", "tag", "lin")

    def __init__(self, kind="any", deps=NO, space=None, name=None, tag=None, lin=None):
        self.kind = kind
        self.deps = deps
        self.space = space
        self.name = name
        self.tag = tag
        self.lin = lin

    def key(self):
        return ("s", self.kind, self.space, self.name, self.tag, self.lin)

    def __repr__(self):
        return f"Sym({self.kind},{self.space},{self.name},{self.tag},{self.lin},{sorted(self.deps)})"


class Ref(Atom):
    __slots__ = ("oid",)

    def __init__(self, oid, deps=NO):
        self.oid = oid
        self.deps = deps

    def key(self):
        return ("r", self.oid)

    def __repr__(self):
        return f"Ref({self.oid})"


class Ext(Atom):
    """Object of a library: dotted name, e.g. graphblas.binary.plus"""

    __slots__ = ("name",)

    def __init__(self, name, deps=NO):
        self.name = name
        self.deps = deps

    def key(self):
        return ("e", self.name)

    def __repr__(self):
        return f"Ext({self.name})"


class Func(Atom):
    __slots__ = ("node", "mod", "qual", "closure", "defaults", "kwdefaults", "cls", "attrs", "isgen", "note")

    def __init__(self, node, mod, qual, closure=None, defaults=(), kwdefaults=None, cls=None):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.closure = closure or {}
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.cls = cls
        self.attrs = {}
        self.isgen = None
        self.note = ()
        self.deps = NO

    def key(self):
        return ("f", id(self.node), self.qual, tuple(sorted((k, id(v)) for k, v in self.closure.items())) if self.closure else ())

    def __repr__(self):
        return f"Func({self.qual})"


class Bound(Atom):
    __slots__ = ("self_", "func")

    def __init__(self, self_, func, deps=NO):
        self.self_ = self_
        self.func = func
        self.deps = deps

    def key(self):
        return ("b", self.self_.key(), self.func.key() if isinstance(self.func, Atom) else self.func)

    def __repr__(self):
        return f"Bound({self.self_},{self.func})"


class Cls(Atom):
    """A class of the repository.  `attrs` is shared and mutable (class attributes)."""

    __slots__ = ("name", "mod", "node", "bases", "attrs", "mro_")

    def __init__(self, name, mod, node, bases, attrs):
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = bases
        self.attrs = attrs
        self.mro_ = None
        self.deps = NO

    def key(self):
        return ("k", self.mod, self.name, id(self.attrs))

    def mro(self):
        if self.mro_ is None:
            r = [self]
            for b in self.bases:
                for c in b.mro() if isinstance(b, Cls) else [b]:
                    if c not in r:
                        r.append(c)
            self.mro_ = r
        return self.mro_

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name]
        return None

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, Cls)]

    def copy(self):
        return self

    def with_deps(self, deps):
        return self

    def __repr__(self):
        return f"Cls({self.mod}.{self.name})"


class Mod(Atom):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self.deps = NO

    def key(self):
        return ("m", self.name)

    def __repr__(self):
        return f"Mod({self.name})"


NONE = Const(None)


def V(*atoms):
    return tuple(atoms)


class ClassKey:
    """A class, or another name from outside, as the key of a dict."""

    __slots__ = ("atom",)

    def __init__(self, atom):
        self.atom = atom

    def __eq__(self, o):
        return isinstance(o, ClassKey) and o.atom.key() == self.atom.key()

    def __hash__(self):
        return hash(self.atom.key())


def as_key(k):
    """Dict keys that are classes, as constants."""
    if len(k) == 1 and isinstance(k[0], (Cls, Ext)):
        return (Const(ClassKey(k[0]), k[0].deps),)
    return k


def const(val, deps=NO):
    if isinstance(val, ClassKey):
        return (val.atom.with_deps(deps),)
    return (Const(val, deps),)


MAXALT = 12


def join(*vs):
    """Union of alternatives."""
    first = None
    for v in vs:
        if v is None:
            continue
        if first is None:
            first = v
        elif v is not first and v != first:
            break
    else:
        return first if first is not None else ()
    d = {}
    for v in vs:
        if v is None:
            continue
        for a in v:
            k = a.key()
            o = d.get(k)
            d[k] = a if o is None else o.with_deps(a.deps)
    if len(d) > MAXALT:
        # widen constants and scalars to one symbol
        keep = {}
        deps = NO
        n = 0
        for k, a in d.items():
            if isinstance(a, (Const, Sym)) and not (isinstance(a, Const) and a.val is None):
                deps |= a.deps
                n += 1
            else:
                keep[k] = a
        if n:
            s = Sym("any", deps)
            keep[s.key()] = s
        d = keep
    return tuple(d.values())


def deps_of(v):
    r = NO
    for a in v:
        r |= a.deps
    return r


def add_deps(v, deps):
    if not deps:
        return v
    return tuple(a.with_deps(deps) for a in v)


class HObj:
    """A heap record; treat as immutable, use .set()"""

    __slots__ = ("kind", "f")

    def __init__(self, kind, **f):
        self.kind = kind
        self.f = f

    def get(self, k, default=None):
        return self.f.get(k, default)

    def set(self, **kw):
        n = HObj(self.kind)
        n.f = {**self.f, **kw}
        return n

    def __repr__(self):
        return f"<{self.kind} {self.f}>"


def join_field(k, a, b):
    if a is b:
        return a
    if a is None or b is None:
        if k in MUST_FIELDS:
            return None
        if k in ("full", "fresh", "bool_"):
            return False
        return a if b is None else b
    if isinstance(a, Content):
        return a.join(b)
    if isinstance(a, tuple) and all(isinstance(x, Atom) for x in a) and isinstance(b, tuple) and all(
        isinstance(x, Atom) for x in b
    ):
        return join(a, b)
    if isinstance(a, frozenset):
        return a | b
    if isinstance(a, dict):
        r = dict(a)
        for kk, vv in b.items():
            r[kk] = join_field(kk, r[kk], vv) if kk in r else vv
        return r
    if a == b:
        return a
    if k in MUST_FIELDS:
        return None
    if isinstance(a, bool):
        return a and b
    return None


# fields whose disagreement means "unknown"
MUST_FIELDS = {"seq", "elts", "rs", "cs", "vs", "sym", "orient", "length", "layout", "segs", "cover", "row", "ver", "key"}


def join_obj(a, b):
    if a is b:
        return a
    if a.kind != b.kind:
        return HObj("unknown", deps=obj_deps(a) | obj_deps(b))
    f = {}
    for k in set(a.f) | set(b.f):
        f[k] = join_field(k, a.f.get(k), b.f.get(k))
    n = HObj(a.kind)
    n.f = f
    return n


def obj_deps(o):
    r = NO
    c = o.f.get("c")
    if isinstance(c, Content):
        r |= c.p | c.v
    d = o.f.get("deps")
    if d:
        r |= d
    return r


class Content:
    """What is known about the entries of a sparse object.

    p     labels that decide which entries are present
    v     labels that decide the stored values
    rs,cs row/column spaces (None: unknown); vectors use rs; scalars none
    vs    space of which the values are positions, or None
    orient 'N' rows are tails, 'T' rows are heads, 'S' symmetric input, None unknown/other
    d     traversal labels (direction, parameter)
    src   node parameters the data came from (explicit flow only)
    sym   True: symmetric; None: not known
    asym  why it is certainly not symmetric (for symmetric input), or None
    full  True: an entry everywhere
    reg   subset of {'L','D','U'} where entries may be, None if unknown
    """

    __slots__ = ("p", "v", "rs", "cs", "vs", "orient", "d", "src", "sym", "full", "reg", "row", "ver", "cover", "blocks", "tok", "iso", "orig", "asym")

    def __init__(self, p=NO, v=NO, rs=None, cs=None, vs=None, orient=None, d=NO, src=NO, sym=None, full=False, reg=None, row=None, ver=None, cover=None, blocks=(), tok=None, iso=False, orig=None, asym=None):
        self.asym = asym
        self.p = p
        self.v = v
        self.rs = rs
        self.cs = cs
        self.vs = vs
        self.orient = orient
        self.d = d
        self.src = src
        self.sym = sym
        self.full = full
        self.reg = reg
        self.row = row
        self.ver = ver
        self.cover = cover
        self.blocks = blocks
        self.tok = tok
        self.iso = iso
        self.orig = orig

    def but(self, **kw):
        n = Content.__new__(Content)
        for k in Content.__slots__:
            setattr(n, k, kw[k] if k in kw else getattr(self, k))
        return n

    def join(self, o):
        if o is self:
            return self
        same = lambda k: getattr(self, k) if getattr(self, k) == getattr(o, k) else None
        return Content(
            p=self.p | o.p,
            v=self.v | o.v,
            rs=same("rs"),
            cs=same("cs"),
            vs=same("vs"),
            orient="X" if "X" in (self.orient, o.orient) else same("orient"),
            d=self.d | o.d,
            src=self.src | o.src,
            sym=same("sym"),
            full=bool(self.full and o.full),
            reg=None if self.reg is None or o.reg is None else self.reg | o.reg,
            row=same("row"),
            ver=same("ver"),
            cover=same("cover"),
            blocks=self.blocks if self.blocks == o.blocks else (("?",),),
            tok=same("tok"),
            iso=bool(self.iso and o.iso),
            orig=same("orig"),
            asym=None if self.asym is None or o.asym is None else self.asym if self.asym == o.asym else ("def", "in both alternatives"),
        )

    def labels(self, deps):
        """Add control labels."""
        if not deps:
            return self
        return self.but(p=self.p | deps, v=self.v | deps)

    def __repr__(self):
        return "C(" + ", ".join(f"{k}={getattr(self, k)!r}" for k in Content.__slots__ if getattr(self, k) not in (None, NO, False, ())) + ")"


class State:
    __slots__ = ("env", "heap", "pc", "facts")

    def __init__(self, env, heap, pc=NO, facts=NO):
        self.env = env
        self.heap = heap
        self.pc = pc
        self.facts = facts

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, self.facts)

    def join(self, o, pc):
        env = {}
        for k in set(self.env) | set(o.env):
            a, b = self.env.get(k), o.env.get(k)
            env[k] = a if b is None or a is b else b if a is None else join(a, b)
        a, b = self.heap, o.heap
        if len(a) < len(b):
            a, b = b, a
        heap = dict(a)
        for k, ob in b.items():
            oa = heap.get(k)
            if oa is None:
                heap[k] = ob
            elif oa is not ob:
                heap[k] = join_obj(oa, ob)
        return State(env, heap, pc, self.facts & o.facts)


def join_states(states, pc=None):
    states = [s for s in states if s is not None]
    if not states:
        return None
    r = states[0]
    for s in states[1:]:
        r = r.join(s, r.pc | s.pc)
    if pc is not None:
        r = State(r.env, r.heap, pc, r.facts)
    return r
