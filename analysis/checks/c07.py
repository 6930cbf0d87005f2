"""C07: wrapper signatures accept everything the NetworkX function of the same name accepts, identically."""
import ast

from .common import *


def literal(txt):
    """Value of a default expression, comparable; unparsable ones stay text."""
    try:
        v = ast.literal_eval(txt)
    except (ValueError, SyntaxError):
        try:
            v = eval(compile(ast.Expression(ast.parse(txt, mode="eval").body), "d", "eval"), {"__builtins__": {}}, {}) if all(isinstance(n, (ast.Expression, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.Tuple, ast.List)) for n in ast.walk(ast.parse(txt, mode="eval"))) else ("text", txt)
        except Exception:
            v = ("text", txt)
    return v


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


def params(f, I):
    """[(name, kind, default value or None-if-absent as a 1-tuple)] of a wrapper definition."""
    a = f.node.args
    pos = a.posonlyargs + a.args
    nd = len(f.defaults)
    out = []
    for i, x in enumerate(pos):
        j = i - (len(pos) - nd)
        out.append((x.arg, "posonly" if i < len(a.posonlyargs) else "pos", val(I, f.defaults[j]) if j >= 0 else None))
    if a.vararg:
        out.append((a.vararg.arg, "var", None))
    for x in a.kwonlyargs:
        out.append((x.arg, "kwonly", val(I, f.kwdefaults[x.arg]) if x.arg in f.kwdefaults else None))
    if a.kwarg:
        out.append((a.kwarg.arg, "varkw", None))
    return out


def val(I, v):
    try:
        return (to_python(I, v),)
    except ValueError:
        return (("value", repr(v)),)


def run(rep):
    rep.explanation = (
        "For every dispatched function the parameter list of the definition behind its decorators (names, order, kinds and the abstractly evaluated "
        "defaults) is compared with the frozen NetworkX signature; extra parameters must be keyword-only, optional and advertised by get_info() for that function and no other."
    )
    rep.assumptions = ["decorators used on wrappers keep the wrapped signature (NetworkX not_implemented_for does)", "oracle/networkx.json is a faithful extract of the NetworkX source"]
    I = program(rep)
    orc = oracle()
    E.reset(I)
    st = E.fresh_state(I)
    try:
        adv = to_python(I, I.call(I.modules["_nx_graphblas"]["get_info"], [], {}, st, None), st).get("functions", {})
    except (ValueError, KeyError):
        adv = None
        rep.notes.append("get_info() is not a literal: advertised extra parameters not compared")
    for n, v in sorted(dispatched(I).items()):
        f = E.inner_func(I, v)
        if n not in orc:
            continue
        rep.functions.add((f.mod, f.qual))
        w = [where(I, f)]
        ps = params(f, I)
        want = [tuple(p) for p in orc[n]["params"]]
        got = {p[0]: p for p in ps}
        varkw = any(p[1] == "varkw" for p in ps)
        mypos = [p for p in ps if p[1] in ("pos", "posonly")]
        nxpos = [p for p in want if p[1] in ("pos", "posonly")]
        # names that differ only in case or trailing underscore are still different keywords
        for i, (name, kind, d) in enumerate(nxpos):
            c = f"{n}.{name}"
            if i < len(mypos):
                rep.check(mypos[i][0] == name, "positional-order", c, f"parameter {i} of {n} is {mypos[i][0]!r}, NetworkX has {name!r}", w)
            else:
                rep.check(any(p[1] == "var" for p in ps), "positional-missing", c, f"{n} does not accept {name!r} positionally", w)
            if name in got:
                rep.check(not (got[name][1] == "posonly" and kind == "pos"), "keyword-refused", c, f"{n} does not accept {name!r} by keyword", w)
            elif not varkw:
                rep.viol("parameter-missing", c, f"{n} has no parameter {name!r}", w)
        rep.check(len(mypos) <= len(nxpos) or any(p[1] == "var" for p in want), "positional-extra", n, f"{n} has positional parameters NetworkX does not have: {[p[0] for p in mypos[len(nxpos):]]}", w)
        for name, kind, d in want:
            if kind in ("var", "varkw") or name not in got:
                if kind == "kwonly" and name not in got and not varkw:
                    rep.viol("parameter-missing", f"{n}.{name}", f"{n} has no parameter {name!r}", w)
                continue
            mine = got[name][2]
            c = f"{n}.{name}"
            if d is None:
                rep.check(mine is None or True, "default", c, "", w)  # optional where NetworkX requires: still call-compatible
            elif mine is None:
                rep.check(False, "default", c, f"{name!r} of {n} is required; NetworkX defaults it to {d}", w)
            else:
                dv = literal(d)
                if isinstance(dv, tuple) and dv[:1] == ("text",):
                    rep.ob("default-not-literal", c)
                    continue
                rep.check(same(mine[0], dv), "default", c, f"default of {name!r} of {n} is {mine[0]!r}, NetworkX has {dv!r}", w)
        names = {p[0] for p in want}
        extra = [p for p in ps if p[0] not in names and p[1] not in ("var", "varkw")]
        for p in extra:
            c = f"{n}.{p[0]}"
            rep.check(p[1] == "kwonly", "extra-not-keyword-only", c, f"extra parameter {p[0]!r} of {n} can be filled positionally", w)
            rep.check(p[2] is not None, "extra-required", c, f"extra parameter {p[0]!r} of {n} is required", w)
        if adv is not None:
            texts = adv.get(n, {}).get("extra_parameters", {}) if isinstance(adv.get(n, {}), dict) else {}
            names_adv = {t.split(":")[0].strip(): (t, d) for t, d in texts.items()}
            for p in extra:
                ok = rep.check(p[0] in names_adv, "extra-not-advertised", f"{n}.{p[0]}", f"extra parameter {p[0]!r} of {n} is not advertised", w)
                if ok and p[2] is not None and isinstance(p[2][0], (str, int, float)):
                    t, d = names_adv[p[0]]
                    if "default" in (t + d).lower():
                        rep.check(str(p[2][0]) in t + d, "advertised-default", f"{n}.{p[0]}", f"{n}: advertised text {d!r} does not give the default {p[2][0]!r}", w)
            for a in names_adv:
                rep.check(a in {p[0] for p in extra}, "advertised-but-absent", f"{n}.{a}", f"get_info() advertises {a!r} for {n}, which has no such parameter", w)
    rep.floor("positional-order", 120)
    rep.floor("default", 60)
