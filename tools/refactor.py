"""Behaviour-preserving rewrites of the package, to test that the checks stay quiet.

python3 tools/refactor.py RULE SRC DST   rewrites every module of SRC/graphblas_algorithms into DST (a copy of SRC)
"""
import ast
import copy
import os
import shutil
import sys

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def is_gen(f):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FN + (ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False

    return walk(f)


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, p="_t"):
        self.n += 1
        return f"{p}{self.n}"


def doc_split(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


class Noop(Base):
    """A statement that does nothing at the start of every function."""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        d, b = doc_split(f.body)
        f.body = d + ast.parse("_unused = None").body + b
        return f


class RetTemp(Base):
    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, (ast.Name, ast.Constant)):
            return s
        t = self.fresh("_result")
        return [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]


class Invert(Base):
    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse:
            s.test = ast.UnaryOp(ast.Not(), s.test)
            s.body, s.orelse = s.orelse, s.body
        return s


class ElseReturn(Base):
    """if c: return/raise; rest  ->  if c: return/raise else: rest"""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1 :]:
                s.orelse = self.block(b[i + 1 :])
                return b[: i + 1]
        return b

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.block(f.body)
        return f


class Ternary(Base):
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp):
            e = s.value
            return ast.If(e.test, [ast.Assign(copy.deepcopy(s.targets), e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
        return s

    def visit_Return(self, s):
        if isinstance(s.value, ast.IfExp):
            e = s.value
            return ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
        return s


class IfTernary(Base):
    """if c: x = a else: x = b -> x = a if c else b"""

    def visit_If(self, s):
        self.generic_visit(s)
        if len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign):
            a, b = s.body[0], s.orelse[0]
            if ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
        if len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value:
            return ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        return s


class Hoist(Base):
    """Arguments of the outermost calls of simple statements go to temporaries first."""

    def visit_FunctionDef(self, f):
        f.body = self.block(f.body)
        return f

    def block(self, b):
        out = []
        for s in b:
            for k in ("body", "orelse", "finalbody"):
                if getattr(s, k, None) and not isinstance(s, ast.ClassDef):
                    setattr(s, k, self.block(getattr(s, k)))
            for h in getattr(s, "handlers", ()):
                h.body = self.block(h.body)
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                pre = []
                s.value = self.top(s.value, pre)
                out += pre
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.LShift):
                pre = []
                s.value.right = self.temp(s.value.right, pre)
                if not names_in(s.value.left) & {x for p in pre for x in names_in(p.targets[0])}:
                    out += pre
            out.append(s)
        return out

    def temp(self, e, pre):
        if isinstance(e, (ast.Name, ast.Constant, ast.Starred, ast.Lambda, ast.GeneratorExp, ast.Attribute)):
            return e
        t = self.fresh("_part")
        pre.append(ast.Assign([ast.Name(t, ast.Store())], e))
        return ast.Name(t, ast.Load())

    def top(self, e, pre):
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and not (isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super"):
                e.func.value = self.temp(self.top(e.func.value, pre), pre)
            if isinstance(e.func, ast.Name) and e.func.id in ("super", "locals"):
                return e
            e.args = [self.temp(a, pre) if isinstance(a, (ast.Call, ast.BinOp)) else a for a in e.args]
        return e


class Outline(Base):
    """def f(args): body -> def _f_impl(args): body; def f(args): return _f_impl(args)"""

    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef) and not is_gen(s) and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(s)):
                g = copy.deepcopy(s)
                g.name = f"_{s.name}_impl"
                g.decorator_list = []
                a = s.args
                g.args.defaults = []
                g.args.kw_defaults = [None] * len(a.kwonlyargs)
                call = ast.Call(ast.Name(g.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []), [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                s.body = doc_split(s.body)[0] + [ast.Return(call)]
                out += [g, s]
            else:
                out.append(s)
        m.body = out
        return m


class LoopVar(Base):
    def visit_For(self, s):
        self.generic_visit(s)
        t = self.fresh("_item")
        s.body = [ast.Assign([s.target], ast.Name(t, ast.Load()))] + s.body
        s.target = ast.Name(t, ast.Store())
        return s


class WhileTrue(Base):
    def visit_While(self, s):
        self.generic_visit(s)
        if not s.orelse and not (isinstance(s.test, ast.Constant) and s.test.value is True):
            s.body = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body
            s.test = ast.Constant(True)
        return s


class CompLoop(Base):
    """x = [e for ...] -> loop with append (one generator)."""

    def visit_Assign(self, s):
        v = s.value
        if isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            g = v.generators[0]
            t = s.targets[0].id
            if t in names_in(v):
                return s
            if isinstance(v, ast.ListComp):
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [v.elt], []))]
                init = ast.List([], ast.Load())
            else:
                body = [ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), v.key, ast.Store())], v.value)]
                init = ast.Dict([], [])
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], init), ast.For(g.target, g.iter, body, [])]
        return s


class SwapCmp(Base):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1 and type(e.ops[0]) in self.M:
            return ast.Compare(e.comparators[0], [self.M[type(e.ops[0])]()], [e.left])
        return e


class Rename(Base):
    """Local variables get another name."""

    def visit_FunctionDef(self, f):
        if any(isinstance(x, FN + (ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef)) for y in f.body for x in ast.walk(y)):
            self.generic_visit(f)
            return f
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_v"
        return f


class Alias(Base):
    """G._A is read into a local first (functions with a G parameter that only read it)."""

    def visit_FunctionDef(self, f):
        if any(x.arg == "G" for x in f.args.args) and not is_gen(f):
            g = [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "G" and x.attr == "_key_to_id" and isinstance(x.ctx, ast.Load)]
            st = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == "G" and isinstance(x.ctx, ast.Store)]
            if g and not st and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "to_graph" for x in ast.walk(f)):
                class R(ast.NodeTransformer):
                    def visit_Attribute(self, x):
                        self.generic_visit(x)
                        if isinstance(x.value, ast.Name) and x.value.id == "G" and x.attr == "_key_to_id":
                            return ast.Name("_table", ast.Load())
                        return x

                f.body = [R().visit(s) for s in f.body]
                d, b = doc_split(f.body)
                f.body = d + ast.parse("_table = G._key_to_id").body + b
        return f


class Ops(Base):
    """binary.plus -> local alias of the operator."""

    def visit_FunctionDef(self, f):
        seen = {}

        class R(ast.NodeTransformer):
            def visit_FunctionDef(self, g):
                return g

            def visit_Call(self, c):
                self.generic_visit(c)
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ("binary", "unary", "semiring", "monoid", "select"):
                    k = f"{c.func.value.id}_{c.func.attr}_op"
                    seen[k] = c.func
                    c.func = ast.Name(k, ast.Load())
                return c

        if any(isinstance(x, FN + (ast.Lambda,)) for y in f.body for x in ast.walk(y)):
            return f
        bound = {x.arg for x in f.args.args} | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if bound & {"binary", "unary", "semiring", "monoid", "select"}:
            return f
        f.body = [R().visit(s) for s in f.body]
        d, b = doc_split(f.body)
        f.body = d + [ast.Assign([ast.Name(k, ast.Store())], v) for k, v in seen.items()] + b
        return f


class Methods(Base):
    """unary.op(x) -> x.apply(unary.op), select.op(x, k) -> x.select(select.op, k), A.T twice..."""

    def visit_Call(self, c):
        self.generic_visit(c)
        f = c.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("unary",) and len(c.args) == 1 and not c.keywords:
            return ast.Call(ast.Attribute(c.args[0], "apply", ast.Load()), [f], [])
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "select" and f.attr in ("tril", "triu", "offdiag", "diag") and c.args and not c.keywords and isinstance(c.args[0], (ast.Name, ast.Attribute)):
            return ast.Call(ast.Attribute(c.args[0], "select", ast.Load()), [f] + c.args[1:], [])
        return c


class WithTry(Base):
    """Bodies of core functions inside try/finally."""

    def visit_FunctionDef(self, f):
        d, b = doc_split(f.body)
        if is_gen(f) or f.name.startswith("__"):
            return f
        f.body = d + [ast.Try(b, [], [], [ast.Pass()])]
        return f


class Single(Base):
    """if c: return a ; return b -> if c: r = a else: r = b; return r"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        b = f.body
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and b[-1].value is not None and isinstance(b[-2], ast.If) and not b[-2].orelse and isinstance(b[-2].body[-1], ast.Return) and b[-2].body[-1].value is not None:
            t = self.fresh("_answer")
            i = b[-2]
            i.body[-1] = ast.Assign([ast.Name(t, ast.Store())], i.body[-1].value)
            i.orelse = [ast.Assign([ast.Name(t, ast.Store())], b[-1].value)]
            b[-1] = ast.Return(ast.Name(t, ast.Load()))
        return f


class ForWhile(Base):
    """for i in range(...) -> a while loop that counts."""

    def visit_For(self, s):
        self.generic_visit(s)
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and not it.keywords and isinstance(s.target, ast.Name)):
            return s
        a = list(it.args)
        start, stop, step = (ast.Constant(0), a[0], ast.Constant(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ast.Constant(1))
        if not isinstance(step, ast.Constant):
            return s
        c, e = self.fresh("_c"), self.fresh("_e")
        pre = [ast.Assign([ast.Name(c, ast.Store())], start), ast.Assign([ast.Name(e, ast.Store())], stop)]
        body = [ast.Assign([s.target], ast.Name(c, ast.Load())), ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), step)] + s.body
        return pre + [ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]), body, s.orelse)]


class ForIter(Base):
    """for x in e -> next() until it stops."""

    def visit_For(self, s):
        self.generic_visit(s)
        if s.orelse or isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range":
            return s
        it = self.fresh("_it")
        nxt = ast.Try([ast.Assign([s.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load())], []))], [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [s.iter], [])), ast.While(ast.Constant(True), [nxt] + s.body, [])]


class ForFlag(Base):
    """for/else -> a flag that says whether the loop was left early."""

    def visit_For(self, s):
        self.generic_visit(s)
        if not s.orelse:
            return s
        f = self.fresh("_left")

        def walk(body):
            out = []
            for x in body:
                if isinstance(x, ast.Break):
                    out.append(ast.Assign([ast.Name(f, ast.Store())], ast.Constant(True)))
                elif not isinstance(x, (ast.For, ast.While) + FN):
                    for k in ("body", "orelse", "finalbody"):
                        if getattr(x, k, None):
                            setattr(x, k, walk(getattr(x, k)))
                    for h in getattr(x, "handlers", []):
                        h.body = walk(h.body)
                out.append(x)
            return out

        s.body = walk(s.body)
        orelse, s.orelse = s.orelse, []
        return [ast.Assign([ast.Name(f, ast.Store())], ast.Constant(False)), s, ast.If(ast.UnaryOp(ast.Not(), ast.Name(f, ast.Load())), orelse, [])]


class Lambdas(Base):
    """Loop bodies of at least two statements without control flow move to nested functions? (kept out: changes scopes)"""


RULES = {c.__name__.lower(): c for c in (Noop, RetTemp, Invert, ElseReturn, Ternary, IfTernary, Hoist, Outline, LoopVar, WhileTrue, CompLoop, SwapCmp, Rename, Alias, Ops, Methods, WithTry, Single, ForWhile, ForIter, ForFlag)}


def rewrite(rule, src, dst, sub="graphblas_algorithms"):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, symlinks=True)
    for d, ds, fs in os.walk(os.path.join(dst, sub)):
        ds[:] = [x for x in ds if x not in ("tests", "__pycache__")]
        for f in fs:
            if not f.endswith(".py") or f == "_version.py":
                continue
            p = os.path.join(d, f)
            t = ast.parse(open(p).read())
            t = RULES[rule]().visit(t)
            ast.fix_missing_locations(t)
            open(p, "w").write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    if len(sys.argv) < 4:
        print(" ".join(RULES))
    else:
        rewrite(*sys.argv[1:4])
