"""C18: the core works without NetworkX/SciPy; layering."""
import ast
import sys

from .common import *

ALLOWED = {"graphblas", "numpy"}
CORE = (PKG + ".algorithms", PKG + ".classes", PKG + ".linalg", PKG + ".generators", PKG + ".utils")


def is_core(m):
    return m == PKG or m.startswith(CORE)


def foreign(top):
    return top not in ALLOWED and top not in sys.stdlib_module_names and top not in (PKG, "_nx_graphblas")


class Blocked:
    """Modules that are not installed, as seen from the importing module."""

    def __init__(self, pred):
        self.pred = pred

    def __contains__(self, top):
        return self.pred(top)


def load_blocked(repo, mods, pred):
    I = E.Interp(repo)
    I.blocked_modules = Blocked(pred)
    out = []
    for m in mods:
        try:
            I.load(m)
        except PathEnd:
            pass
    for m, recs in getattr(I, "module_failures", {}).items():
        for r in recs:
            out.append((m, r))
    return I, out


def imports(tree, mod, is_pkg):
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield n, a.name
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = mod.split(".")
                drop = n.level - (1 if is_pkg else 0)
                if drop:
                    parts = parts[:-drop]
                base = ".".join(parts + ([base] if base else []))
            yield n, base
            for a in n.names:
                yield n, f"{base}.{a.name}"
        elif isinstance(n, ast.Call) and ast.unparse(n.func) in ("__import__", "importlib.import_module", "import_module") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            yield n, n.args[0].value


def run(rep):
    rep.explanation = (
        "The import graph is executed abstractly with every distribution other than python-graphblas, numpy and the standard library absent; every core function is then executed abstractly in that "
        "configuration on graphs and matrices. All import statements of the core and of the plugin information module are resolved and checked against the layering."
    )
    rep.assumptions = ["python-graphblas and numpy are installed (declared dependencies)"]
    I, fails = load_blocked(rep.repo, [PKG], foreign)
    core = [m for m in I.modules if is_core(m)]
    seen = set()
    for m, r in fails:
        mod = (r.info or {}).get("module") or (r.info or {}).get("name")
        seen.add(m)
        rep.viol("import-needs-optional", f"{m}:{mod}", f"importing {m} needs {mod}, which is optional", [site(r.site)])
    for m in core:
        rep.ob("import-needs-optional", m)
    # networkx installed, scipy and the rest not
    _, fails2 = load_blocked(rep.repo, [PKG, NXAPI, IFACE], lambda t: foreign(t) and t != "networkx")
    for m, r in fails2:
        if m not in seen:
            mod = (r.info or {}).get("module") or (r.info or {}).get("name")
            rep.viol("nxapi-needs-scipy", f"{m}:{mod}", f"importing {m} needs {mod}, which is optional", [site(r.site)])
    rep.ob("nxapi-needs-scipy", NXAPI)
    # plugin information module: standard library only
    J = E.Interp(rep.repo)
    J.blocked_modules = Blocked(lambda t: t not in sys.stdlib_module_names)
    J.load("_nx_graphblas")
    for m, recs in getattr(J, "module_failures", {}).items():
        for r in recs:
            rep.viol("plugin-info-imports", f"{m}", f"importing {m} fails without third-party packages: {r.info}", [site(r.site)])
    for m in list(J.modules):
        rep.check(m.split(".")[0] == "_nx_graphblas", "plugin-info-imports", m, f"the plugin information module imports {m}")
    # whole-source layering
    full = program(rep)
    for m in sorted(full.modules):
        if not (is_core(m) or m.split(".")[0] == "_nx_graphblas"):
            continue
        path = os.path.join(rep.repo, full.modfile[m])
        tree = ast.parse(open(path, encoding="utf-8").read())
        pkg = path.endswith("__init__.py")
        for n, name in imports(tree, m, pkg):
            if is_core(m):
                bad = name == NXAPI or name.startswith(NXAPI + ".") or name == IFACE or name.startswith(IFACE + ".")
                rep.check(not bad, "core-imports-nxapi", f"{m}:{name}", f"core module {m} imports the NetworkX-facing {name}", [f"{full.modfile[m]}:{n.lineno}"])
            else:
                top = name.split(".")[0]
                rep.check(top in sys.stdlib_module_names or top == "_nx_graphblas", "plugin-info-imports", f"{m}:{name}", f"{m} imports {name}", [f"{full.modfile[m]}:{n.lineno}"])
    # core functions without optional packages
    if not fails:
        for m in core:
            names = I.module_exports(m) if "__all__" in I.modules[m] else []
            for n in names:
                for a in I.modules[m].get(n, ()):
                    f = E.inner_func(I, (a,))
                    if f is None or f.mod != m or not m.startswith(CORE[:1] + CORE[2:4]):
                        continue
                    for kind in ("Graph", "DiGraph", "Matrix"):
                        for r in E.run_all(I, (a,), kind, 6):
                            rep.absorb(r)
                            rep.ob("core-call-without-optional", n)
                            for x in r.raises:
                                if isinstance(x.exc, Ext) and x.exc.name in ("builtins.ModuleNotFoundError", "builtins.ImportError"):
                                    rep.viol("core-call-without-optional", f"{m}.{n}", f"{n} fails when {x.info} is not installed", [site(x.site)])
                            for fm, fq in r.funcs:
                                if fm.startswith(NXAPI) or fm == IFACE:
                                    rep.viol("core-imports-nxapi", f"{m}.{n}", f"core function {n} calls the NetworkX-facing {fm}.{fq}")
    rep.floor("core-imports-nxapi", 100)
    rep.floor("core-call-without-optional", 60)
