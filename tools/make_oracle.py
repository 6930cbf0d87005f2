#!/usr/bin/env python3
"""Freeze what the checks need to know about NetworkX (signatures, refused graph kinds) from its source.

Usage: make_oracle.py <site-packages/networkx> > oracle/networkx.json   (run once; the result is committed)
"""
import ast, json, pathlib, sys

src = pathlib.Path(sys.argv[1])
out = {}
alias = {}
for p in sorted(src.rglob("*.py")):
    if "tests" in p.parts:
        continue
    t = ast.parse(p.read_text())
    for n in t.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        disp = None
        for d in n.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            if "_dispatch" in ast.unparse(f):
                disp = d
        if disp is None:
            continue
        name = n.name
        if isinstance(disp, ast.Call):
            for k in disp.keywords:
                if k.arg == "name":
                    name = k.value.value
        nif = []
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and "not_implemented_for" in ast.unparse(d.func):
                nif.append([x.value for x in d.args])
        body = [ast.unparse(x) for x in ast.walk(n) if isinstance(x, ast.Raise) and "NotImplemented" in ast.unparse(x)]
        a = n.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        params = []
        for i, x in enumerate(pos):
            j = i - (len(pos) - nd)
            params.append([x.arg, "posonly" if i < len(a.posonlyargs) else "pos", ast.unparse(a.defaults[j]) if j >= 0 else None])
        if a.vararg:
            params.append([a.vararg.arg, "var", None])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            params.append([x.arg, "kwonly", ast.unparse(d) if d is not None else None])
        if a.kwarg:
            params.append([a.kwarg.arg, "varkw", None])
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        mod = ".".join(p.relative_to(src).with_suffix("").parts)
        cur = dict(module=mod, func=n.name, params=params, nif=nif, generator=gen, raises=body)
        if name in out and out[name]["module"] < mod and name == "":
            continue
        out.setdefault(name, cur) if name in out and out[name]["module"].startswith("algorithms") and "approx" in mod else out.__setitem__(name, cur)
print(json.dumps(out, indent=0, sort_keys=True))
