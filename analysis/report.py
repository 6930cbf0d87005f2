"""Collecting obligations and violations; evidence and known findings."""
from __future__ import annotations

import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """{key: text}. Lines: `finding: property=C01 key=<key> :: <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("finding: "):
            continue
        head, _, what = line[len("finding: "):].partition(" :: ")
        p, _, key = head.partition(" key=")
        if p == f"property={prop}":
            out[key.strip()] = what.strip()
    return out


class Report:
    """`key` of a violation is rule|construct: stable under line moves and specific to one construct."""

    def __init__(self, prop, repo):
        self.prop, self.repo = prop, repo
        self.t0 = time.time()
        self.counts = {}
        self.bad = {}
        self.samples = {}
        self.notes = []
        self.floors = {}
        self.assumptions = []
        self.functions = set()
        self.unknown = {}
        self.explanation = ""

    def ob(self, rule, what=None, n=1):
        """One obligation of `rule` decided on `what`."""
        self.counts[rule] = self.counts.get(rule, 0) + n
        if what is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 4 and what not in s:
                s.append(what)

    def viol(self, rule, construct, msg, where=None):
        key = f"{rule}|{construct}"
        self.bad.setdefault(key, {"key": key, "message": msg, "where": where or [], "count": 0})["count"] += 1

    def check(self, ok, rule, construct, msg, where=None):
        self.ob(rule, construct)
        if not ok:
            self.viol(rule, construct, msg, where)
        return ok

    def floor(self, rule, n):
        """Fewer than n decided instances of `rule` means the analysis did not see the code: no verdict."""
        self.floors[rule] = n

    def absorb(self, r):
        """Record which code a run of the interpreter covered."""
        self.functions |= r.funcs
        for k, v in r.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + v

    def finish(self, tier, out=print):
        known = known_findings(self.prop)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        new = [b for k, b in sorted(self.bad.items()) if k not in known]
        old = [k for k in sorted(self.bad) if k in known]
        short = [f"{r}: {self.counts.get(r, 0)} < {n}" for r, n in self.floors.items() if self.counts.get(r, 0) < n]
        for k in old:
            out(f"KNOWN-FINDING: property={self.prop} {known[k]} [{k}]")
        cov = {
            "explanation": self.explanation,
            "obligations_by_rule": dict(sorted(self.counts.items())),
            "obligations": sum(self.counts.values()),
            "functions_analysed": len(self.functions),
            "functions": sorted(f"{m}.{q}" if isinstance(m, str) else str(m) for m, q in self.functions)[:400] if self.functions else [],
            "unmodelled_constructs": dict(sorted(self.unknown.items(), key=lambda x: -x[1])[:40]),
            "samples": self.samples,
            "known_findings": old,
            "below_floor": short,
            "violations": new[:50],
        }
        if self.notes:
            cov["notes"] = self.notes[:60]
        rep = {
            "property": self.prop,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        path = os.path.join(ev, f"{self.prop}.json")
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        if new:
            for b in new[:40]:
                out(f"  {b['key']}: {b['message']}  at {'; '.join(map(str, b['where'][:4]))}")
            out(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if short:
            out(f"{self.prop}: analysis saw too little code, no verdict: {short}")
            return 2
        out(f"{self.prop}: held on {cov['obligations']} obligations ({len(self.functions)} functions analysed, {rep['wall_s']}s)")
        return 0
