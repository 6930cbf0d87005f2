#!/usr/bin/env python3
"""Debugging aid: all events of given kinds over the corpus. events.py space,mutate"""
import os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from analysis.checks.common import *
I = E.load(os.environ.get("VERIF_REPO", "/repo"))
want = set(sys.argv[1].split(","))
kinds = sys.argv[2].split(",") if len(sys.argv) > 2 else ("Graph", "DiGraph", "Matrix", "MultiGraph")
C = Corpus(I, None, kinds)
seen = collections.Counter(); ex = {}
for r in C.runs:
    if r.error: seen[("ERR", r.error)] += 1; ex.setdefault(("ERR", r.error), (r.name, r.kind, r.tags))
    if "unknown" in want:
        for k, v in r.unknown.items(): seen[("unknown", k)] += v; ex.setdefault(("unknown", k), (r.name, r.kind, r.tags))
    for e in r.events:
        if e[0] in want:
            k = (e[0], site(e[1]), str(sorted((a, str(b)[:90]) for a, b in e[3].items())))
            seen[k] += 1; ex.setdefault(k, (r.name, r.kind, r.tags))
for k, n in sorted(seen.items(), key=str): print(n, *k, "   e.g.", ex[k])
