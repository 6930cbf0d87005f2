#!/usr/bin/env python3
"""Decide one property from the current source of the repository: python3 check.py C01 [...]

VERIF_REPO overrides the repository path (default /repo). Exit 0: holds; 1: violation; 2: no verdict.
"""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)


def main():
    repo = os.environ.get("VERIF_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from analysis.report import Report

    code = 0
    for pid in sys.argv[1:]:
        rep = Report(pid, repo)
        mod = importlib.import_module(f"analysis.checks.{pid.lower()}")
        mod.run(rep)
        mini = sys.modules.get("analysis.mini")
        if mini is not None and mini.CRASHED:
            rep.unknown["paths abandoned by the evaluator"] = len(mini.CRASHED)
            mini.CRASHED.clear()
        code = max(code, rep.finish(tier)) if code != 1 else (rep.finish(tier), 1)[1]
    return code


def guarded(box):
    try:
        box.append(main())
    except BaseException:
        import traceback

        traceback.print_exc()
        box.append(2)


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=guarded, args=(box,))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(box[0])
