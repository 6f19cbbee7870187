#!/usr/bin/env python3
"""python3-vt check.py Cxx [Cyy ...]: decide properties from /repo's source"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")


def main(ids):
    import threading
    from sa.report import Report
    from sa import registry
    root = os.environ.get("VERIF_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in ids:
        tier = "thorough"
        ids = [i for i in ids if i != "--thorough"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    worst = 0
    for i in ids:
        rep = Report(i, tier if tier in ("quick", "thorough") else "quick", seed, root)
        registry.run(i, rep)
        worst = max(worst, rep.finish())
    return worst


if __name__ == "__main__":
    import threading
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 3)
