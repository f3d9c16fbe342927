"""List the slowest cases of a check: slow.py ID [FAMILY] [SCALE]."""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
from vlib import core

mod = importlib.import_module("checks." + sys.argv[1])
core.patch_solver()


if __name__ == "__main__":
    fams = [sys.argv[2]] if len(sys.argv) > 2 else list(mod.FAMILIES)
    sc = float(sys.argv[3]) if len(sys.argv) > 3 else 1
    work = [(n, i) for n in fams
            for i in range(int(mod.FAMILIES[n][1] * sc))]
    core._MOD = mod
    orig = core.run_case

    def timed(*a, **k):
        t = time.time()
        r = orig(*a, **k)
        r["t"] = time.time() - t
        return r

    core.run_case = timed
    seed = int(os.environ.get("VERIF_SEED", 1))
    res = []
    for r in core.run_pool([w + (seed,) for w in work], 8,
                           time.time() + 600):
        res.append((r.get("t", -1), r["family"], r["index"]))
    print("total", sum(r[0] for r in res))
    for r in sorted(res, reverse=True)[:15]:
        print(r)
