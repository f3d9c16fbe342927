import importlib
import json
import logging
import os
import sys
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
os.environ["PYTHONWARNINGS"] = "ignore"


def main():
    import numpy as np
    np.seterr(all="ignore")
    from . import core
    arg = sys.argv[1]
    if arg == "replay":
        d = json.load(open(sys.argv[2]))
        mod = importlib.import_module("checks." + d["property"])
        core.patch_solver()
        r = core.run_case(mod, d["family"], d["index"], d["seed"],
                          verbose=True)
        print(json.dumps(r["violations"], indent=1))
        sys.exit(1 if r["violations"] else 0)
    if arg == "case":      # case PROP FAMILY INDEX [SEED]
        mod = importlib.import_module("checks." + sys.argv[2])
        core.patch_solver()
        seed = int(sys.argv[5]) if len(sys.argv) > 5 else int(
            os.environ.get("VERIF_SEED", "1"))
        r = core.run_case(mod, sys.argv[3], int(sys.argv[4]), seed,
                          verbose=True)
        print(json.dumps({k: r[k] for k in ("counts", "violations", "samples",
                                            "harness_error")}, indent=1))
        sys.exit(1 if r["violations"] else 0)
    mod = importlib.import_module("checks." + arg)
    sys.exit(core.main(mod))


if __name__ == "__main__":
    main()
