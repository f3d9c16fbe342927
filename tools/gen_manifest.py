"""Writes MANIFEST.json from properties.jsonl and the modules in checks/."""
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "runtime monitoring: "
T = {
 "B01": "constraint monitor on every returned binning",
 "B02": "online optimality monitor: brute force over all mergings",
 "B03": "conservation monitor: recount of raw records per displayed row",
 "B04": "definition monitor: table statistics recomputed from its counts",
 "B05": "table/transform agreement monitor",
 "B06": "metamorphic trace monitor on transform calls",
 "B07": "history-independence monitor over call sequences",
 "B08": "save/load equivalence monitor",
 "C01": "constraint and brute-force optimality monitor",
 "C02": "conservation monitor: recount of raw records per displayed row",
 "M01": "constraint and brute-force optimality monitor",
 "M02": "conservation monitor: recount of raw records per displayed row",
 "P01": "differential monitor: process vs individual binnings",
 "P02": "selection monitor against the reported statistics",
 "P03": "differential monitor: disk vs memory",
 "R01": "invariant monitor on hooked pre-binning results",
 "R02": "definition monitor on outlier masks, differential fit monitor",
 "S01": "rank-error/conservation monitor over add/merge histories",
 "S02": "conservation monitor over add/merge/solve histories",
 "D01": "tiling and recount monitor",
 "D02": "constraint and brute-force tiling optimality monitor",
 "U01": "per-scenario constraint, optimality and recount monitor",
 "W01": "pointwise function monitor on piecewise transforms",
 "K01": "score/table agreement monitor",
 "K02": "scaling calibration monitor",
 "K03": "recomputation monitor on the monitoring report",
 "X01": "validity and brute-force optimality monitor",
 "B09": "differential monitor: same records, other order, type or unit",
 "I01": "solver, log and clock monitors with injected delays",
 "E01": "rejection/acceptance monitor with state comparison",
 "V01": "monitor on drawn artists vs table values",
 "T01": "definition monitor on metric values",
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "checks", i + ".py")):
        checks.append(dict(
            property=i, quick_cmd="./run.sh %s quick" % i,
            thorough_cmd="./run.sh %s thorough" % i,
            technique=TECH + T[i], level="exploration",
            level_note="Observed executions of the real code on generated "
            "workloads (seeded, counted in the evidence file); holds for "
            "what was run. Trusted: the independent reference in /verif, "
            "numpy/pandas/scikit-learn and the OR-Tools solvers' "
            "termination."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1,
         setup_cmd="/opt/venv/bin/python -c 'import ortools, sklearn, ropwr'",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the library is pure Python, monitors wrap "
               "it from /verif at run time. Known findings: "
               "KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
