"""Run with /opt/venv/bin/python.

Lines of the library no quick check executes.

    /opt/venv/bin/python tools/cover.py [ID ...]    (runs the checks, several minutes)
    /opt/venv/bin/python tools/cover.py --show      (report of the last run)"""
import glob
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
D = "/tmp/cover"
os.makedirs(D, exist_ok=True)
if sys.argv[1:] != ["--show"]:
    ids = sys.argv[1:] or sorted(
        os.path.basename(f)[:-3] for f in glob.glob(ROOT + "/checks/*.py")
        if "__" not in f)
    for i in ids:
        subprocess.run(["bash", ROOT + "/run.sh", i, "quick"],
                       env=dict(os.environ, VERIF_LINES=D),
                       stdout=subprocess.DEVNULL)
from vlib import core  # noqa: E402

seen = set()
for f in glob.glob(D + "/*.json"):
    seen.update(map(tuple, json.load(open(f))))
base = core.REPO + "/optbinning/"
for f in sorted(glob.glob(base + "**/*.py", recursive=True)):
    n = f[len(base):]
    if n.startswith("tests") or "/tests/" in n:
        continue
    every = core.function_lines(f)
    miss = sorted(every - {q for g, q in seen if g == n})
    if miss:
        src = open(f).read().splitlines()
        print("== {} {}/{} missed".format(n, len(miss), len(every)))
        for q in miss:
            print("%5d %s" % (q, src[q - 1]))
