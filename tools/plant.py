"""Create and confirm planted bugs.

    python3 tools/plant.py SPEC.py [ID ...]

SPEC.py calls nothing; it defines BUGS = [dict(id, property, needs, breaks,
edits=[(file, old, new)], demo="python source")]. For each bug a scratch copy
of /repo is changed; kept in seeded/<id>/ only if the patch touches original
lines, the stable tests pass, and the demo separates the two trees."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run with cwd = the source tree to examine
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py" 2>&1 | grep -v -i warning
"""
DEMO_SH = """#!/bin/bash
# run with cwd = the source tree to examine
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py" 2>/dev/null
"""


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def original(path, diff_u0):
    """Removed lines that do not come from the base commit."""
    import re
    blame = sh("git blame -s -- " + path, "/repo").stdout.splitlines()
    bad, n, cur = [], 0, None
    for line in diff_u0.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m and cur == path:
            a, k = int(m[1]), int(m[2] if m[2] is not None else 1)
            n += k
            bad += [b for b in blame[a - 1:a - 1 + k]
                    if not (b.startswith("^") or b.startswith("ac6f1d8"))]
    return bad or ([] if n else ["no line removed"])


def plant(b, tests=True):
    tmp = tempfile.mkdtemp(prefix="plant_")
    tree = tmp + "/repo"
    try:
        shutil.copytree("/repo", tree, symlinks=True)
        for path, old, new in b["edits"]:
            f = os.path.join(tree, path)
            s = open(f).read()
            if s.count(old) != 1:
                return "edit matches {} times in {}: {!r}".format(
                    s.count(old), path, old[:60])
            open(f, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tree,
                              stdout=subprocess.PIPE, text=True).stdout
        notorig = []
        u0 = subprocess.run(["git", "diff", "-U0"], cwd=tree,
                            stdout=subprocess.PIPE, text=True).stdout
        for path in sorted({e[0] for e in b["edits"]}):
            notorig += original(path, u0)
        if notorig:
            return "not original lines: {}".format(notorig[:2])
        d = os.path.join(tmp, "demo")
        os.mkdir(d)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        r0 = sh("timeout 290 bash {}/demo.sh".format(d), "/repo")
        r1 = sh("timeout 290 bash {}/demo.sh".format(d), tree)
        if r0.returncode != 0 or r1.returncode == 0:
            dbg = sh("PYTHONPATH=$PWD PYTHONWARNINGS=ignore "
                     "/opt/venv/bin/python {}/demo.py 2>&1 | tail -5".format(d),
                     "/repo" if r0.returncode else tree)
            return "demo: clean {} patched {}\n{}\n{}\n{}".format(
                r0.returncode, r1.returncode, r0.stdout[-500:],
                r1.stdout[-500:], dbg.stdout)
        if tests:
            t = open("/opt/vp/test.sh").read().replace("/repo", tree)
            open(tmp + "/test.sh", "w").write(t)
            sh("bash {0}/test.sh {0}/o.json".format(tmp))
            s = sh("python3 {}/tools/stable.py {}/o.json".format(ROOT, tmp))
            if "121 stable, 0 missing" not in s.stdout:
                return "tests: " + s.stdout[-600:]
        out = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(d + "/" + n, out + "/" + n)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        return "kept"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    from concurrent.futures import ThreadPoolExecutor
    bugs = [b for b in m.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for b, r in zip(bugs, ex.map(plant, bugs)):
            print(b["id"], "->", r, flush=True)
