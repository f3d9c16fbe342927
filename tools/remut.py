"""python3 tools/remut.py OUT.jsonl LINE-SUBSTRING CHECK [...]: re-run checks on
the surviving mutants of a sweep whose file:line contains the substring."""
import json, os, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for ln in open(sys.argv[1]):
    d = json.loads(ln)
    if d["killed"] or sys.argv[2] not in "%s:%d " % (d["file"], d["line"]):
        continue
    w = "/tmp/mut/r%d" % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/v/evidence")
    for q in ("vlib", "checks"):
        shutil.copytree(R + "/" + q, w + "/v/" + q)
    for q in ("run.sh", "KNOWN_FINDINGS.txt"):
        shutil.copy(R + "/" + q, w + "/v/" + q)
    subprocess.run("sed -i 's#/repo#{0}/r#' {0}/v/run.sh {0}/v/vlib/core.py"
                   .format(w), shell=True)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"])
    f = w + "/r/" + d["file"]
    raw = open(f, "rb").read()
    open(f, "wb").write(raw[:d["a"]] + d["new"].encode() + raw[d["b"]:])
    for c in sys.argv[3:]:
        p = subprocess.run(["bash", w + "/v/run.sh", c, "quick"],
                           env=dict(os.environ, VERIF_FAILFAST="1"),
                           capture_output=True, text=True)
        print(d["file"], d["line"], d["old"], "->", d["new"], c,
              p.returncode, (p.stdout.split("key=") + [""])[1][:60].split("\n")[0])
    shutil.rmtree(w, ignore_errors=True)
