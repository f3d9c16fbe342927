"""Compare a results file of /opt/vp/test.sh with the stable baseline."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open(sys.argv[1]))
def names(d):
    for k in ("stable", "stable_tests", "passed", "tests"):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else [n for n, s in v.items() if s in ("passed", True)])
    return set(n for n, s in d.items() if s == "passed")
miss = names(b) - names(r)
print(len(names(b)), "stable,", len(miss), "missing", sorted(miss)[:20])
sys.exit(bool(miss))
