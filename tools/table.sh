#!/bin/bash
# tools/table.sh: run every planted bug (tools/try.sh) and rewrite the table at
# the end of DESIGN.md
cd "$(dirname "$0")/.."
ls seeded | xargs -P 2 -n 1 bash tools/try.sh > /tmp/table.txt
python3 - <<'P'
import json, re
rows = []
for line in sorted(open("/tmp/table.txt")):
    p = line.split()
    if len(p) < 3:
        continue
    needs = json.load(open("seeded/%s/meta.json" % p[0]))["needs"]
    keys = [k[4:] for k in p[4:] if k.startswith("key=")]
    rows.append("| %s | %s | %s | %s |" % (
        p[0], needs.replace("|", "/"), p[1] if "exit=1" in p[2] else "not caught",
        ", ".join(keys)))
s = open("DESIGN.md").read()
t = "| planted bug | needs | caught by | monitor keys |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
a = s.index("<!-- table -->")
open("DESIGN.md", "w").write(s[:a] + "<!-- table -->\n" + t)
print(len(rows), "rows")
P
