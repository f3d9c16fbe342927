"""Mutation sweep: find behaviour changes that no check notices.

    python3 tools/mutate.py OUT.jsonl N SEED [FILE-SUBSTRING ...]

Changes one token of one function of a scratch copy of /repo at a time and
runs the related checks (fail-fast). Survivors are to be reviewed by hand: an
equivalent change, a fact no property states, or a gap."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut/w%d" % os.getpid()
B = "optbinning/binning/"
MAP = {
    B + "binning.py": "B01 B03 B04 B05 B07 R01 B08",
    B + "continuous_binning.py": "C01 C02 B07 R01 B08",
    B + "multiclass_binning.py": "M01 M02 B07 R01 B08",
    B + "binning_statistics.py": "B03 B04 B05 C02 M02 D01 R01",
    B + "transformations.py": "B05 C02 M02 B06 P01",
    B + "preprocessing.py": "B03 R02 C02 R01 B07",
    B + "prebinning.py": "R01 B03 C02 B07",
    B + "mdlp.py": "R01 B07",
    B + "cp.py": "B01 B02 U01 S02", B + "mip.py": "B01 B02 S02",
    B + "continuous_cp.py": "C01", B + "multiclass_cp.py": "M01",
    B + "multiclass_mip.py": "M01", B + "model_data.py": "B01 B02 M01 C01",
    B + "model_data_cp_optimizer.py": "", B + "auto_monotonic.py":
    "B01 C01 M01 U01 B04", B + "outlier.py": "R02",
    B + "metrics.py": "B04 T01 B02", B + "binning_process.py":
    "P01 P02 P03 B06 B08", B + "binning_process_information.py": "P02",
    B + "distributed/gk.py": "S01", B + "distributed/bsketch.py": "S02 S01",
    B + "distributed/binning_sketch.py": "S02 B08 B06",
    B + "distributed/binning_process_sketch.py": "S02 B08 P02",
    B + "distributed/plots.py": "", B + "distributed/base.py": "B08",
    B + "uncertainty/binning_scenarios.py": "U01 B07 B06",
    B + "multidimensional/": "D01 D02 B06 B07",
    B + "piecewise/": "W01 B06 B07",
    "optbinning/scorecard/scorecard.py": "K01 K02 B08",
    "optbinning/scorecard/rounding.py": "K02",
    "optbinning/scorecard/monitoring.py": "K03",
    "optbinning/scorecard/monitoring_information.py": "K03",
    "optbinning/scorecard/counterfactual/": "X01",
    "optbinning/scorecard/plots.py": "T01",
    "optbinning/metrics/": "T01 B04",
}
SKIP_FUNCS = re.compile(r"^(_check_parameters|_check_.*|plot.*|information|"
                        r"_print.*|print_.*|__repr__|_verbose.*|"
                        r"plot_progress)$")
# "checks": only validation functions, judged by E01; "plots": only plotting
# functions, judged by V01; "info": reports, logs and timings, judged by I01;
# "guards": conditions of raise outside of the validation functions (E01)
SRC = os.environ.get("MUT_SRC", "/repo")
MODE = os.environ.get("MUT_MODE", "")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"],
       ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"],
       ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
NAMES = [("special", "missing"), ("nonevent", "event"), ("min", "max"),
         ("argmin", "argmax"), ("any", "all"), ("left", "right"),
         ("floor", "ceil"), ("_x", "_y"), ("rows", "cols"),
         ("minimum", "maximum"), ("expected", "actual"), ("lb", "ub"),
         ("ascending", "descending"), ("concave", "convex"),
         ("peak", "valley"), ("nanmin", "nanmax")]


def sites(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    out = []

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def walk(n, fn):
        if isinstance(n, ast.FunctionDef) and MODE in ("info", "guards"):
            for s in n.body:
                walk(s, "." + n.name if MODE == "info" and not re.match(
                    "information|_?print|solver_stat", n.name) else n.name)
            return
        if isinstance(n, (ast.FunctionDef,)):
            if MODE == "checks" and not n.name.startswith("_check") or \
                    MODE == "plots" and not re.match(".*plot", n.name) or \
                    MODE == "" and SKIP_FUNCS.match(n.name):
                return
            for s in n.body:
                walk(s, n.name)
            return
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                walk(s, fn)
            return
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(
                n.value, ast.Constant)):
            return
        if fn and MODE == "guards" and not fn.startswith("_check_"):
            if n.__class__ is ast.If and any(
                    isinstance(s, ast.Raise) for s in n.body):
                mut(n, fn)
                for c in ast.walk(n.test):
                    mut(c, fn)
            for c in ast.iter_child_nodes(n):
                walk(c, fn)
            return
        if MODE == "guards" and fn:
            return
        if fn and fn[0] == "." and MODE == "info":
            if isinstance(n, ast.If) and "verbose" in text(n.test) or \
                    isinstance(n, (ast.Assign, ast.AugAssign)) and \
                    re.search(r"_time|time_", text(n)):
                fn = fn[1:]
            else:
                for c in ast.iter_child_nodes(n):
                    walk(c, fn)
                return
        if MODE == "info" and fn:
            mut(n, fn)
            for c in ast.iter_child_nodes(n):
                walk(c, fn)
            return
        if isinstance(n, ast.If) and "verbose" in text(n.test):
            return
        if isinstance(n, (ast.Assign, ast.Expr)) and (
                "time" in text(n) or "logger" in text(n)):
            return
        if isinstance(n, ast.If) and any(isinstance(s, ast.Raise)
                                         for s in n.body) and fn \
                and MODE != "checks":
            return
        if fn:
            mut(n, fn)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    def add(n, fn, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind, fn, n.lineno))

    def mut(n, fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            for new in CMP[type(n.ops[0])]:
                mid = raw[a:b].decode()
                old = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
                       ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
                       ast.IsNot: "is not", ast.In: "in",
                       ast.NotIn: "not in"}[type(n.ops[0])]
                if mid.count(old) == 1:
                    out.append((a, b, mid.replace(old, new), "cmp", fn,
                                n.lineno))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[
                type(n.op)]
            if mid.count(old) == 1 and not isinstance(n.left, ast.Constant) \
                    or not isinstance(getattr(n.left, "value", 0), str):
                out.append((a, b, mid.replace(old, BIN[type(n.op)]), "bin",
                            fn, n.lineno))
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or",
                                                                    "and")
            if mid.count(o) == 1 and len(n.values) == 2:
                out.append((a, b, mid.replace(o, w), "bool", fn, n.lineno))
        elif isinstance(n, ast.Constant) and isinstance(
                n.value, (int, float)) and not isinstance(n.value, bool):
            new = {0: "1", 1: "2", 2: "1"}.get(n.value)
            if new is None:
                new = repr(n.value + 1 if isinstance(n.value, int)
                           else n.value * 2)
            add(n, fn, new, "const")
            if n.value == 1:
                add(n, fn, "0", "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, fn, repr(not n.value), "flag")
        elif isinstance(n, ast.If):
            t = text(n.test)
            add(n.test, fn, "not ({})".format(t) if "\n" not in t else
                "not (" + t + ")", "negate")
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.USub, ast.Not, ast.Invert)):
            add(n, fn, text(n.operand), "unary")
        elif isinstance(n, (ast.Name, ast.Attribute)):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            for u, v in NAMES:
                for p, q in ((u, v), (v, u)):
                    if p == "event" and "nonevent" in nm:
                        continue
                    if p in nm.split("_") or (p[0] == "_" and nm.endswith(p)) \
                            or nm == p:
                        t = text(n)
                        i = t.rindex(nm)
                        add(n, fn, t[:i] + nm.replace(p, q), "name")
        elif isinstance(n, ast.AugAssign):
            a, b = span(n.target)[1], span(n.value)[0]
            mid = raw[a:b].decode()
            for o, w in (("+=", "-="), ("-=", "+=")):
                if o in mid:
                    out.append((a, b, mid.replace(o, w), "aug", fn, n.lineno))
                    out.append((a, b, mid.replace(o, "="), "aug", fn,
                                n.lineno))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, fn, "pass", "drop")
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], ast.Attribute):
            add(n, fn, "pass", "drop")

    for s in tree.body:
        walk(s, None)
    return [s for s in out if raw[s[0]:s[1]].decode() != s[2]], raw


def files():
    o = subprocess.run(["git", "ls-files", "optbinning"], cwd=SRC,
                       capture_output=True, text=True).stdout.split()
    return [f for f in o if f.endswith(".py") and not f.endswith(
        "__init__.py") and "_ls.py" not in f and checks(f)]


def checks(f):
    best = ""
    for k in MAP:
        if f.startswith(k) and len(k) > len(best):
            best = k
    if MODE:
        return [{"checks": "E01", "plots": "V01", "info": "I01",
                 "guards": "E01"}[MODE]]
    return MAP.get(best, "").split()


def main():
    outp, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pats = sys.argv[4:]
    rng = random.Random(seed)
    pool = []
    for f in files():
        if pats and not any(p in f for p in pats):
            continue
        s, _ = sites(open(SRC + "/" + f).read())
        pool += [(f,) + x for x in s]
    print(len(pool), "sites")
    # spread over functions rather than over tokens
    by = {}
    for p in pool:
        by.setdefault((p[0], p[5]), []).append(p)
    for v in by.values():
        rng.shuffle(v)
    picked = []
    while len(picked) < n and by:
        for k in sorted(by, key=lambda k: rng.random()):
            take = max(1, len(by[k]) // 25)
            for _ in range(take):
                if by[k]:
                    picked.append(by[k].pop())
            if not by[k]:
                del by[k]
    picked = picked[:n]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    for d in ("vlib", "checks"):
        shutil.copytree(ROOT + "/" + d, W + "/v/" + d)
    os.makedirs(W + "/v/evidence")
    for f in ("run.sh", "KNOWN_FINDINGS.txt"):
        shutil.copy(ROOT + "/" + f, W + "/v/" + f)
    subprocess.run("sed -i 's#/repo#{0}/r#' {0}/v/run.sh {0}/v/vlib/core.py"
                   .format(W), shell=True)
    subprocess.run(["git", "clone", "-q", SRC, W + "/r"])
    for f, a, b, new, kind, fn, line in picked:
        raw = open(SRC + "/" + f, "rb").read()
        mod = raw[:a] + new.encode() + raw[b:]
        try:
            compile(mod, f, "exec")
        except SyntaxError:
            continue
        open(W + "/r/" + f, "wb").write(mod)
        t, res = time.time(), None
        env = dict(os.environ, VERIF_FAILFAST="1", VERIF_CAP="200")
        for c in checks(f):
            p = subprocess.run(["bash", W + "/v/run.sh", c, "quick"], env=env,
                               capture_output=True, text=True)
            if p.returncode:
                m = re.search(r"key=(\S+)", p.stdout)
                res = "{}:{}:{}".format(c, p.returncode,
                                        m.group(1) if m else "")
                break
        open(W + "/r/" + f, "wb").write(raw)
        ln = raw.decode().split("\n")[line - 1].strip()
        json.dump(dict(file=f, line=line, fn=fn, kind=kind,
                       old=raw[a:b].decode(), new=new, src=ln, killed=res,
                       t=round(time.time() - t, 1), a=a, b=b),
                  open(outp, "a"))
        open(outp, "a").write("\n")
    shutil.rmtree(W, ignore_errors=True)


main()
