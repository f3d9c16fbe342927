"""Monitor harness: runs workload cases in a process pool while monitors
observe the real library, collects violations, matches them against the
committed known findings and writes the evidence file.

A check module defines
    PROP      property id
    RULE      text: what makes a case count as non-trivial
    FAMILIES  {name: (function(rng, mon), n_quick, n_thorough)}
    REQUIRED  {counter: minimum} that must have been observed, or the run is
              inconclusive (exit 2), never "held".
"""
import collections
import fnmatch
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib
from multiprocessing.connection import wait

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_TIMEOUT = 120
SOLVER_ABORTS = 5       # per run; more of them are reported


class CaseTimeout(BaseException):
    pass


class Mon:
    """One per case: records what was observed and what was violated."""

    def __init__(self, family, index, seed, verbose=False):
        self.family, self.index, self.seed = family, index, seed
        self.counts = collections.Counter()
        self.violations = []
        self.sigs = set()
        self.samples = []
        self.verbose = verbose
        self.evals = 0

    def check(self, ok, key, msg=""):
        """Evaluate one monitor assertion."""
        self.evals += 1
        if not bool(ok):
            self.fail(key, msg)
            return False
        return True

    def fail(self, key, msg=""):
        msg = msg() if callable(msg) else msg
        if len(self.violations) < 20:
            self.violations.append((key, str(msg)[:1500]))
        if self.verbose:
            print("  VIOLATED", key, str(msg)[:3000])

    def close(self, a, b, key, msg="", rtol=1e-9, atol=1e-9):
        self.evals += 1
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
            ok = a.shape == b.shape and np.allclose(
                a, b, rtol=rtol, atol=atol, equal_nan=True)
        except (TypeError, ValueError):
            ok = False
        if not ok:
            m = msg() if callable(msg) else msg
            self.fail(key, "{}: got {!r} expected {!r}".format(m, a, b))
        return ok

    def seen(self, counter, n=1):
        self.counts[counter] += n

    def sig(self, *parts):
        """Signature of a distinct non-trivial situation observed."""
        self.sigs.add("|".join(str(p) for p in parts))

    def sample(self, text):
        if len(self.samples) < 1:
            self.samples.append(str(text)[:300])


def case_rng(prop, family, index, seed):
    return np.random.default_rng(
        [seed, zlib.crc32(prop.encode()), zlib.crc32(family.encode()), index])


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, family, index, seed, verbose=False):
    fn = mod.FAMILIES[family][0]
    mon = Mon(family, index, seed, verbose)
    rng = case_rng(mod.PROP, family, index, seed)
    np.random.seed(int(rng.integers(0, 2**31)))
    harness_error = None
    timeout = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        fn(rng, mon)
    except CaseTimeout:
        timeout = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/optbinning/" in f.filename]
        text = "".join(traceback.format_exception(e))[-1800:]
        if where:
            f = where[-1]
            key = "crash:{}:{}:{}".format(
                type(e).__name__, os.path.basename(f.filename), f.name)
            mon.fail(key, text)
        else:
            # the monitor could not interpret what the library returned (the
            # harness itself is exercised on the unchanged tree)
            harness_error = text
            mon.fail("unexpected:" + type(e).__name__, text)
        if verbose:
            print(text)
    finally:
        signal.alarm(0)
    return dict(family=family, index=index, counts=dict(mon.counts),
                violations=mon.violations, sigs=list(mon.sigs),
                samples=mon.samples, evals=mon.evals, timeout=timeout,
                harness_error=harness_error)


_MOD = None


LINES = set()        # (file, line) of the library executed, not yet sent


def watch_lines():
    """Record which lines of the library the workload executes (each line
    costs one callback, then none)."""
    m = getattr(sys, "monitoring", None)
    if m is None:
        return
    root = REPO + "/optbinning/"

    def line(code, n):
        if code.co_filename.startswith(root):
            LINES.add((code.co_filename[len(root):], n))
        return m.DISABLE

    try:
        m.use_tool_id(m.COVERAGE_ID, "verif")
        m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)
    except ValueError:
        pass


def function_lines(path):
    """The executable lines of the functions of a source file."""
    out = set()

    def walk(code, top):
        if not top:
            out.update(n for _, _, n in code.co_lines()
                       if n and n != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                walk(c, c.co_name == "<module>" or
                     "__qualname__" in c.co_names)

    walk(compile(open(path).read(), path, "exec"), True)
    return out


def line_report(lines):
    """file -> [executed, executable] for the files the workload reached."""
    rep = {}
    for f in sorted({f for f, _ in lines}):
        every = function_lines(os.path.join(REPO, "optbinning", f))
        got = {n for g, n in lines if g == f} & every
        if got:
            rep[f] = [len(got), len(every)]
    return rep


def _serve(conn, flag):
    _quiet()
    watch_solver(flag)
    watch_lines()
    # joblib runs everything serially in a daemonic process; the pool still
    # ends this process as a daemonic one
    mp.current_process()._config["daemon"] = False
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        r = run_case(_MOD, *job)
        r["lines"] = list(LINES)
        LINES.clear()
        conn.send(r)


def _dead(job, key, text):
    family, index, seed = job
    return dict(family=family, index=index, counts={}, sigs=[], samples=[],
                violations=[(key, text)] if key else [], evals=0,
                timeout=key is None, harness_error=None)


def run_pool(work, nproc, deadline):
    """Yield the result of every case; a case that ends its process or never
    returns is attributed to that case."""
    ctx = mp.get_context("fork")
    work = list(reversed(work))
    live = {}                          # conn -> [proc, job, started, flag]
    aborts = 0

    def spawn():
        a, b = ctx.Pipe()
        flag = ctx.RawValue("i", 0)
        p = ctx.Process(target=_serve, args=(b, flag), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0., flag]
        return a

    def feed(c):
        if work:
            live[c][1:3] = [work.pop(), time.time()]
            c.send(live[c][1])
        else:
            live[c][1] = None

    try:
        for _ in range(nproc):
            feed(spawn())
        while any(v[1] for v in live.values()):
            now = time.time()
            if now > deadline:
                return
            for c in wait([c for c, v in live.items() if v[1]],
                          timeout=min(5, deadline - now)):
                job = live[c][1]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    p, _, _, flag = live.pop(c)
                    p.join(5)
                    if flag.value and p.exitcode == -signal.SIGABRT and \
                            aborts < SOLVER_ABORTS:
                        # OR-tools' MIP solver ended the process with a
                        # failed internal check: not judged
                        aborts += 1
                        r = _dead(job, None, "")
                        r["counts"]["third-party solver aborted"] = 1
                        r["timeout"] = False
                        yield r
                        feed(spawn())
                        continue
                    yield _dead(job, "crash:process-ended", "the process "
                                "running the case ended with code {} ({})"
                                .format(p.exitcode, job))
                    feed(spawn())
                    continue
                feed(c)
                yield r
            for c, (p, job, t, _) in list(live.items()):
                if job and time.time() - t > CASE_TIMEOUT + 30:
                    p.kill()
                    p.join(5)
                    del live[c]
                    yield _dead(job, None, "")
                    feed(spawn())
    finally:
        for c, (p, _, _, _) in live.items():
            p.kill()


def _quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)          # solver chatter on stderr
    os.dup2(fd, 1)


def load_known():
    known, path = [], os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                head, _, desc = line[6:].partition("|")
                kv = dict(p.split("=", 1) for p in head.split())
                known.append((kv["property"], kv["key"], desc.strip()))
    return known


def patch_solver():
    """Single-threaded CP-SAT: deterministic and no oversubscription of the
    process pool. Every n-th case may undo it (see unpatched())."""
    from ortools.sat.python import cp_model
    if getattr(cp_model, "_verif_patched", False):
        return
    orig = cp_model.CpSolver

    class CpSolver(orig):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.parameters.num_workers = 1
            if HURRY:
                self.parameters.random_seed = HURRY["seed"]
                self.parameters.cp_model_presolve = HURRY["presolve"]
                if HURRY["stop"] == "first":
                    self.parameters.stop_after_first_solution = True
                else:
                    self.parameters.max_deterministic_time = 0.

        def solve(self, *a, **k):
            # (the library asked for a number of workers itself)
            if self.parameters.num_search_workers:
                self.parameters.num_workers = 0
            return super().solve(*a, **k)

    CpSolver.__name__ = "CpSolver"
    cp_model.CpSolver = CpSolver
    cp_model._verif_patched = True


HURRY = {}


def hurried(fn):
    """The same family with solvers that give up early, as a time limit makes
    them do: at the first solution (FEASIBLE) or before any (UNKNOWN)."""
    from ortools.linear_solver import pywraplp

    def f(rng, mon):
        HURRY.update(seed=int(rng.integers(1 << 20)),
                     presolve=bool(rng.random() < .5),
                     stop="first" if rng.random() < .85 else "none")
        orig = pywraplp.Solver.Solve

        def Solve(self, *a, **k):
            p = pywraplp.MPSolverParameters()
            p.SetDoubleParam(p.RELATIVE_MIP_GAP, 1e6)
            st = orig(self, p)
            if HURRY["stop"] == "none" and st == self.OPTIMAL:
                self.Clear()
                return self.NOT_SOLVED
            # (CBC may claim a solution of an infeasible problem, which the
            # library detects in solutions claimed to be optimal)
            if st == self.OPTIMAL and self.VerifySolution(1e-6, False):
                return self.FEASIBLE
            return st
        pywraplp.Solver.Solve = Solve
        try:
            fn(rng, mon)
        finally:
            pywraplp.Solver.Solve = orig
            HURRY.clear()
    return f


def hasty(mon, status):
    """is this the status of a hurried solver that found nothing?"""
    if not HURRY:
        return False
    mon.seen("hurried:" + str(status))
    return status == "UNKNOWN"


def watch_solver(flag):
    """flag = 1 while the linear solver runs"""
    from ortools.linear_solver import pywraplp
    orig = pywraplp.Solver.Solve

    def Solve(self, *a, **k):
        flag.value = 1
        try:
            return orig(self, *a, **k)
        finally:
            flag.value = 0
    pywraplp.Solver.Solve = Solve


def main(mod):
    global _MOD
    _MOD = mod
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    import optbinning
    assert os.path.dirname(optbinning.__file__) == REPO + "/optbinning"
    patch_solver()

    work = []
    only = os.environ.get("VERIF_FAMILY")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for fam, (fn, nq, nt) in mod.FAMILIES.items():
        if only and fam != only:
            continue
        n = nq if tier == "quick" else nt
        n = max(1, int(round(n * scale)))
        work += [(fam, i, seed) for i in range(n)]
    # interleave families
    order = np.random.default_rng(0).permutation(len(work))
    work = [work[i] for i in order]

    cap = float(os.environ.get("VERIF_CAP", 500 if tier == "quick" else 780))
    nproc = min(8, max(1, os.cpu_count() or 1), len(work))
    counts = collections.Counter()
    per_family = collections.Counter()
    violations = []   # (key, msg, family, index)
    sigs = set()
    samples, harness_errors, timeouts = [], [], []
    lines = set()
    evals = done = 0
    known = [k for k in load_known() if k[0] == mod.PROP]
    failfast = os.environ.get("VERIF_FAILFAST")   # used by tools/mutate.py
    sys.stdout.flush()
    for r in run_pool(work, nproc, t0 + cap):
        done += 1
        per_family[r["family"]] += 1
        counts.update(r["counts"])
        evals += r["evals"]
        sigs.update(r["sigs"])
        lines.update(r.get("lines", ()))
        samples += r["samples"] if len(samples) < 12 else []
        if r["timeout"]:
            timeouts.append((r["family"], r["index"]))
        if r["harness_error"]:
            harness_errors.append(
                (r["family"], r["index"], r["harness_error"]))
        for key, msg in r["violations"]:
            violations.append((key, msg, r["family"], r["index"]))
        if failfast and any(
                not any(fnmatch.fnmatchcase(v[0], k[1]) for k in known)
                for v in violations):
            break

    violations.sort(key=lambda v: (v[2], v[3], v[0]))
    reported, known_hits = collections.OrderedDict(), collections.OrderedDict()
    for key, msg, fam, idx in violations:
        for _, pat, desc in known:
            if fnmatch.fnmatchcase(key, pat):
                known_hits.setdefault((pat, desc), []).append((key, fam, idx))
                break
        else:
            reported.setdefault(key, []).append((msg, fam, idx))

    rdir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(mod.PROP + "-"):
            os.remove(os.path.join(rdir, f))
    # a listed finding is announced on every run that looked for it
    for _, pat, desc in known:
        n = len(known_hits.get((pat, desc), []))
        print("KNOWN-FINDING: property={} {} [{}: {} hit(s) in this run]"
              .format(mod.PROP, desc, pat, n))
    vio = []
    for n, (key, lst) in enumerate(reported.items()):
        msg, fam, idx = lst[0]
        path = os.path.join(rdir, "{}-{}.json".format(mod.PROP, n))
        json.dump(dict(property=mod.PROP, key=key, family=fam, index=idx,
                       seed=seed, tier=tier, message=msg,
                       all_cases=[(f, i) for _, f, i in lst][:50]),
                  open(path, "w"), indent=1)
        vio.append(dict(key=key, replay=path, cases=len(lst)))
        if n < 25:
            print("VIOLATION property={} replay={} key={} family={} case={} "
                  "({} case(s)): {}".format(
                      mod.PROP, path, key, fam, idx, len(lst),
                      " ".join(msg.split())[-400:]))

    missing = {k: (counts.get(k, 0), v) for k, v in
               getattr(mod, "REQUIRED", {}).items()
               if counts.get(k, 0) < v * min(1, scale)} if not only else {}
    wall = time.time() - t0
    ev = dict(
        property=mod.PROP, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(sigs), rule=mod.RULE,
            samples=samples[:12], cases=done, cases_planned=len(work),
            cases_per_family=dict(per_family),
            observed=dict(sorted(counts.items())),
            lines_executed=line_report(lines),
            timeouts=timeouts, harness_errors=len(harness_errors)),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(reported))
    if vio:
        ev["violation_list"] = vio
    if os.environ.get("VERIF_LINES"):      # used by tools/cover.py
        json.dump(sorted(lines), open(os.path.join(
            os.environ["VERIF_LINES"], mod.PROP + ".json"), "w"))
    json.dump(ev, open(os.path.join(
        ROOT, "evidence", mod.PROP + ".json"), "w"), indent=1)

    print("{}: {} cases ({} planned), {} monitor evaluations, {} distinct "
          "situations, {} violation kinds, {:.1f}s".format(
              mod.PROP, done, len(work), evals, len(sigs), len(reported),
              wall))
    for fam, idx, text in harness_errors[:3]:
        print("HARNESS-ERROR", fam, idx, text, file=sys.stderr)
    if reported:
        return 1
    if harness_errors:
        print("inconclusive: {} harness errors".format(len(harness_errors)))
        return 2
    if missing:
        print("inconclusive: not observed enough (seen, needed): {}".format(
            missing))
        return 2
    return 0
