"""I01: reports tell the truth, and asking for them changes nothing.

Monitors: the solver is watched (its own statistics are recorded at the end
of every Solve), the wall clock is read around every call, delays are injected
into one phase at a time, and all log records and printed text are collected.
"""
import contextlib
import copy
import inspect
import io
import logging
import os
import random
import re
import tempfile
import time
import warnings

import numpy as np
import pandas as pd
from ortools.linear_solver import pywraplp
from ortools.sat.python import cp_model

import optbinning
from optbinning import BinningProcess
from optbinning.binning import prebinning
from optbinning.scorecard import Counterfactual, ScorecardMonitoring
from vlib import score, zoo

PROP = "I01"
RULE = ("one report counts when its sections, options, counts, solver "
        "statistics and timings were all read back and compared; distinct = "
        "(estimator, sections shown, options changed, phase delayed)")
ASSUMPTIONS = [
    "times are printed with two digits, so a delay of 0.12 s injected into "
    "one phase must appear in that phase and in the total",
    "lists, arrays and dictionaries given by the user are printed as 'yes' "
    "and flagged U, as the library documents for options",
    "what third-party solvers print themselves is not judged"]
REQUIRED = {"report": 900, "options": 9000, "user option": 2500,
            "cp statistics": 250, "mip statistics": 100, "timing": 500,
            "delayed": 150, "repeat": 600, "verbose run": 250,
            "log counts": 800, "silent": 450, "counts": 1500,
            "history of sketch": 40, "objective value": 25,
            "no optimizer": 15, "updated": 4, "outliers": 40, "restored": 80,
            "restored used": 80, "delayed solves": 10, "refit": 60,
            "log trend": 80, "log conservation": 150, "log categories": 12,
            "log outliers": 20, "log user splits": 30}

EPS = .011
DELAY = .12


# ------------------------------------------------------------- observation
class Watch:
    """what the solvers themselves say at the end of every Solve"""

    def __init__(self):
        self.cp, self.mip, self.delay = [], [], {}

    def slow(self, phase):
        time.sleep(self.delay.get(phase, 0))


@contextlib.contextmanager
def watching():
    w = Watch()
    ocp, omip = cp_model.CpSolver.Solve, pywraplp.Solver.Solve
    opre = prebinning.PreBinning.fit

    def cp(self, *a, **k):
        w.slow("solver")
        st = ocp(self, *a, **k)
        with contextlib.suppress(RuntimeError):
            w.cp.append(dict(zip(
                ("Number of booleans", "Number of branches",
                 "Number of conflicts", "Objective value",
                 "Best objective bound", "wall"),
                (self.NumBooleans(), self.NumBranches(), self.NumConflicts(),
                 int(self.ObjectiveValue()), int(self.BestObjectiveBound()),
                 self.WallTime()))))
        return st

    def mip(self, *a, **k):
        w.slow("solver")
        st = omip(self, *a, **k)
        o = self.Objective()
        w.mip.append({"Number of variables": self.NumVariables(),
                      "Number of constraints": self.NumConstraints(),
                      "Objective value": o.Value(),
                      "Best objective bound": o.BestBound()})
        return st

    def pre(self, *a, **k):
        w.slow("prebinning")
        return opre(self, *a, **k)

    cp_model.CpSolver.Solve, pywraplp.Solver.Solve = cp, mip
    prebinning.PreBinning.fit = pre
    try:
        yield w
    finally:
        cp_model.CpSolver.Solve, pywraplp.Solver.Solve = ocp, omip
        prebinning.PreBinning.fit = opre


@contextlib.contextmanager
def slowed(cls):
    """fit of a class takes longer"""
    if cls is None:
        yield
        return
    orig = cls.fit

    def fit(self, *a, **k):
        time.sleep(DELAY)
        return orig(self, *a, **k)
    cls.fit = fit
    try:
        yield
    finally:
        cls.fit = orig


@contextlib.contextmanager
def listening():
    """printed text and log records of the library"""
    out, logs = io.StringIO(), []
    orig = logging.Logger.handle
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)

    def handle(self, record):
        if record.pathname.replace("\\", "/").rfind("/optbinning/") >= 0:
            logs.append(record.getMessage())
        else:
            orig(self, record)
    logging.Logger.handle = handle
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield out, logs
    finally:
        logging.Logger.handle = orig
        logging.disable(off)


def text_of(o, *a):
    with listening() as (out, _):
        r = o.information(*a)
    return out.getvalue() if r is None else None


class Report:
    """printed report -> options, sections of (label, text)"""

    def __init__(self, text):
        self.text = text
        self.options, self.flags, self.order = {}, {}, []
        self.sections = []
        self.values = {}
        section = ""
        inside = False
        for line in text.split("\n"):
            s = line.strip()
            if s == "Begin options":
                inside = True
            elif s == "End options":
                inside = False
            elif inside:
                m = re.match(r"^    (\S+)\s+(.*?)\s+\* (\S)$", line)
                if m:
                    self.options[m[1]], self.flags[m[1]] = m[2], m[3]
                    self.order.append(m[1])
                elif s:
                    self.order.append("?" + s)
            elif s and re.match(r"^  \S", line) and ":" not in line and \
                    not re.search(r"\s{6}", s):
                section = s
                self.sections.append(s)
            elif s:
                m = re.match(r"^([^:]*?)\s*: (.*)$", s) or re.match(
                    r"^(.*?)\s{2,}(.*)$", s)
                if m:
                    self.values[section, m[1].strip()] = m[2].strip()

    def get(self, label, section=None):
        for (s, k), v in self.values.items():
            if k == label and section in (None, s):
                return v


def sec(v):
    m = re.match(r"^(-?[\d.]+)\s+sec", v or "")
    return float(m[1]) if m else None


def share(v):
    m = re.search(r"\(\s*(-?[\d.]+)%\)", v or "")
    return float(m[1]) / 100 if m else None


# ------------------------------------------------------------------ judges
def signature(cls):
    return {k: p for k, p in inspect.signature(cls.__init__)
            .parameters.items() if k != "self" and p.kind not in
            (p.VAR_KEYWORD, p.VAR_POSITIONAL)}


HIDDEN = ("variable_names",)          # required names are no option


def options(mon, o, r, tag):
    sig = signature(type(o))
    mine = {k: getattr(o, k) for k in sig}
    names = [k for k in sig if k not in HIDDEN]
    extra = {"estimator"} if "PW" in type(o).__name__ else set()
    mon.check(set(names) <= set(r.order) and
              set(r.order) <= set(names) | extra and
              len(set(r.order)) == len(r.order), "options-listed",
              lambda: "{}: shown {} of {}".format(
                  type(o).__name__, r.order, names))
    for k in names:
        if k not in r.options:
            continue
        mon.seen("options")
        v, d = mine[k], sig[k].default
        if d is inspect.Parameter.empty:
            d = None
        yes = isinstance(v, (list, np.ndarray, dict)) or hasattr(
            v, "get_params")
        want = "no" if v is None else "yes" if yes else str(v)
        flag = "U" if yes or v != d else "d"
        if flag == "U":
            mon.seen("user option")
        mon.check(r.options[k] == want and r.flags[k] == flag,
                  "option-" + k, lambda: "{} = {!r} is shown as {} {} ({})"
                  .format(k, v, r.options[k], r.flags[k], tag))


def has(mon, r, label, want, tag, section=None, key=None):
    mon.seen("counts")
    got = r.get(label, section)
    key = key or "count-" + label.lower().replace(" ", "-")
    if isinstance(want, float):
        try:
            got = float(got)
        except (TypeError, ValueError):
            pass
        # (a t-digest counts in floats)
        ok = isinstance(got, float) and abs(got - want) <= 6e-5 + 1e-6 * abs(
            want) or got == want
    else:
        ok = str(got) == str(want)
    mon.check(ok, key, lambda: "{}: shown {} expected {}; {}".format(
        label, got, want, tag))


def timing(mon, r, wall, parts, tag, total="Total time", inner=()):
    """the phases add up to the total, which fits in the wall clock"""
    t = sec(r.get(total, "Timing"))
    if not mon.check(t is not None, "timing-missing", tag):
        return
    mon.seen("timing")
    if wall is not None:
        mon.check(0 <= t <= wall + EPS, "timing-total", lambda:
                  "total {} s, measured {} s; {}".format(t, wall, tag))
    s = 0.
    for p in parts:
        v = r.get(p, "Timing")
        a, b = sec(v), share(v)
        if not mon.check(a is not None and b is not None, "timing-phase",
                         lambda: "{}: {}".format(p, v)):
            return
        s += a
        mon.check(-1e-4 <= b <= 1.0001 and a <= t + EPS, "timing-share",
                  lambda: "{}: {} of {} s ({})".format(p, v, t, tag))
        if t > .05:
            e = .006 * (1 + b) / (t - .006) + 2e-4
            mon.check(abs(a / t - b) <= e, "timing-share", lambda:
                      "{}: {} is not the share of {} s ({})".format(
                          p, v, t, tag))
    b = sum(share(r.get(p, "Timing")) for p in parts)
    mon.check(b <= 1 + 1e-4 * len(parts), "timing-shares", lambda:
              "the shares add up to {}; {}".format(b, tag))
    mon.check(s <= t + .006 * (len(parts) + 1), "timing-sum", lambda:
              "phases {} s total {} s; {}".format(s, t, tag))
    for p, of in inner:
        v = r.get(p, "Timing")
        b = share(v)
        mon.check(b is not None and -1e-4 <= b <= 1.0001, "timing-inner",
                  lambda: "{}: {} ({})".format(p, v, tag))
    if len(inner) > 1:
        b = sum(share(r.get(p, "Timing")) or 0 for p, _ in inner)
        mon.check(abs(b - 1) < 3e-4, "timing-inner", lambda:
                  "shares of {} add up to {}".format(inner, b))
    return t


def fallen(mon, r, phase, others, tag):
    """the injected delay shows where it happened"""
    mon.seen("delayed")
    a = sec(r.get(phase, "Timing"))
    mon.check(a is not None and a >= DELAY - EPS, "delay-missing", lambda:
              "{} s were spent in {}, shown {}; {}".format(
                  DELAY, phase, a, tag))
    for p in others:
        b = sec(r.get(p, "Timing"))
        mon.check(b is None or b < DELAY or a >= DELAY, "delay-elsewhere", p)


def solver(mon, r, w, kind, tag):
    """solver statistics are those of the last call of the solver"""
    S = "Solver statistics"
    recs = w.cp if kind == "cp" else w.mip
    if not recs:
        mon.check(S not in r.sections, "solver-unused", tag)
        return
    rec = recs[-1]
    mon.seen(kind + " statistics")
    has(mon, r, "Type", kind, tag, S, "solver-type")
    for k, v in rec.items():
        if k != "wall":
            has(mon, r, k, v if kind == "cp" else (
                float(v) if "Number" not in k else v), tag, S,
                "solver-" + k.lower().replace(" ", "-"))


def same_twice(mon, o, level, text, tag):
    mon.seen("repeat")
    again = text_of(o, level)
    mon.check(again == text, "repeat", lambda: "second report differs: {}"
              .format(tag))


def header(mon, r, tag):
    mon.check(r.text.startswith("optbinning (Version {})".format(
        optbinning.__version__)), "header", lambda: r.text[:60])


# --------------------------------------------------------------- log records
def log_counts(mon, logs, want, tag):
    for k, v in want.items():
        got = [s.rsplit(":", 1)[1].strip() for s in logs
               if re.search(k + "$", s.rsplit(":", 1)[0])]
        if got:
            mon.seen("log counts")
            mon.check(all(g.rstrip(".") == str(v) for g in got),
                      "log-" + k.replace(" ", "-"), lambda:
                      "logged {}: {} expected {}; {}".format(k, got, v, tag))


def data_counts(kind, m, o):
    """samples, missing and special values of the fitted data"""
    a = m.a["args"]
    if kind == "twod":
        return {"number of samples": len(a[0])}
    x = np.concatenate(a[0]) if kind == "scenario" else np.asarray(a[0])
    want = {"number of samples": len(x)}
    miss = pd.isnull(x)
    sp = o.special_codes
    codes = [c for v in sp.values() for c in np.ravel(np.asarray(
        v, dtype=object))] if isinstance(sp, dict) else \
        [] if sp is None else list(sp)
    spec = pd.Series(x).isin(codes).to_numpy() & ~miss
    want["number of missing samples"] = int(miss.sum())
    want["number of special samples"] = int(spec.sum())
    det = getattr(o, "outlier_detector", None)
    cat = getattr(o, "dtype", "") == "categorical"
    if det is None and not (cat and (o.cat_cutoff is not None or
                                     getattr(o, "user_splits", None)
                                     is not None)):
        want["number of clean samples"] = int((~miss & ~spec).sum())
    return want


def log_model(mon, logs, kind, m, o, tag):
    """trends, categories, user splits and the fate of every record"""
    said = {}
    for s in logs:
        a = re.search(r"monotonic trend ?([xy]?) (?:set to (.*)|(not set))\.$",
                      s)
        if a:
            said.setdefault("monotonic_trend" + ("_" if a[1] else "") + a[1],
                            []).append(a[2] or "None")
    for k, v in said.items():
        t = getattr(o, k)
        if isinstance(t, str) and t.startswith("auto"):
            continue
        if t is not None and getattr(o, "dtype", "") == "categorical":
            t = "ascending"             # (bins are ordered by their rate)
        mon.seen("log trend")
        mon.check(set(v) == {str(t)}, "log-trend", lambda:
                  "logged {} {}, fitted with {}; {}".format(k, v, t, tag))
    num = {}
    for s in logs:
        a = re.search(r"(number of [a-z ]+|user splits supplied): (\d+)\.?$", s)
        if a:
            num[a[1]] = int(a[2])
    us = getattr(o, "user_splits", None)
    if "user splits supplied" in num and us is not None:
        mon.seen("log user splits")
        mon.check(num["user splits supplied"] == len(us), "log-user-splits",
                  lambda: "{} of {}; {}".format(num, len(us), tag))
    g = {k: num.get("number of %s samples" % k) for k in (
        "clean", "missing", "special", "outlier", "others")}
    if g["clean"] is not None and "number of samples" in num and (
            getattr(o, "outlier_detector", None) is None or
            g["outlier"] is not None):
        mon.seen("log conservation")
        if g["outlier"]:
            mon.seen("log outliers")
        if g["others"]:
            mon.seen("log others")
        mon.check(sum(v or 0 for v in g.values()) == num["number of samples"],
                  "log-conservation", lambda: "{}; {}".format(num, tag))
    if "number of categories" in num and kind in ("binary_cat", "cont_cat") \
            and us is None:
        x = pd.Series(m.a["args"][0])
        sp = o.special_codes
        codes = [] if sp is None else list(sp) if not isinstance(sp, dict) \
            else [c for v in sp.values() for c in np.ravel(np.asarray(
                v, dtype=object))]
        n_cat = x[~x.isnull() & ~x.isin(codes)].nunique()
        mon.seen("log categories")
        mon.check(num["number of categories"] + num.get(
            "number of categories others", 0) == n_cat, "log-categories",
            lambda: "{}, the data have {}; {}".format(num, n_cat, tag))


# ---------------------------------------------------------------- estimators
PHASES = {"sketch": ("Pre-binning", "Solver", "Post-processing"),
          "piecewise": ("Pre-processing", "Estimator", "Pre-binning",
                        "Solver", "Post-processing")}
BIN = ("Pre-processing", "Pre-binning", "Solver", "Post-processing")


def bins_of(m, o):
    t = m.tables(o)[0]
    return t


def binners(kind):
    def f(rng, mon):
        m = zoo.ALL[kind](rng)
        if rng.random() < .6 and "name" in signature(m.cls):
            m.kw["name"] = str(rng.choice(["v", "a long name", "x_1"]))
        if kind == "twod":
            for k in ("name_x", "name_y"):
                if rng.random() < .5:
                    m.kw[k] = str(rng.choice(["u", "v w"]))
        tag = m.tag
        mon.sample(tag)
        with watching() as w:
            phase = [None, "solver", "prebinning"][
                int(rng.choice(3, p=[.6, .25, .15]))]
            if phase:
                w.delay[phase] = DELAY
            o = m.new()
            if rng.random() < .35 and kind not in ("sketch", "piecewise"):
                # the report is about the last fit, here of other data
                mon.seen("refit")
                with contextlib.suppress(Exception):
                    m.fit(o, m.b)
                w.cp.clear(), w.mip.clear()
            try:
                with listening() as (out, logs):
                    random.seed(0)
                    t0 = time.perf_counter()
                    m_fit(m, o)
                    wall = time.perf_counter() - t0
            except Exception:
                mon.seen("no model")
                return
            mon.seen("silent")
            mon.check(out.getvalue() == "" and not logs, "not-silent",
                      lambda: "printed {!r} logged {} ({})".format(
                          out.getvalue()[:200], logs[:3], tag))
            before = zoo.state(m, o)
            levels = rng.permutation(3)
            for level in levels:
                text = text_of(o, int(level))
                if not mon.check(text is not None, "returns", tag):
                    return
                judge(mon, rng, kind, m, o, int(level), Report(text), w,
                      wall, phase, tag)
                same_twice(mon, o, int(level), text, tag)
            if text_of(o) != text_of(o, 1):
                mon.fail("default-level", tag)
            zoo.same_state(mon, before, zoo.state(m, o), "report-changed",
                           lambda: tag)
        if kind.split("_")[0] in ("binary", "cont", "multi") and \
                rng.random() < .5:
            restored(mon, rng, kind, m, o, tag)
        if rng.random() < .6:
            loud(mon, rng, kind, m, o, before, tag)
    return f


def restored(mon, rng, kind, m, o, tag):
    """the report of bins read from a file: theirs, and nothing of others"""
    n = m.cls()
    used = bool(rng.random() < .5)
    with tempfile.TemporaryDirectory(prefix="i01") as folder:
        path = os.path.join(folder, "m.json")
        o.to_json(path)
        if used:                       # an object fitted before
            x = rng.normal(size=70)
            y = rng.normal(size=70) if kind.startswith("cont") else (
                x + rng.normal(size=70) > 0).astype(int) + (
                    (x > .8) * (kind == "multi"))
            zoo.quiet(n.fit, x, y)
        n.read_json(path)
    ref = Report(text_of(o, 1))
    tag = "{} read into a {} object".format(tag, "used" if used else "new")
    for level in range(3):
        text = text_of(n, level)
        r = Report(text)
        header(mon, r, tag)
        if level == 2:
            options(mon, n, r, tag)
        has(mon, r, "Name", o.name or "UNKNOWN", tag, key="restored-name")
        has(mon, r, "Status", o.status, tag, key="restored-status")
        for key, v in r.values.items():
            if key[0]:
                mon.check(ref.values.get(key) == v, "restored-stale", lambda:
                          "{} {} of another fit is shown; {}".format(
                              key, v, tag))
        same_twice(mon, n, level, text, tag)
        mon.seen("restored used" if used else "restored")


def m_fit(m, o):
    """without the redirections of Model.fit"""
    d = m.a
    if isinstance(m, (zoo.Sketch, zoo.ProcessSketch)):
        o.add(*d["args"])
        o.solve()
    else:
        o.fit(*d["args"], **d["kw"])
    return o


def judge(mon, rng, kind, m, o, level, r, w, wall, phase, tag):
    mon.seen("report")
    header(mon, r, tag)
    if level == 2:
        options(mon, o, r, tag)
    else:
        mon.check(not r.order, "options-unasked", tag)
    if kind == "twod":
        name = "{}-{}".format(o.name_x, o.name_y)
    else:
        name = o.name or "UNKNOWN"
    has(mon, r, "Name", name, tag, key="name")
    has(mon, r, "Status", o.status, tag, key="status")
    solved = o.status in ("OPTIMAL", "FEASIBLE")
    mon.sig(kind, level, tuple(r.sections), phase,
            sum(v == "U" for v in r.flags.values()))
    if level == 0:
        t = sec(r.get("Time"))
        mon.check(t is not None and 0 <= t <= wall + .001, "time-level-0",
                  lambda: "{} s, measured {} s; {}".format(t, wall, tag))
        mon.check(not r.sections, "sections-unasked", lambda: r.sections)
        return
    # number of pre-bins and of the solution
    nb = prebins(m, o)
    pre = r.get("Number of pre-bins") or r.get("Number of bins")
    ok = pre is not None and pre.isdigit()
    if kind == "piecewise":
        has(mon, r, "Number of bins", len(o.splits) + 1, tag)
    elif mon.check(ok, "prebins", lambda: "{} {}".format(pre, tag)):
        pre = int(pre)
        cut = getattr(o, "dtype", "") == "categorical" and (
            o.cat_cutoff is not None or
            getattr(o, "user_splits", None) is not None)
        mon.check(pre >= nb or cut or nb == 1, "prebins", lambda:
                  "{} pre-bins but {} bins; {}".format(pre, nb, tag))
        us = getattr(o, "user_splits", None)
        lim = o.max_n_prebins_x * o.max_n_prebins_y if kind == "twod" else (
            len(us) + 1 if us is not None else o.max_n_prebins + 1)
        cats = getattr(o, "dtype", None) == "categorical" or "categorical" \
            in (getattr(o, "dtype_x", ""), getattr(o, "dtype_y", ""))
        if not cats and kind != "sketch" and not (
                kind == "twod" and getattr(o, "prebinning_method", "")
                == "mdlp") and getattr(o, "prebinning_method", "") != "mdlp":
            mon.check(pre <= lim, "prebins-limit", lambda:
                      "{} pre-bins, at most {}; {}".format(pre, lim, tag))
        ref = r.get("Number of refinements")
        if mon.check(ref is not None and ref.isdigit(), "refinements", tag):
            if us is not None and kind in ("binary_num", "cont_num") and \
                    not cats and len(us):
                # pre-bins of user splits: dropped only by a refinement
                mon.check(pre == len(us) + 1 or int(ref) > 0 or
                          o.split_digits is not None, "refinements", lambda:
                          "{} user splits, {} pre-bins, {} refinements; {}"
                          .format(len(us), pre, ref, tag))
    T = "Timing"
    if not solved:
        mon.check("Solver statistics" not in r.sections, "sections", tag)
    if solved:
        mon.check(T in r.sections, "sections", lambda: str(r.sections))
        if kind == "piecewise":
            if "Solver statistics" in r.sections:
                has(mon, r, "Type", o.solver, tag, "Solver statistics",
                    "solver-type")
        else:
            k = getattr(o, "solver", "cp")
            if not (w.cp or w.mip):
                mon.seen("no optimizer")
            solver(mon, r, w, k, tag)
        inner = ()
        if r.get("optimizer", T) is not None:
            inner = (("model generation", "Solver"), ("optimizer", "Solver"))
            if w.cp:
                a = sec(r.get("optimizer", T))
                b = w.cp[-1]["wall"]
                mon.check(abs(a - b) <= .006, "timing-optimizer", lambda:
                          "optimizer {} s, it took {} s; {}".format(
                              a, b, tag))
        t = timing(mon, r, wall, PHASES.get(kind, BIN), tag, inner=inner)
        if phase == "solver" and (w.cp or w.mip) and kind != "piecewise":
            fallen(mon, r, "Solver", BIN[:2] + BIN[3:], tag)
        if phase == "prebinning" and kind in (
                "binary_num", "cont_num", "multi", "scenario") and \
                getattr(o, "user_splits", None) is None and wall > DELAY and \
                o.prebinning_method != "mdlp":
            fallen(mon, r, "Pre-binning", ("Pre-processing", "Solver"), tag)
        del t
    if kind == "sketch":
        has(mon, r, "Processed records", float(len(m.a["args"][0])), tag)
        has(mon, r, "Add operations", 1, tag)
        has(mon, r, "Solve operations", 1, tag)


def prebins(m, o):
    if isinstance(m, zoo.TwoD):
        return 1
    s = o.splits
    if getattr(o, "dtype", "") == "categorical":
        return max(1, len(s))
    return len(s) + 1


def loud(mon, rng, kind, m, o, before, tag):
    """verbose=True: the same results; the log speaks the truth"""
    n = m.new()
    n.verbose = True
    mon.seen("verbose run")
    with listening() as (out, logs):
        random.seed(0)
        try:
            m_fit(m, n)
        except Exception as e:
            mon.fail("verbose-crash", "{!r} {}".format(e, tag))
            return
    mon.check(len(logs) > 0, "verbose-silent", tag)
    zoo.same_state(mon, before, zoo.state(m, n), "verbose-differs",
                   lambda: tag)
    if kind in ("process", "process_sketch", "card"):
        if kind == "process":
            log_counts(mon, logs, {
                "Dataset: number of samples": len(m.a["args"][1]),
                "Dataset: number of variables": len(n.variable_names)}, tag)
        return
    log_model(mon, logs, kind, m, n, tag)
    want = {}
    if kind not in ("sketch", "mdlp"):
        want = data_counts(kind, m, n)
    r = Report(text_of(n, 1))
    if kind not in ("piecewise",):
        want["number of prebins"] = r.get("Number of pre-bins")
        want["number of refinements"] = r.get("Number of refinements")
    log_counts(mon, logs, want, tag)
    q = Report(text_of(o, 1))
    lines = [{k: v for k, v in p.values.items() if not re.search(
        r"[\d.] sec|%", v)} for p in (q, r)]
    mon.check(lines[0] == lines[1], "verbose-report", lambda:
              "with verbose {}; {}".format({
                  k: (lines[1].get(k), lines[0].get(k)) for k in set(
                      lines[0]) | set(lines[1]) if lines[0].get(k) !=
                  lines[1].get(k)}, tag))
    end = [s for s in logs if "terminated. Status: " in s]
    if kind != "sketch":
        mon.check(bool(end), "log-status", lambda: logs[-3:])
    for s in end:
        mon.check("Status: {}. ".format(n.status) in s, "log-status",
                  lambda: "{} but status {}; {}".format(s, n.status, tag))


def outliers(rng, mon):
    """verbose fits of data with many outliers"""
    kind = str(rng.choice(["binary_num", "cont_num", "cont_num"]))
    m = zoo.ALL[kind](rng)
    m.kw["outlier_detector"] = str(rng.choice(["range", "zscore"]))
    m.kw["outlier_params"] = (
        {"interval_length": float(rng.uniform(.5, .9))}
        if m.kw["outlier_detector"] == "range" else
        {"threshold": float(rng.uniform(.8, 2))})
    if rng.random() < .7:
        m.kw["min_bin_size"] = float(rng.uniform(.08, .35))
    o = m.new()
    try:
        zoo.quiet(m_fit, m, o)
    except Exception:
        mon.seen("no model")
        return
    mon.seen("outliers")
    mon.sig("outliers", kind, m.kw["outlier_detector"], len(o.splits))
    loud(mon, rng, kind, m, o, zoo.state(m, o), m.tag)


# ----------------------------------------------------- processes, scorecards
def counts_of(mon, r, bp, n, names, cats, ttype, tag):
    has(mon, r, "Number of records", n, tag)
    has(mon, r, "Number of variables", len(names), tag)
    if "Target type" in [k for _, k in r.values]:
        has(mon, r, "Target type", ttype, tag)
        has(mon, r, "Number of numerical", len(names) - cats, tag)
        has(mon, r, "Number of categorical", cats, tag)
        has(mon, r, "Number of selected", len(bp.get_support(names=True)),
            tag)


def many(kind):
    def f(rng, mon):
        m = zoo.ALL[kind](rng)
        tag = m.tag
        mon.sample(tag)
        d = m.d
        names = list(d["kw"]["variable_names"])
        o = m.new()
        phase = None
        if kind == "card" and rng.random() < .6:
            phase = ["Estimator", "Binning process"][rng.integers(2)]
        try:
            with listening() as (out, logs), slowed(
                    type(o.estimator) if phase == "Estimator" else
                    BinningProcess if phase else None):
                t0 = time.perf_counter()
                m_fit(m, o)
                wall = time.perf_counter() - t0
        except Exception:
            mon.seen("no model")
            return
        if not (kind == "card" and d["est"] is not None
                and getattr(d["est"], "verbose", 0)):
            mon.seen("silent")
            mon.check(out.getvalue() == "" and not logs, "not-silent",
                      lambda: "printed {!r} logged {} ({})".format(
                          out.getvalue()[:200], logs[:3], tag))
        if kind == "card":
            bp = o.binning_process_
        else:
            bp = o
        before = zoo.state(m, o)
        if kind == "process" and rng.random() < .4:
            # reported right after a variable was replaced
            n = str(rng.choice(names))
            v = copy.deepcopy(o.get_binned_variable(n))
            x, y = d["df"][n].values, np.asarray(d["y"])
            if v.dtype == "numerical" if hasattr(v, "dtype") else True:
                x = rng.permutation(x)
            try:
                zoo.quiet(v.set_params, max_n_bins=int(rng.integers(1, 4)),
                          min_n_bins=None)
                if d["ttype"] != "multiclass" and rng.random() < .5 and \
                        v.dtype == "numerical":
                    # the same values, now seen as categories
                    v = type(v)(name=v.name, dtype="categorical",
                                max_n_prebins=5)
                    x = np.round(x.astype(float))
                zoo.quiet(v.fit, x, y)
                o.update_binned_variable(n, v)
            except Exception:
                pass
            else:
                mon.seen("updated")
                shown = Report(text_of(o, 1)).get("Number of selected")
                mon.check(shown == str(len(o.get_support(names=True))),
                          "count-number-of-selected", lambda:
                          "after an update of {}: {} shown, selected {}; {}"
                          .format(n, shown, o.get_support(names=True), tag))
                before = zoo.state(m, o)
        # judged by the dtype each variable was binned with
        cats = sum(bp.get_binned_variable(n).dtype == "categorical"
                   for n in names) if d["ttype"] != "multiclass" else 0
        ttype = d["ttype"]
        for level in rng.permutation(3):
            level = int(level)
            text = text_of(o, level)
            if not mon.check(text is not None, "returns", tag):
                return
            mon.seen("report")
            r = Report(text)
            header(mon, r, tag)
            if level == 2:
                options(mon, o, r, tag)
            else:
                mon.check(not r.order, "options-unasked", tag)
            if level == 0 and kind == "process_sketch":
                has(mon, r, "Number of records", len(d["df"]), tag)
                has(mon, r, "Number of variables", len(names), tag)
            else:
                counts_of(mon, r, bp, len(d["df"]), names, cats, ttype, tag)
            mon.check(("Statistics" in r.sections) == (level > 0),
                      "sections", lambda: str(r.sections))
            if level == 0 or kind == "process":
                for k in ("Time", "Time add", "Time solve"):
                    t = sec(r.get(k))
                    mon.check(t is None or 0 <= t <= wall + .001,
                              "time-level-0", lambda: "{} {} s, measured {} s"
                              .format(k, t, wall))
            elif kind == "card":
                timing(mon, r, wall, ("Binning process", "Estimator",
                                      "Build scorecard"), tag)
                if phase:
                    fallen(mon, r, phase, [p for p in (
                        "Binning process", "Estimator", "Build scorecard")
                        if p != phase], tag)
            else:
                has(mon, r, "Add operations", 1, tag)
                has(mon, r, "Solve operations", 1, tag)
                for k in ("Time add", "Time solve"):
                    t = sec(r.get(k))
                    mon.check(t is not None and 0 <= t <= wall + EPS,
                              "timing-total", lambda: "{} {}".format(k, t))
            mon.sig(kind, level, ttype, len(names), cats,
                    len(bp.get_support(names=True)),
                    sum(v == "U" for v in r.flags.values()))
            same_twice(mon, o, level, text, tag)
        zoo.same_state(mon, before, zoo.state(m, o), "report-changed",
                       lambda: tag)
        if rng.random() < .6:
            n = m.new()
            n.verbose = True
            before = zoo.state(m, m_fit(m, m.new()))
            mon.seen("verbose run")
            with listening() as (out, logs):
                m_fit(m, n)
            mon.check(len(logs) > 0, "verbose-silent", tag)
            zoo.same_state(mon, before, zoo.state(m, n), "verbose-differs",
                           lambda: tag)
            if kind == "process":
                log_counts(mon, logs, {
                    "number of samples": len(d["df"]),
                    "number of variables": len(names)}, tag)
    return f


def streams(rng, mon):
    """counts and times of a sketch over several adds, merges and solves"""
    process = bool(rng.random() < .4)
    m = zoo.ALL["process_sketch" if process else "sketch"](rng)
    args = m.a["args"]
    n = len(args[0])
    tag = "stream of " + m.tag
    mon.sample(tag)
    k = int(rng.integers(1, 5))
    cut = np.sort(rng.integers(0, n, k - 1)) if k > 1 else []
    parts = [p for p in np.split(np.arange(n), cut) if len(p) > 5]
    with watching() as w:
        if rng.random() < .4:
            w.delay["solver"] = DELAY
        stream(rng, mon, m, args, process, parts, n, tag, w)


def stream(rng, mon, m, args, process, parts, n, tag, w):
    """see streams()"""
    o = m.new()
    adds = solves = total = 0
    t_add = t_solve = 0.
    try:
        for p in parts:
            a = [v.iloc[p] if hasattr(v, "iloc") else v[p] for v in args]
            t0 = time.perf_counter()
            zoo.quiet(o.add, *a)
            t_add += time.perf_counter() - t0
            adds += 1
            total += len(p)
            if rng.random() < .4:
                t0 = time.perf_counter()
                zoo.quiet(o.solve)
                t_solve += time.perf_counter() - t0
                solves += 1
        if rng.random() < .3 and len(parts):
            other = m.new()
            for p in np.array_split(np.arange(n), rng.integers(1, 4)):
                zoo.quiet(other.add, *[
                    v.iloc[p] if hasattr(v, "iloc") else v[p] for v in args])
                adds += 1                # (those of the other)
            zoo.quiet(o.merge, other)
            total += n
        t0 = time.perf_counter()
        zoo.quiet(o.solve)
        t_solve += time.perf_counter() - t0
        solves += 1
    except Exception:
        mon.seen("no model")
        return
    mon.seen("history of sketch")
    mon.sig("stream", process, adds, solves, total > n)
    text = text_of(o, 1)
    r = Report(text)
    mon.seen("report")
    has(mon, r, "Number of records" if process else "Processed records",
        total if process else float(total), tag)
    S = "Streaming statistics"
    has(mon, r, "Add operations", adds, tag, S)
    has(mon, r, "Solve operations", solves, tag, S)
    S = "Streaming timing"
    for label, t, q in (("Time add", t_add, adds),
                        ("Time solve", t_solve, solves)):
        v = r.get(label, S)
        a = sec(v)
        mon.check(a is not None and -1e-9 <= a <= t + EPS, "stream-time",
                  lambda: "{}: {} measured {}; {}".format(label, v, t, tag))
        per = re.search(r"\(\s*([\d.]+) sec /", v or "")
        mon.check(per and abs(float(per[1]) * q - a) <= .006 + 1e-4 * q,
                  "stream-mean", lambda: "{}: {} for {} operations".format(
                      label, v, q))
    if w.delay and w.cp:
        mon.seen("delayed solves")
        v = sec(r.get("Time solve", S))
        mon.check(v is not None and v >= DELAY * len(w.cp) - EPS,
                  "stream-delay", lambda: "{} solver calls of {} s, Time "
                  "solve {}; {}".format(len(w.cp), DELAY, v, tag))
    same_twice(mon, o, 1, text, tag)


def reports(rng, mon):
    """monitoring and counterfactuals"""
    from checks.E01 import small_card
    d, sc = small_card(rng)
    if sc is None:
        mon.seen("no model")
        return
    X, y = d["df"], np.asarray(d["y"])
    names = list(sc.binning_process_.get_support(names=True))
    tag = "scorecard {} {}".format(d["ttype"], d["kw"])
    mon.sample(tag)
    table = zoo.quiet(sc.table, "detailed")
    if rng.random() < .5:
        kw = {}
        if rng.random() < .5:
            kw["psi_n_bins"] = int(rng.integers(2, 8))
        if rng.random() < .4:
            kw["psi_method"] = str(rng.choice(["uniform", "quantile"]))
        if rng.random() < .3:
            kw["show_digits"] = int(rng.integers(0, 5))
        o = ScorecardMonitoring(sc, **kw)
        idx = np.flatnonzero(rng.random(len(y)) < .7)
        try:
            with listening() as (out, logs):
                t0 = time.perf_counter()
                o.fit(X.iloc[idx], y[idx], X, y)
                wall = time.perf_counter() - t0
        except Exception:
            mon.seen("no model")
            return
        mon.seen("silent")
        mon.check(out.getvalue() == "" and not logs, "not-silent", tag)
        ref = (o.psi_table().copy(), o.psi_variable_table().copy())
        for level in rng.permutation(3):
            level = int(level)
            text = text_of(o, level)
            r = Report(text)
            mon.seen("report")
            header(mon, r, tag)
            if level == 2:
                options(mon, o, r, tag)
            if level == 0:
                t = sec(r.get("Time"))
                mon.check(t is not None and 0 <= t <= wall + .001,
                          "time-level-0", str(t))
                has(mon, r, "Number of records A", len(idx), tag)
                has(mon, r, "Number of records E", len(y), tag)
                has(mon, r, "Number of variables", len(names), tag)
            else:
                has(mon, r, "Number of records Actual", len(idx), tag)
                has(mon, r, "Number of records Expected", len(y), tag)
                has(mon, r, "Number of scorecard variables", len(names), tag)
                has(mon, r, "Target type", d["ttype"], tag)
                timing(mon, r, wall, ("System stability",
                                      "Variables stability"), tag)
            mon.sig("monitoring", level, d["ttype"], len(names), sorted(kw))
            same_twice(mon, o, level, text, tag)
        mon.check(ref[0].equals(o.psi_table()) and ref[1].equals(
            o.psi_variable_table()), "report-changed", tag)
        n = ScorecardMonitoring(sc, verbose=True, **kw)
        mon.seen("verbose run")
        with listening() as (out, logs):
            n.fit(X.iloc[idx], y[idx], X, y)
        mon.check(len(logs) > 0, "verbose-silent", tag)
        mon.check(ref[0].equals(n.psi_table()) and ref[1].equals(
            n.psi_variable_table()), "verbose-differs", tag)
    else:
        binary = d["ttype"] == "binary"
        obj = {k: int(rng.integers(1, 4)) for k in ("proximity", "closeness")
               if rng.random() < .7} or dict(proximity=1)
        t = (["binary", "probability"][rng.integers(2)] if binary
             else "continuous")
        ncf = int(rng.integers(1, 3))
        good = dict(query=X.iloc[[int(rng.integers(len(X)))]],
                    y={"binary": int(rng.integers(2)), "probability": .5}
                    .get(t, float(np.mean(d["y"]))), outcome_type=t,
                    n_cf=ncf, objectives=obj, max_changes=len(names),
                    time_limit=20)
        if t != "binary":
            good["hard_constraints"] = [str(rng.choice(
                ["min_outcome", "max_outcome"]))]
        if ncf > 1 and rng.random() < .5:
            good["soft_constraints"] = {"diversity_values": 1}
        kw = {}
        if rng.random() < .3:
            kw["special_missing"] = True

        def make(**u):
            o = Counterfactual(sc, **dict(kw, **u))
            o.fit(X)
            o.generate(**copy.deepcopy(good))
            return o
        with watching() as w:
            slow = rng.random() < .4
            if slow:
                w.delay["solver"] = DELAY
            try:
                with listening() as (out, logs):
                    t0 = time.perf_counter()
                    o = make()
                    wall = time.perf_counter() - t0
            except Exception:
                mon.seen("no model")
                return
            mon.seen("silent")
            mon.check(out.getvalue() == "" and not logs, "not-silent", tag)
            ref = o.status, (o.display(show_outcome=True).copy()
                             if o.status == "OPTIMAL" else None)
            for level in rng.permutation(3):
                level = int(level)
                text = text_of(o, level)
                r = Report(text)
                mon.seen("report")
                header(mon, r, tag)
                if level == 2:
                    options(mon, o, r, tag)
                has(mon, r, "Status", o.status, tag, key="status")
                if level == 0:
                    s = sec(r.get("Time"))
                    mon.check(s is not None and 0 <= s <= wall + .001,
                              "time-level-0", str(s))
                else:
                    if o.status == "OPTIMAL":
                        solver(mon, r, w, "mip", tag)
                        values(mon, rng, r, o, sc, d, good, names, tag)
                    timing(mon, r, wall, ("Fit", "Solver",
                                          "Post-processing"), tag)
                    if slow:
                        fallen(mon, r, "Solver", ("Fit", "Post-processing"),
                               tag)
                mon.sig("counterfactual", level, t, ncf, sorted(obj),
                        o.status)
                same_twice(mon, o, level, text, tag)
            w.delay.clear()
            now = o.status, (o.display(show_outcome=True)
                             if o.status == "OPTIMAL" else None)
            mon.check(now[0] == ref[0] and (
                ref[1] is None or ref[1].equals(now[1])), "report-changed",
                tag)
            mon.seen("verbose run")
            with listening() as (out, logs):
                n = make(verbose=True)
            mon.check(len(logs) > 0, "verbose-silent", tag)
            end = [s for s in logs if "Status: " in s]
            mon.check(end and all("Status: {}. ".format(n.status) in s
                                  for s in end), "log-status", str(end))
            mon.check(n.status == ref[0] and (
                ref[1] is None or ref[1].equals(n.display(
                    show_outcome=True))), "verbose-differs", tag)
    mon.check(table.equals(zoo.quiet(sc.table, "detailed")),
              "report-changed", "scorecard " + tag)


def values(mon, rng, r, o, sc, d, good, names, tag):
    """the objectives add up to the objective value of the solver"""
    S = "Objectives"
    mon.check(S in r.sections, "sections", lambda: str(r.sections))
    got = {k: v for (s, k), v in r.values.items() if s == S}
    mon.seen("objective value")
    mon.check(set(good["objectives"]) <= set(got), "objectives-listed",
              lambda: "{} of {}".format(got, good["objectives"]))
    ok = True
    for k, v in got.items():
        try:
            ok &= float(v) >= -1e-4
        except ValueError:
            ok = False
    mon.check(ok, "objectives-value", lambda: str(got))
    soft = good.get("soft_constraints") or {}
    Z = sc.binning_process_.transform(d["df"])[names].to_numpy(float)
    with np.errstate(all="ignore"):
        # (else the Mahalanobis distance is made of rounding errors)
        fit = np.isfinite(Z).all() and np.linalg.cond(
            np.atleast_2d(np.cov(Z.T))) < 1e8
    if fit and not soft and set(got) == set(good["objectives"]):
        s = sum(good["objectives"][k] * float(v) for k, v in got.items())
        z = float(r.get("Objective value", "Solver statistics"))
        mon.check(abs(s - z) <= 1e-3 * (1 + abs(z)), "objectives-sum",
                  lambda: "{} weights {} value {}; {}".format(
                      got, good["objectives"], z, tag))


FAMILIES = {k: (binners(k), n, 15 * n) for k, n in dict(
    binary_num=90, binary_cat=50, cont_num=60, cont_cat=40, multi=50,
    scenario=40, piecewise=50, twod=60, sketch=50).items()}
FAMILIES.update({k: (many(k), n, 15 * n) for k, n in dict(
    process=40, card=40, process_sketch=20).items()})
FAMILIES["outliers"] = (outliers, 120, 1500)
FAMILIES["streams"] = (streams, 70, 1000)
FAMILIES["reports"] = (reports, 80, 1000)
