"""Every kind of estimator behind one interface, for the properties that hold
for all of them (record-wise transform, independence of history, saving)."""
import contextlib
import copy
import io
import random
import re
import warnings

import numpy as np
import pandas as pd

from optbinning import (BinningProcess, BinningProcessSketch,
                        ContinuousOptimalBinning, ContinuousOptimalBinning2D,
                        ContinuousOptimalPWBinning, MDLP,
                        MulticlassOptimalBinning, OptimalBinning,
                        OptimalBinning2D, OptimalBinningSketch,
                        OptimalPWBinning, Scorecard)
from optbinning.binning.uncertainty import SBOptimalBinning

from . import anyfit as A
from . import grid2d, score, table


def quiet(f, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a, **k)


def threads(rng, jobs, n_threads=4, rate=.15):
    """Run the jobs (callables) in several threads at once, each thread takes
    the next one; delays at calls of functions of optbinning produce many
    interleavings. -> results (value, None) or (None, exception), log of
    (begin or end, thread, job)."""
    import queue
    import sys
    import threading
    import time
    todo, out, log = queue.SimpleQueue(), [None] * len(jobs), []
    for i in range(len(jobs)):
        todo.put(i)
    start = threading.Barrier(n_threads)
    seeds = [int(v) for v in rng.integers(1 << 30, size=n_threads)]

    def work(k):
        r = np.random.default_rng(seeds[k])

        def hook(frame, event, arg):
            if event == "call" and "optbinning" in frame.f_code.co_filename \
                    and r.random() < rate:
                time.sleep(1e-5)
        start.wait()
        sys.setprofile(hook)
        try:
            while True:
                try:
                    i = todo.get_nowait()
                except queue.Empty:
                    return
                log.append(("begin", k, i))
                try:
                    out[i] = (jobs[i](), None)
                except Exception as e:
                    out[i] = (None, e)
                log.append(("end", k, i))
        finally:
            sys.setprofile(None)

    global quiet
    keep, old, quiet = quiet, sys.getswitchinterval(), _loud
    sys.setswitchinterval(1e-5)
    try:
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            ts = [threading.Thread(target=work, args=(k,))
                  for k in range(n_threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        quiet = keep
        sys.setswitchinterval(old)
    return out, log


def _loud(f, *a, **k):
    return f(*a, **k)


def overlaps(log):
    """pairs of jobs that ran at the same time"""
    live, pairs = set(), set()
    for e, _, i in log:
        if e == "begin":
            pairs |= {(j, i) for j in live}
            live.add(i)
        else:
            live.discard(i)
    return pairs


# ---------------------------------------------------------------- queries
def take(q, idx):
    return tuple(v.iloc[idx] if isinstance(v, (pd.Series, pd.DataFrame))
                 else v[idx] for v in q)


def size(q):
    return len(q[0])


def num_query(rng, x, codes, edges, m):
    x = np.asarray(x, float)
    v = rng.choice(x, m)
    fin = x[np.isfinite(x)]
    lo, hi = (fin.min(), fin.max()) if len(fin) else (0., 1.)
    r = rng.random(m)
    v[r < .25] = rng.uniform(lo - 1, hi + 1, (r < .25).sum())
    if len(edges):
        k = (r > .25) & (r < .45)
        v[k] = rng.choice(np.asarray(edges, float), k.sum())
    k = (r > .45) & (r < .55)
    v[k] = np.nan
    if len(codes):
        k = (r > .55) & (r < .7)
        v[k] = rng.choice(codes, k.sum())
    k = (r > .7) & (r < .73)
    v[k] = rng.choice([-1e30, 1e30], k.sum())
    return v


def cat_query(rng, x, codes, m):
    x = np.asarray(x)
    v = x[rng.integers(0, len(x), m)]
    r = rng.random(m)
    for i in range(m):
        if x.dtype == object:
            if r[i] < .12:
                v[i] = "unseen%d" % (i % 2)
            elif r[i] < .22:
                v[i] = np.nan if rng.random() < .5 else None
            elif r[i] < .35 and len(codes):
                v[i] = codes[rng.integers(len(codes))]
        elif r[i] < .12:
            v[i] = 7777
        elif r[i] < .3 and len(codes):
            v[i] = codes[rng.integers(len(codes))]
        elif r[i] < .4 and x.dtype.kind == "f":
            v[i] = np.nan
    return v


# ----------------------------------------------------------------- models
class Model:
    """One configuration with two data sets (A to be judged, B for history).

    data: dict(args=tuple, kw=dict); query: tuple of aligned containers."""
    cls = None
    saves = ()                # ways of saving besides pickle
    has_transform = True
    tol = 0                   # of the transform of two separate fits

    def __init__(self, kw, a, b, tag):
        self.kw, self.a, self.b, self.tag = kw, a, b, tag
        self.codes = ()

    def new(self):
        return self.cls(**copy.deepcopy(self.kw))

    def fit(self, o, data):
        quiet(o.fit, *data["args"], **data["kw"])
        return o

    def fitted(self, data=None):
        return self.fit(self.new(), data or self.a)

    def fitted_for(self, t):
        """as fitted by fit_transform with arguments t"""
        return self.fitted()

    def train(self, data=None):
        return (data or self.a)["args"][:1]

    def tkw(self, rng):
        return {}

    def transform(self, o, q, t):
        return np.asarray(quiet(o.transform, *q, **t))

    def fit_transform(self, o, data, t):
        return np.asarray(quiet(o.fit_transform, *data["args"],
                                **data["kw"], **t))

    def tables(self, o):
        return [quiet(o.binning_table.build)]

    def splits(self, o):
        return [o.splits]

    def status(self, o):
        return o.status

    def report(self, rng, o):
        k = int(rng.integers(4))
        if k == 0:
            quiet(o.information, int(rng.integers(0, 3)))
        elif k == 1:
            t = o.binning_table
            quiet(t.build)
            try:
                quiet(t.analysis)
            except (ValueError, ZeroDivisionError, TypeError):
                pass                # judged by R02
        elif k == 2:
            quiet(o.binning_table.build, add_totals=False)
        else:
            repr(o)
            o.get_params()

    def failing(self, rng):
        """arguments that fit must reject"""
        x, y = self.a["args"][:2]
        return [(x, y[:-1]), (x, None), (x[:0], y[:0])][rng.integers(3)]


def mspecial(rng, metric, dct=None):
    if metric in ("indices", "bins"):
        return 0 if rng.random() < .6 else int(rng.integers(-3, 9))
    return ["empirical", 0, .5, -2.25][rng.integers(4)]


class OneD(Model):
    metrics = ()

    def tkw(self, rng):
        t = {}
        if rng.random() < .85:
            t["metric"] = str(rng.choice(self.metrics))
        m = t.get("metric", self.metrics[0])
        if rng.random() < .7:
            t["metric_special"] = mspecial(rng, m)
        if rng.random() < .7:
            t["metric_missing"] = mspecial(rng, m)
        if rng.random() < .3:
            t["show_digits"] = int(rng.integers(0, 6))
        return t

    def query(self, rng, o, m, data=None):
        x = np.asarray((data or self.a)["args"][0])
        if getattr(o, "dtype", "numerical") == "categorical":
            return (cat_query(rng, x, self.codes, m),)
        return (num_query(rng, x, self.codes, np.ravel(o.splits), m),)


class Binary(OneD):
    cls, metrics, saves = OptimalBinning, ("woe", "event_rate", "indices",
                                           "bins"), ("json",)


class Continuous(OneD):
    cls, metrics, saves = (ContinuousOptimalBinning, ("mean", "indices",
                                                      "bins"), ("json",))


class Multi(OneD):
    cls, metrics, saves = (MulticlassOptimalBinning, (
        "mean_woe", "weighted_mean_woe", "indices", "bins"), ("json",))

    def tkw(self, rng):
        t = super().tkw(rng)
        for k in ("metric_special", "metric_missing"):
            if isinstance(t.get(k), str):
                t[k] = .75
        return t


class Scenario(OneD):
    cls, metrics = SBOptimalBinning, Binary.metrics

    def fit_transform(self, o, data, t):
        q = self.train(data)
        return np.asarray(quiet(o.fit_transform, q[0], *data["args"],
                                **data["kw"], **t))

    def train(self, data=None):
        return (np.concatenate((data or self.a)["args"][0]),)

    def query(self, rng, o, m, data=None):
        return (num_query(rng, self.train(data)[0], self.codes, o.splits, m),)

    def failing(self, rng):
        X, Y = self.a["args"]
        return [(X, Y[:-1]), (X[0], Y[0]), (X, None)][rng.integers(3)]


class PW(OneD):
    cls, metrics = OptimalPWBinning, ("woe", "event_rate")
    tol = 1e-3                # the convex solver

    def tables(self, o):
        """without what depends on the last digits of the coefficients"""
        return [t[[c for c in t.columns if c in (
            "Bin", "Count", "Count (%)", "Non-event", "Event", "Event rate",
            "Sum", "Std", "Min", "Max", "Zeros count")]]
            for t in super().tables(o)]

    def tkw(self, rng):
        t = super().tkw(rng)
        t.pop("show_digits", None)
        if self.cls is ContinuousOptimalPWBinning:
            t.pop("metric", None)
        if rng.random() < .4:
            t["lb"] = float(rng.choice([.1, .2]))
        if rng.random() < .4:
            t["ub"] = float(rng.choice([.6, .8]))
        return t

    def fit_transform(self, o, data, t):
        return super().fit_transform(o, dict(data, kw={}), t)

    def fitted_for(self, t):
        return self.fitted(dict(self.a, kw=dict(
            {k: t[k] for k in ("lb", "ub") if k in t})))

    def query(self, rng, o, m, data=None):
        q = super().query(rng, o, m, data)[0]
        q[np.abs(q) > 1e29] = 0.
        return (q,)


class ContPW(PW):
    cls = ContinuousOptimalPWBinning


class TwoD(Model):
    cls = OptimalBinning2D
    metrics = ("woe", "event_rate", "indices", "bins")

    def train(self, data=None):
        return (data or self.a)["args"][:2]

    def tkw(self, rng):
        t = {}
        if rng.random() < .85:
            t["metric"] = str(rng.choice(self.metrics))
        m = t.get("metric", self.metrics[0])
        for k in ("metric_special", "metric_missing"):
            if rng.random() < .7:
                t[k] = mspecial(rng, m)
        if rng.random() < .3:
            t["show_digits"] = int(rng.integers(0, 6))
        return t

    def query(self, rng, o, m, data=None):
        x, y = self.train(data)
        out = []
        for v, d, c, e in ((x, o.dtype_x, self.codes[0], o.splits[0]),
                           (y, o.dtype_y, self.codes[1], o.splits[1])):
            if d == "categorical":
                out.append(cat_query(rng, v, c, m))
            else:
                e = np.ravel(np.asarray(e, dtype=float))
                out.append(num_query(rng, v, c, e[np.isfinite(e)], m))
        return tuple(out)

    def splits(self, o):
        s = o.splits
        return [[str(v) for v in s[0]], [str(v) for v in s[1]]]

    def failing(self, rng):
        x, y, z = self.a["args"]
        return [(x, y, z[:-1]), (x, y[:-1], z), (x, y, None)][rng.integers(3)]


class ContTwoD(TwoD):
    cls, metrics = ContinuousOptimalBinning2D, ("mean", "indices", "bins")


class Mdlp(Model):
    cls, has_transform = MDLP, False

    def tables(self, o):
        return []

    def status(self, o):
        return None

    def splits(self, o):
        return [np.asarray(o.splits, float)]

    def report(self, rng, o):
        repr(o)
        o.get_params()


class Process(Model):
    cls, saves = BinningProcess, ("save",)

    def train(self, data=None):
        return ((data or self.a)["args"][0],)

    def tkw(self, rng):
        g, _ = table.transform_params(rng, self.d)
        if g["metric"] is None:
            g.pop("metric")
        return g

    def query(self, rng, o, m, data=None):
        return (score.query(rng, self.d if data is not self.b else self.db),)

    def names(self, o):
        return list(o.variable_names)

    def tables(self, o):
        out = [quiet(o.summary)]
        for n in self.names(o):
            out.append(quiet(o.get_binned_variable(n).binning_table.build))
        return out

    def splits(self, o):
        return [o.get_binned_variable(n).splits for n in self.names(o)] + [
            [str(s) for s in o.get_support(names=True)]]

    def status(self, o):
        return [o.get_binned_variable(n).status for n in self.names(o)]

    def report(self, rng, o):
        k = int(rng.integers(3))
        if k == 0:
            quiet(o.information, int(rng.integers(0, 3)))
        elif k == 1:
            quiet(o.summary)
            o.get_support(indices=True)
        else:
            n = self.names(o)
            quiet(o.get_binned_variable(n[rng.integers(len(n))])
                  .binning_table.build)

    def failing(self, rng):
        X, y = self.a["args"][:2]
        return [(X, y[:-1]), (X[list(X.columns)[:-1]], y),
                (X, None)][rng.integers(3)]


class Card(Process):
    cls, saves = Scorecard, ("save",)

    def new(self):
        return self.cls(binning_process=BinningProcess(
            **copy.deepcopy(self.d["kw"])),
            estimator=copy.deepcopy(self.d["est"]),
            **copy.deepcopy(self.kw))

    def tkw(self, rng):
        return {}

    def transform(self, o, q, t):
        s = [np.ravel(o.score(q[0])), np.ravel(quiet(o.predict, q[0])),
             np.ravel(quiet(o.decision_function, q[0])
                      if self.d["ttype"] == "binary" else o.score(q[0]))]
        if self.d["ttype"] == "binary":
            s.append(quiet(o.predict_proba, q[0])[:, 1])
        return np.array(s, float).T

    fit_transform = None

    def tables(self, o):
        return [quiet(o.table, style="summary"),
                quiet(o.table, style="detailed")]

    def splits(self, o):
        return [[float(o.intercept_)]]

    def status(self, o):
        return None

    def report(self, rng, o):
        if rng.random() < .5:
            quiet(o.information, int(rng.integers(0, 3)))
        else:
            quiet(o.table, style=str(rng.choice(["summary", "detailed"])))


class Sketch(OneD):
    cls, metrics = OptimalBinningSketch, Binary.metrics

    def fit(self, o, data):
        x, y = data["args"]
        random.seed(0)                  # t-digest draws from it
        quiet(o.add, x, y)
        quiet(o.solve)
        return o

    fit_transform = None

    def report(self, rng, o):
        if rng.random() < .5:
            quiet(o.information, int(rng.integers(0, 3)))
        else:
            quiet(o.binning_table.build)


class ProcessSketch(Process):
    cls, saves = BinningProcessSketch, ("save",)

    def fit(self, o, data):
        X, y = data["args"]
        quiet(o.add, X, y)
        quiet(o.solve)
        return o

    fit_transform = None

    def tkw(self, rng):
        m = str(rng.choice(Binary.metrics))
        return dict(metric=m, metric_special=mspecial(rng, m),
                    metric_missing=mspecial(rng, m))


# -------------------------------------------------------------- factories
def _pair(f, rng, dtype=None, tries=8):
    a = None
    while a is None:
        a = f(rng)
    for _ in range(tries):
        b = f(rng)
        if b is not None:
            return a, b
    return a, a


def _oned(cls, rng, a, b, weights=True):
    kw = a["kw"]
    fa = dict(args=(a["x"], a["y"]), kw={})
    fb = dict(args=(b["x"], b["y"]), kw={})
    if weights and cls is Binary and rng.random() < .2 and \
            a["dtype"] == "numerical" and kw.get(
                "prebinning_method") not in ("mdlp",):
        for f in (fa, fb):
            f["kw"]["sample_weight"] = rng.uniform(.5, 2, len(f["args"][0]))
    m = cls(kw, fa, fb, "{} {} {}".format(cls.__name__, a["style"], kw))
    m.codes = a["codes"]
    return m


def _detect(rng, kw, cont=False):
    if rng.random() < .15:
        kw["outlier_detector"] = str(rng.choice(
            ["range", "zscore"] + ["yquantile"] * cont))
        if rng.random() < .5 and kw["outlier_detector"] != "yquantile":
            kw["outlier_params"] = {
                "range": {"interval_length": float(rng.uniform(.6, .95))},
                "zscore": {"threshold": float(rng.uniform(1, 2.5))}}[
                    kw["outlier_detector"]]


def binary_num(rng):
    a, b = _pair(A.binary_numeric, rng)
    _detect(rng, a["kw"])
    return _oned(Binary, rng, a, b)


def binary_cat(rng):
    m = _oned(Binary, rng, *_pair(A.binary_categorical, rng))
    return m


def cont_num(rng):
    a, b = _pair(A.binary_numeric, rng)
    a = A.to_continuous(rng, a)
    _detect(rng, a["kw"], True)
    return _oned(Continuous, rng, a, A.to_continuous(rng, b))


def cont_cat(rng):
    a, b = _pair(A.binary_categorical, rng)
    return _oned(Continuous, rng, A.to_continuous(rng, a),
                 A.to_continuous(rng, b))


def multi(rng):
    out = []
    for d in _pair(A.binary_numeric, rng):
        x = d["x"]
        k = int(rng.integers(3, 5))
        z = np.where(np.isnan(x) | np.isin(x, d["codes"]), 0, x)
        z = np.clip((z - np.median(z)) / (np.std(z) + 1e-12), -3, 3)
        v = A.link(rng, z) + rng.normal(0, .7, len(x))
        y = np.digitize(v, np.quantile(v, np.arange(1, k) / k))
        clean = np.flatnonzero(~np.isnan(x) & ~np.isin(x, d["codes"]))
        y[clean[:k]] = np.arange(min(k, len(clean)))
        d["y"] = y
        for p in ("divergence", "min_bin_n_event"):
            d["kw"].pop(p, None)
        if d["kw"].get("prebinning_method") == "mdlp":
            d["kw"]["prebinning_method"] = "cart"
        d["kw"]["monotonic_trend"] = ["auto", "auto_heuristic", "ascending",
                                      None][rng.integers(4)]
        d["few"] = len(clean) < k
        out.append(d)
    if out[0]["few"]:
        return multi(rng)
    return _oned(Multi, rng, *out)


def scenario(rng):
    codes = [-9999., -8888.][:int(rng.integers(1, 3))] \
        if rng.random() < .5 else []
    sets = []
    for _ in range(2):
        X, Y = [], []
        st = str(rng.choice(["normal", "exp", "int", "ties", "lattice"]))
        for s in range(int(rng.integers(1, 4))):
            m = int(rng.integers(40, 200))
            x, _ = A.numeric_x(rng, m, st)
            z = np.clip((x - np.median(x)) / (np.std(x) + 1e-9), -3, 3)
            y = (rng.random(m) < 1 / (1 + np.exp(-A.link(rng, z)))).astype(int)
            y[:2] = 0, 1
            if codes and rng.random() < .7:
                k = rng.random(m) < .1
                k[:2] = False
                x[k] = rng.choice(codes, k.sum())
            if rng.random() < .5:
                k = rng.random(m) < .1
                k[:2] = False
                x[k] = np.nan
            X.append(x)
            Y.append(y)
        f = dict(args=(X, Y), kw={})
        if rng.random() < .4:
            f["kw"]["weights"] = rng.dirichlet(np.ones(len(X)))
        sets.append(f)
    kw = dict(prebinning_method=str(rng.choice(["cart", "quantile",
                                                "uniform"])),
              max_n_prebins=int(rng.integers(2, 8)),
              min_prebin_size=float(rng.choice([.05, .1])),
              monotonic_trend=[None, "ascending", "descending"][
                  rng.integers(3)])
    if codes:
        kw["special_codes"] = list(codes)
    if rng.random() < .2:
        kw["user_splits"] = [-2., 0., 1.5]
    m = Scenario(kw, sets[0], sets[1], "scenarios {}".format(kw))
    m.codes = codes
    return m


def piecewise(rng):
    from checks import W01
    k = int(rng.integers(2))
    x, y, style, codes, rows, kw = W01.draw(rng, k)
    x2, y2 = W01.draw(rng, k)[:2]
    kw = dict(W01.options(rng, k), **kw)
    if kw.get("outlier_detector") == "yquantile" and k == 0:
        kw["outlier_detector"] = "range"
    if k == 0 and rng.random() < .3:
        from sklearn.linear_model import LogisticRegression
        kw["estimator"] = LogisticRegression()
    m = [PW, ContPW][k](kw, dict(args=(x, y), kw={}),
                        dict(args=(x2, y2), kw={}),
                        "pw{} {} {}".format(k, style, kw))
    for f in (m.a, m.b):
        if rng.random() < .3:
            f["kw"]["lb"] = [0.05, -1.][k]
        if rng.random() < .3:
            f["kw"]["ub"] = [0.8, 5.][k]
    m.codes = codes
    return m


def twod(rng):
    from checks import D01
    k = int(rng.integers(2))
    d = grid2d.draw(rng, k, mmax=200)
    for _ in range(20):
        b = grid2d.draw(rng, k, mmax=200)
        if (b["tx"], b["ty"]) == (d["tx"], d["ty"]):
            break
    kw = dict(D01.options(rng, k), **d["kw"])
    m = [TwoD, ContTwoD][k](
        kw, dict(args=(d["x"], d["y"], d["z"]), kw={}),
        dict(args=(b["x"], b["y"], b["z"]), kw={}),
        "2d{} {} {}".format(k, d["styles"], kw))
    m.codes = (d["cx"], d["cy"])
    return m


def mdlp(rng):
    kw = dict(min_samples_split=int(rng.choice([2, 5, 20])),
              min_samples_leaf=int(rng.choice([1, 2, 10])),
              max_candidates=int(rng.choice([2, 8, 32])))
    sets = []
    for _ in range(2):
        m = int(rng.integers(20, 300))
        x, _ = A.numeric_x(rng, m)
        z = np.clip((x - np.median(x)) / (np.std(x) + 1e-9), -3, 3)
        y = (rng.random(m) < 1 / (1 + np.exp(-3 * A.link(rng, z)))
             ).astype(int)
        sets.append(dict(args=(x, y), kw={}))
    return Mdlp(kw, sets[0], sets[1], "mdlp {}".format(kw))


def _renamed(rng, d):
    for _ in range(30):
        b = table.make(rng, ttype=d["ttype"], nvar=len(d["names"]), nmax=200)
        if b["kinds"] == d["kinds"]:
            return b
    b = dict(d)
    i = rng.integers(0, len(d["y"]), len(d["y"]))
    b["df"] = d["df"].iloc[i].reset_index(drop=True)
    b["y"] = d["y"][i].copy()
    if d["ttype"] == "multiclass":
        b["y"][:4] = np.arange(4) % (d["y"].max() + 1)
    return b


def process(rng, nvar=None):
    d = table.make(rng, nmax=200, nvar=nvar or int(rng.integers(1, 4)))
    b = _renamed(rng, d)
    kw = d["kw"]
    if rng.random() < .2:
        kw["selection_criteria"] = {"quality_score": {
            "strategy": "highest", "top": 1}}
    m = Process(kw, dict(args=(d["df"], d["y"]), kw={}),
                dict(args=(b["df"], b["y"]), kw={}),
                "process {} {}".format(d["ttype"], kw))
    m.d, m.db = d, b
    return m


def card(rng):
    d = score.make(rng, nvar=int(rng.integers(1, 4)))
    b = _renamed(rng, d)
    f = dict(d["fit"])
    fa, fb = dict(f), dict(f)
    if d["weights"] is not None:
        fa["sample_weight"] = d["weights"]
    m = Card(score.scaling(rng, d["ttype"]), dict(args=(d["df"], d["y"]),
                                                  kw=fa),
             dict(args=(b["df"], b["y"]), kw=fb),
             "scorecard {} {}".format(d["ttype"], d["kw"]))
    m.d, m.db = d, b
    return m


def sketch(rng):
    cat = bool(rng.random() < .4)
    f = A.binary_categorical if cat else A.binary_numeric
    a, b = _pair(f, rng)
    kw = {k: a["kw"][k] for k in (
        "dtype", "divergence", "max_n_bins", "max_n_prebins", "cat_cutoff",
        "special_codes", "solver", "monotonic_trend") if k in a["kw"]}
    kw["sketch"] = "gk" if rng.random() < .8 else "t-digest"
    if isinstance(kw.get("special_codes"), dict):
        kw["special_codes"] = list(a["codes"])
    if not cat and rng.random() < .5:
        kw["eps"] = .01
    m = Sketch(kw, dict(args=(a["x"], a["y"]), kw={}),
               dict(args=(b["x"], b["y"]), kw={}),
               "sketch {} {}".format(a["style"], kw))
    m.codes = a["codes"]
    return m


def process_sketch(rng):
    d = table.make(rng, ttype="binary", nmax=200, nvar=int(rng.integers(1, 4)),
                   overrides=False)
    b = _renamed(rng, d)
    kw = {k: d["kw"][k] for k in ("variable_names", "max_n_prebins",
                                  "max_n_bins", "special_codes",
                                  "categorical_variables", "max_pvalue")
          if k in d["kw"]}
    if isinstance(kw.get("special_codes"), dict):
        kw["special_codes"] = list(table.CODES)
    kw["categorical_variables"] = [n for n, k in zip(d["names"], d["kinds"])
                                   if k != "num"] or None
    m = ProcessSketch(kw, dict(args=(d["df"], d["y"]), kw={}),
                      dict(args=(b["df"], b["y"]), kw={}),
                      "process sketch {}".format(kw))
    m.d, m.db = d, b
    return m


ALL = dict(binary_num=binary_num, binary_cat=binary_cat, cont_num=cont_num,
           cont_cat=cont_cat, multi=multi, scenario=scenario,
           piecewise=piecewise, twod=twod, mdlp=mdlp, process=process,
           card=card, sketch=sketch, process_sketch=process_sketch)


# ------------------------------------------------------------- comparison
def state(m, o):
    return dict(status=m.status(o), splits=m.splits(o), tables=m.tables(o))


def plain(v):
    """Labels print numpy scalars in two ways."""
    return re.sub(r"np\.\w+\(([^()]*)\)", r"\1", str(v)) \
        if "np." in str(v) else v


def _cells(t):
    t = t.copy()
    for c in t.columns:
        if t[c].dtype == object:
            t[c] = [plain([str(plain(u)) for u in v]) if isinstance(
                v, (list, tuple, np.ndarray)) else plain(v)
                for v in t[c].tolist()]
    return t


def same_state(mon, a, b, key, msg):
    if not mon.check(a["status"] == b["status"], key + "-status", lambda:
                     "{}: {} vs {}".format(msg(), a["status"], b["status"])):
        return False
    ok = len(a["splits"]) == len(b["splits"]) and all(
        [str(plain(s)) for s in u] == [str(plain(s)) for s in v]
        or _near(u, v) for u, v in zip(a["splits"], b["splits"]))
    if not mon.check(ok, key + "-splits", lambda: "{}: {} vs {}".format(
            msg(), a["splits"], b["splits"])):
        return False
    if not mon.check(len(a["tables"]) == len(b["tables"]), key + "-tables"):
        return False
    for t, u in zip(a["tables"], b["tables"]):
        if not table.same_table(mon, _cells(t), _cells(u), key + "-table",
                                msg()):
            return False
    return True


def _near(u, v):
    try:
        u, v = np.asarray(u, float), np.asarray(v, float)
    except (TypeError, ValueError):
        return len(u) == len(v) and all(
            list(map(str, s)) == list(map(str, t)) if not isinstance(s, str)
            else s == t for s, t in zip(u, v))
    return u.shape == v.shape and bool(np.allclose(u, v, rtol=1e-12, atol=0,
                                                   equal_nan=True))


def same_out(a, b, tol=0):
    a, b = np.asarray(a), np.asarray(b)
    if tol and a.shape == b.shape and a.size:
        a, b = a.astype(float), b.astype(float)
        return bool(np.allclose(a, b, rtol=0, equal_nan=True,
                                atol=tol * (1 + np.nanmax(np.abs(b)))))
    if a.dtype.kind in "OUS":
        a = np.array([plain(v) for v in a.ravel()], dtype=object
                     ).reshape(a.shape)
        b = np.array([plain(v) for v in b.ravel()], dtype=object
                     ).reshape(b.shape)
    return table.same_array(a, b)


def deep_equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, pd.DataFrame):
        return a.equals(b) and list(a.columns) == list(b.columns) and \
            a.index.equals(b.index)
    if isinstance(a, pd.Series):
        return a.equals(b) and a.index.equals(b.index) and a.name == b.name
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(deep_equal(u, v) for u, v in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(deep_equal, a, b))
    if isinstance(a, float) and a != a:
        return b != b
    if hasattr(a, "get_params"):
        return deep_equal(a.get_params(deep=True), b.get_params(deep=True))
    try:
        return bool(a == b)
    except (TypeError, ValueError):
        return a is b
