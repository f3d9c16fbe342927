"""Scorecard workload: a table, an estimator, a scaling, and the reference
linear predictor computed from independently fitted binnings."""
import copy
import warnings

import numpy as np
import pandas as pd
from sklearn.linear_model import (HuberRegressor, Lasso, LinearRegression,
                                  LogisticRegression, Ridge)

from . import anyfit, table


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def estimator(rng, ttype):
    fi = bool(rng.random() < .8)
    if rng.random() < .12:
        # sparse coefficients
        if ttype == "binary":
            return LogisticRegression(penalty="l1", solver="liblinear",
                                      C=float(rng.choice([.02, .1, .5])),
                                      fit_intercept=fi, random_state=0)
        return Lasso(alpha=float(rng.choice([.1, 1, 5])), fit_intercept=fi)
    if ttype == "binary":
        return LogisticRegression(C=float(rng.choice([.05, 1, 100])),
                                  fit_intercept=fi, max_iter=300)
    k = rng.integers(3)
    if k == 0:
        return LinearRegression(fit_intercept=fi)
    if k == 1:
        return Ridge(alpha=1., fit_intercept=fi)
    return HuberRegressor(max_iter=500, fit_intercept=fi)


def scaling(rng, ttype):
    r = rng.random()
    kw = {}
    if ttype == "binary" and r < .45:
        kw = dict(scaling_method="pdo_odds", scaling_method_params={
            "pdo": float(rng.choice([1, 20, 33.3, 50])),
            "odds": float(rng.choice([.5, 1, 10, 50, 3.7])),
            "scorecard_points": float(rng.choice([1, 400, 600, 555.5]))})
    elif r < .85:
        a = int(rng.choice([0, 300, -50, 7]))
        b = a + int(rng.choice([10, 100, 550, 1, 41]))
        kw = dict(scaling_method="min_max",
                  scaling_method_params={"min": a, "max": b})
    if rng.random() < .4:
        kw["reverse_scorecard"] = True
    if rng.random() < .45:
        kw["intercept_based"] = True
    if rng.random() < .35 and "scaling_method" in kw:
        kw["rounding"] = True
    return kw


def metric_params(rng, d):
    """Optional per-variable transform settings of the binning process."""
    if rng.random() > .3:
        return None
    per = {}
    for n in d["names"]:
        if rng.random() < .6:
            p = {}
            if d["ttype"] == "binary" and rng.random() < .4:
                p["metric"] = "event_rate"
            if rng.random() < .6:
                p["metric_special"] = ["empirical", 0, .75, 2][rng.integers(4)]
            if rng.random() < .6:
                p["metric_missing"] = ["empirical", 0, -.5, 1][rng.integers(4)]
            per[n] = p
    return per or None


def make(rng, ttype=None, nvar=None, nmax=220):
    ttype = ttype or str(rng.choice(["binary", "binary", "continuous"]))
    d = table.make(rng, ttype=ttype, nmax=nmax,
                   nvar=nvar or int(rng.integers(1, 5)))
    d["kw"].pop("min_n_bins", None)
    d["est"] = estimator(rng, ttype)
    d["fit"] = {}
    for k in ("metric_special", "metric_missing"):
        if rng.random() < .6:
            d["fit"][k] = ["empirical", 0, .4, -1.5, 2][rng.integers(5)]
    if rng.random() < .2:
        d["fit"]["show_digits"] = int(rng.integers(0, 5))
    if rng.random() < .1:
        d["fit"]["check_input"] = True
    d["per"] = metric_params(rng, d)
    if d["per"]:
        d["kw"]["binning_transform_params"] = d["per"]
    if rng.random() < .15 and len(d["names"]) > 1:
        d["kw"]["selection_criteria"] = {"quality_score": {
            "strategy": "highest", "top": int(rng.integers(
                1, len(d["names"])))}}
    if rng.random() < .2:
        # a number of the user's for categories never seen
        for n, k in zip(d["names"], d["kinds"]):
            if k != "num":
                d["kw"].setdefault("binning_fit_params", {}).setdefault(
                    n, {})["cat_unknown"] = float(
                        [0, .35, -1.25, 2][rng.integers(4)])
    d["weights"] = None
    if ttype == "binary" and rng.random() < .1:
        d["weights"] = rng.uniform(.3, 3, len(d["y"]))
    return d


def fit(d, **kw):
    from optbinning import BinningProcess, Scorecard
    bp = BinningProcess(**copy.deepcopy(d["kw"]))
    sc = Scorecard(binning_process=bp, estimator=copy.deepcopy(d["est"]),
                   **copy.deepcopy(kw))
    f = dict(d["fit"])
    if d["weights"] is not None:
        f["sample_weight"] = d["weights"]
    quiet(sc.fit, d["df"], d["y"], **f)
    return sc


def singles(d):
    out = {}
    for n in d["names"]:
        o = table.single(d, n)
        if d["weights"] is not None:
            quiet(o.fit, d["df"][n], d["y"], d["weights"])
        else:
            quiet(o.fit, d["df"][n], d["y"])
        out[n] = o
    return out


def settings(d, name):
    """(metric, special, missing) that apply to one variable"""
    p = (d["per"] or {}).get(name, {})
    dm = "woe" if d["ttype"] == "binary" else "mean"
    return (p.get("metric", dm),
            p.get("metric_special", d["fit"].get("metric_special", 0)),
            p.get("metric_missing", d["fit"].get("metric_missing", 0)))


def special_rows(o):
    sc = o.special_codes
    if sc is None:
        return [("Special", [])]
    if isinstance(sc, dict):
        return [(k, list(v) if isinstance(v, (list, np.ndarray)) else [v])
                for k, v in sc.items()]
    return [("Special", list(sc))]


def rows_values(d, name, o):
    """Value of every row of the variable's table under its settings, and the
    function that finds a value's row (-1: none)."""
    metric, sp, mi = settings(d, name)
    t = o.binning_table.build(add_totals=False)
    col = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}[metric]
    v = t[col].values.astype(float).copy()
    rows = special_rows(o)
    nb = len(v) - 1 - len(rows)
    if sp != "empirical":
        v[nb:nb + len(rows)] = sp
    if mi != "empirical":
        v[-1] = mi
    dtype = "numerical" if getattr(o, "dtype", "numerical") == "numerical" \
        else "categorical"
    groups = [list(b) for b in t["Bin"].iloc[:nb]] \
        if dtype == "categorical" else None

    def find(x):
        return anyfit.row_of(x, dtype, list(o.splits), groups, rows)[0]
    # value of a record without row: unseen category
    if o.cat_unknown is not None:
        unseen = float(o.cat_unknown)
    elif metric == "woe":
        unseen = 0.
    else:
        full = o.binning_table.build()
        unseen = float(full[col].iloc[-1])
    return v, find, unseen


def query(rng, d):
    m = int(rng.integers(5, 60))
    X = d["df"].iloc[rng.integers(0, len(d["df"]), m)].copy()
    X.index = range(m) if rng.random() < .5 else rng.permutation(m) + 100
    for n, k in zip(d["names"], d["kinds"]):
        v = X[n].values.copy()
        if k == "num":
            msk = rng.random(m) < .25
            v[msk] = v[msk] * rng.uniform(-3, 3, msk.sum())
            if d["special"]:
                v[rng.random(m) < .15] = table.CODES[rng.integers(4)]
            v[rng.random(m) < .1] = np.nan
        else:
            msk = rng.random(m) < .15
            if k == "catint":
                v[msk] = 998
            else:
                v = v.astype(object)
                v[msk] = "never seen"
                v[rng.random(m) < .1] = np.nan
        X[n] = v
    return X
