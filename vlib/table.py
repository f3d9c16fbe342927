"""Mixed tables (several variables, one target) for the binning process,
scorecard and monitoring checks, with an independent statement of which
parameters each variable ends up with."""
import re

import numpy as np
import pandas as pd

from . import anyfit

CODES = [-999999.0, -888888.0, -777777.0, -666666.0]
SCODE = "zz"                    # special code of text variables


def special_form(rng):
    """special_codes of a process in every documented form."""
    codes = list(CODES)
    if rng.random() < .3:
        codes.insert(int(rng.integers(5)), SCODE)
    r = rng.random()
    if r < .5:
        return codes
    if r < .65:
        return np.array(CODES)
    d, i = {}, 0
    codes = [codes[j] for j in rng.permutation(len(codes))]
    while i < len(codes):
        step = int(rng.integers(1, 4))
        grp = codes[i:i + step]
        d["S%d" % len(d)] = grp[0] if len(grp) == 1 and rng.random() < .6 \
            else grp
        i += step
    return d


def column(rng, m, kind, special=False):
    """-> (values, latent effect)"""
    if kind == "num":
        x, style = anyfit.numeric_x(rng, m, str(rng.choice(
            ["normal", "exp", "int", "ties", "lattice", "heavy", "two"])))
        x = np.clip(x, -1e5, 1e5)
        z = np.clip((x - np.median(x)) / (np.std(x) + 1e-12), -4, 4)
        eff = anyfit.link(rng, z)
        if special:
            msk = rng.random(m) < .1
            x[msk] = rng.choice(CODES, msk.sum())
        if rng.random() < .4:
            x[rng.random(m) < .08] = np.nan
        return x, eff
    k = int(rng.integers(2, 7))
    if kind == "catint":
        names = np.arange(k) * 2 + 1
    elif kind == "catnum":                       # strings that look like numbers
        names = np.array([str(i) for i in range(k - 1)] + ["u"], dtype=object)
    else:
        names = np.array(["k%d" % i for i in range(k)], dtype=object)
    idx = rng.choice(k, m, p=rng.dirichlet(np.full(k, 2.)))
    x = names[idx]
    eff = rng.normal(0, 1, k)[idx]
    if kind != "catint":
        x = x.astype(object)
        if special and rng.random() < .5:
            x[rng.random(m) < .1] = SCODE
        if rng.random() < .4:
            x[rng.random(m) < .08] = np.nan if rng.random() < .7 else None
    return x, eff


def target(rng, kind, eff):
    m = len(eff)
    if kind == "binary":
        y = (rng.random(m) < 1 / (1 + np.exp(-eff))).astype(int)
        for c in (0, 1):
            y[rng.integers(0, m, 6)] = c
        y[:2] = [0, 1]
    elif kind == "continuous":
        y = eff * float(rng.choice([1, 50])) + rng.normal(0, 1, m)
        y[0] += .123
    else:
        k = int(rng.integers(3, 5))
        q = np.quantile(eff + rng.normal(0, .5, m), np.arange(1, k) / k)
        y = np.digitize(eff + rng.normal(0, .5, m), q)
        y[:k] = np.arange(k)
    return y


def fit_params(rng, ttype, kind):
    p = {}
    if rng.random() < .5:
        p["max_n_bins"] = int(rng.integers(2, 6))
    if rng.random() < .3:
        p["max_n_prebins"] = int(rng.integers(3, 9))
    if rng.random() < .3:
        p["min_prebin_size"] = float(rng.choice([.05, .1, .2]))
    if rng.random() < .2:
        p["min_bin_size"] = float(rng.choice([.05, .1]))
    if ttype != "multiclass" and rng.random() < .4:
        p["monotonic_trend"] = [None, "auto", "ascending",
                                "auto_heuristic"][rng.integers(4)]
    if kind == "num":
        if rng.random() < .3:
            p["prebinning_method"] = str(rng.choice(["quantile", "uniform"]))
        if rng.random() < .2:
            p["split_digits"] = int(rng.integers(0, 3))
        if rng.random() < .2:
            p["special_codes"] = [CODES[1]] if rng.random() < .5 else None
        if rng.random() < .15:
            p["user_splits"] = np.sort(rng.normal(0, 3, int(
                rng.integers(1, 4)))).tolist()
            p.pop("split_digits", None)
    elif rng.random() < .3:
        p["cat_cutoff"] = float(rng.choice([.01, .05]))
    return p


def make(rng, ttype=None, nmax=260, nvar=None, allow_cat=True,
         overrides=True):
    ttype = ttype or str(rng.choice(["binary", "binary", "continuous",
                                     "multiclass"]))
    m = int(rng.integers(60, nmax))
    nv = nvar or int(rng.integers(1, 6))
    special = rng.random() < .5
    kinds, cols, eff = [], {}, np.zeros(m)
    pool = ["num", "num", "cat", "catint", "catnum"]
    if ttype == "multiclass" or not allow_cat or rng.random() < .3:
        pool = ["num"]
    names = ["v%d" % i for i in range(nv)]
    for nm in names:
        k = str(rng.choice(pool))
        x, e = column(rng, m, k, special)
        kinds.append(k)
        cols[nm] = x
        eff = eff + e * rng.choice([.2, 1, 1])
    df = pd.DataFrame(cols)
    y = target(rng, ttype, eff - eff.mean())
    kw = dict(variable_names=list(names) if rng.random() < .8
              else np.array(names))
    if special:
        kw["special_codes"] = special_form(rng)
        if any(k != "num" for k in kinds) and isinstance(
                kw["special_codes"], np.ndarray):
            kw["special_codes"] = list(CODES)
    if rng.random() < .3:
        kw["max_n_prebins"] = int(rng.integers(3, 12))
    if rng.random() < .3:
        kw["min_prebin_size"] = float(rng.choice([.05, .1, .15]))
    if rng.random() < .3:
        kw["max_n_bins"] = int(rng.integers(2, 6))
    if rng.random() < .15:
        kw["min_n_bins"] = 2
    if rng.random() < .2:
        kw["min_bin_size"] = float(rng.choice([.03, .1]))
    if rng.random() < .25:
        kw["max_bin_size"] = float(rng.choice([.3, .5, .7]))
    if rng.random() < .25:
        kw["max_pvalue"] = float(rng.choice([.05, .3]))
        kw["max_pvalue_policy"] = str(rng.choice(["consecutive", "all"]))
    if rng.random() < .2:
        kw["split_digits"] = int(rng.integers(1, 4))
    catvars = [n for n, k in zip(names, kinds) if k == "catint" or
               (k != "num" and rng.random() < .3)]
    if catvars:
        kw["categorical_variables"] = catvars if rng.random() < .8 \
            else np.array(catvars)
        if not isinstance(kw["categorical_variables"], list):
            kw["categorical_variables"] = [str(c) for c in catvars]
    fp = {}
    if overrides and rng.random() < .7:
        for n, k in zip(names, kinds):
            if rng.random() < .6:
                fp[n] = fit_params(rng, ttype, k)
        kw["binning_fit_params"] = fp
    return dict(df=df, y=y, kw=kw, names=names, kinds=kinds, ttype=ttype,
                special=special)


def single_params(d, name):
    """Parameters of the individual class for one variable."""
    kw = d["kw"]
    p = {k: kw[k] for k in (
        "max_n_prebins", "min_prebin_size", "min_n_bins", "max_n_bins",
        "min_bin_size", "max_bin_size", "max_pvalue", "max_pvalue_policy",
        "special_codes", "split_digits") if k in kw}
    p["name"] = name
    if d["ttype"] != "multiclass":
        kind = d["kinds"][d["names"].index(name)]
        p["dtype"] = "numerical" if kind == "num" else "categorical"
    p.update(kw.get("binning_fit_params", {}).get(name, {}))
    return p


def single(d, name):
    from optbinning import (OptimalBinning, ContinuousOptimalBinning,
                            MulticlassOptimalBinning)
    cls = {"binary": OptimalBinning, "continuous": ContinuousOptimalBinning,
           "multiclass": MulticlassOptimalBinning}[d["ttype"]]
    return cls(**single_params(d, name))


METRICS = {"binary": ["woe", "event_rate", "indices", "bins"],
           "continuous": ["mean", "indices", "bins"],
           "multiclass": ["mean_woe", "weighted_mean_woe", "indices", "bins"]}


def metric_value(rng, ttype, metric):
    """metric_special / metric_missing"""
    if metric in ("indices", "bins") or ttype == "multiclass":
        return 0 if rng.random() < .7 else int(rng.integers(-3, 9))
    return ["empirical", 0, .5, -2.25][rng.integers(4)]


def transform_params(rng, d):
    """global (metric, special, missing, show_digits), per-variable dict or
    None."""
    t = d["ttype"]
    ms = METRICS[t]
    g = dict(metric=None if rng.random() < .4 else str(rng.choice(ms)))
    g["metric_special"] = metric_value(rng, t, g["metric"])
    g["metric_missing"] = metric_value(rng, t, g["metric"])
    if rng.random() < .3:
        g["show_digits"] = int(rng.integers(0, 5))
    per = None
    if rng.random() < .65:
        per = {}
        for n in d["names"]:
            if rng.random() < .6:
                p = {}
                if g["metric"] != "bins" and rng.random() < .5:
                    p["metric"] = str(rng.choice([m for m in ms
                                                  if m != "bins"]))
                eff = p.get("metric", g["metric"])
                if rng.random() < .5:
                    p["metric_special"] = metric_value(rng, t, eff)
                if rng.random() < .5:
                    p["metric_missing"] = metric_value(rng, t, eff)
                per[n] = p
        # "empirical" inherited by a variable with an integer metric is fine
    return g, per


def same_table(mon, a, b, key, msg):
    ok = list(a.columns) == list(b.columns) and len(a) == len(b) and \
        list(map(str, a.index)) == list(map(str, b.index))
    if not mon.check(ok, key, lambda: "{}: {} vs {}".format(
            msg, a.shape, b.shape)):
        return False
    for c in a.columns:
        for i, (u, v) in enumerate(zip(a[c].tolist(), b[c].tolist())):
            if not same_value(u, v):
                return mon.check(False, key, lambda: "{}: column {} row {}: "
                                 "{!r} vs {!r}".format(msg, c, i, u, v))
    return True


def _zero(s):
    """The sign of a zero in a bin label is of no consequence."""
    return re.sub(r"-(0(?:\.0*)?(?![0-9.]))", r"\1", s)


def same_value(u, v):
    if isinstance(u, (list, tuple, np.ndarray)) or isinstance(
            v, (list, tuple, np.ndarray)):
        return list(map(str, np.asarray(u, dtype=object).ravel())) == \
            list(map(str, np.asarray(v, dtype=object).ravel()))
    if isinstance(u, str) or isinstance(v, str):
        return isinstance(u, str) and isinstance(v, str) and (
            _zero(u) == _zero(v))
    try:
        return bool(np.isclose(float(u), float(v), rtol=1e-9, atol=1e-12,
                               equal_nan=True))
    except (TypeError, ValueError):
        return u is v or u == v


def same_splits(a, b):
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if isinstance(u, (list, np.ndarray)):
            if list(map(str, u)) != list(map(str, v)):
                return False
        elif not np.isclose(u, v, rtol=1e-12, atol=0):
            return False
    return True


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object or a.dtype.kind in "US" or \
            b.dtype.kind in "US":
        return all(same_value(u, v) for u, v in zip(a.ravel(), b.ravel()))
    return bool(np.allclose(a.astype(float), b.astype(float), rtol=1e-9,
                            atol=1e-12, equal_nan=True))
