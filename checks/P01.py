"""P01: a binning process equals its individual binnings, variable by variable,
for every container, variable order, number of jobs and history."""
import contextlib
import copy
import sys
import threading
import time
import warnings

import numpy as np
import pandas as pd

from optbinning import (BinningProcess, ContinuousOptimalBinning,
                        MulticlassOptimalBinning, OptimalBinning)
from vlib import table

PROP = "P01"
RULE = ("a variable counts when its individual binning has at least two bins "
        "or a special/missing row and process and individual were compared")
ASSUMPTIONS = ["the individual classes are the reference; they are judged by "
               "their own checks (B*, C*, M*)"]
REQUIRED = {"variables": 700, "override": 300, "jobs": 90, "concurrent fits": 80, "array": 15,
            "reorder": 25, "refit": 25, "check_input": 25, "from_dict": 25,
            "own transform metric": 60, "own special": 100,
            "max_bin_size": 50, "weights": 10, "categorical": 100,
            "mixed metrics": 20, "update": 20, "piecewise": 10}


def _quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def _fit_singles(d, w=None):
    out = {}
    for n in d["names"]:
        o = table.single(d, n)
        args = (d["df"][n], d["y"]) + ((w,) if w is not None else ())
        try:
            _quiet(o.fit, *args)
        except Exception:
            return None
        out[n] = o
    return out


def _compare_fit(mon, d, bp, ref, tag):
    for n in d["names"]:
        a, b = bp.get_binned_variable(n), ref[n]
        mon.seen("variables")
        mon.check(type(a) is type(b), "class" + tag, n)
        mon.check(a.status == b.status, "status" + tag,
                  lambda: "{}: {} vs {}".format(n, a.status, b.status))
        ok = mon.check(table.same_splits(a.splits, b.splits), "splits" + tag,
                       lambda: "{}: process {} individual {} params {}".format(
                           n, a.splits, b.splits, table.single_params(d, n)))
        if ok:
            table.same_table(mon, a.binning_table.build(),
                             b.binning_table.build(), "table" + tag, n)
        mon.sig(d["ttype"], tag, b.status, len(b.splits),
                *sorted(table.single_params(d, n)))


def _expected(d, ref, X, cols, g, per):
    out = []
    for n in cols:
        p = dict(g)
        p.update((per or {}).get(n, {}))
        if p.get("metric") is None:
            p.pop("metric", None)
        out.append(np.asarray(_quiet(ref[n].transform, X[n], **p)))
    return out


def _compare_transform(mon, d, bp, ref, X, g, per, tag, arr=False,
                       order=None):
    try:
        exp = _expected(d, ref, X, d["names"], g, per)
    except Exception:
        mon.seen("skipped transform")
        return
    order = order or list(range(len(d["names"])))
    got = _quiet(bp.transform, X[[d["names"][i] for i in order]].values if arr
                 else X, **g)
    if arr:
        mon.check(isinstance(got, np.ndarray), "transform-type" + tag,
                  type(got))
        cols = [got[:, i] for i in range(got.shape[1])]
    else:
        if not mon.check(isinstance(got, pd.DataFrame), "transform-type" + tag,
                         type(got)):
            return
        mon.check([d["names"][i] for i in order] == list(got.columns),
                  "transform-columns" + tag, lambda: list(got.columns))
        mon.check(got.index.equals(X.index), "transform-index" + tag, "")
        cols = [got[c].values for c in got.columns]
    if not mon.check(len(cols) == len(exp), "transform-shape" + tag,
                     lambda: (len(cols), len(exp))):
        return
    for j, i in enumerate(order):
        n = d["names"][i]
        mon.check(table.same_array(cols[j], exp[i]), "transform" + tag,
                  lambda: "{} {} {}: process {} individual {}".format(
                      n, g, (per or {}).get(n), cols[j][:12], exp[i][:12]))


def _query(rng, d):
    """New records: resampled rows, unseen values, own index."""
    X = d["df"].iloc[rng.integers(0, len(d["df"]), int(rng.integers(1, 60)))]
    X = X.copy()
    X.index = rng.permutation(len(X)) * 3 + 7
    for n, k in zip(d["names"], d["kinds"]):
        if k == "num":
            v = X[n].values.copy()
            msk = rng.random(len(v)) < .2
            v[msk] = v[msk] * rng.uniform(-2, 2, msk.sum())
            if d["special"]:
                v[rng.random(len(v)) < .1] = table.CODES[rng.integers(4)]
            X[n] = v
    return X


def _count(mon, d, g, per):
    kw = d["kw"]
    mon.seen("override", sum(bool(v) for v in kw.get("binning_fit_params",
                                                     {}).values()))
    mon.seen("max_bin_size", "max_bin_size" in kw)
    mon.seen("categorical", sum(k != "num" for k in d["kinds"]))
    if per:
        mon.seen("own transform metric",
                 sum("metric" in p for p in per.values()))
        mon.seen("own special", sum(bool(set(p) & {
            "metric_special", "metric_missing"}) for p in per.values()))
        ms = {per.get(n, {}).get("metric", g["metric"]) for n in d["names"]}
        mon.seen("mixed metrics", len(ms) > 1)


def base(rng, mon, variant=None):
    d = table.make(rng)
    w = None
    if d["ttype"] == "binary" and rng.random() < .15:
        w = rng.uniform(.2, 3, len(d["y"]))
        mon.seen("weights")
    ref = _fit_singles(d, w)
    if ref is None:
        return
    g, per = table.transform_params(rng, d)
    _count(mon, d, g, per)
    kw = dict(d["kw"])
    if per is not None:
        kw["binning_transform_params"] = copy.deepcopy(per)
    variant = variant or str(rng.choice(
        ["plain", "jobs", "array", "array", "reorder", "refit",
         "check_input", "from_dict", "update"]))
    mon.seen(variant)
    tag = ":" + variant
    mon.sample("{} target, {} rows, kinds {}, {}".format(
        d["ttype"], len(d["y"]), d["kinds"], variant))
    df, y = d["df"], d["y"]
    keep = copy.deepcopy((df, y, kw))
    fit = dict(sample_weight=w) if w is not None else {}
    arr, order = False, None
    if variant == "jobs":
        kw["n_jobs"] = int(rng.integers(2, 6))
        with interleaved(rng) as log:
            bp = _quiet(BinningProcess(**kw).fit, df, y, **fit)
        live = most = 0
        for e, _, _ in log:
            live += 1 if e == "begin" else -1
            most = max(most, live)
        mon.seen("concurrent fits", most > 1)
        mon.seen("fit events", len(log))
        ids = {t: i for i, t in enumerate(dict.fromkeys(
            t for _, t, _ in log))}
        mon.sig("interleaving", tuple((e[0], ids[t]) for e, t, _ in log))
    elif variant == "array":
        if all(k == "num" for k in d["kinds"]) or \
                not any(k == "num" for k in d["kinds"]):
            arr = True
            V = df.values
            if any(k == "catint" for k in d["kinds"]) and V.dtype == object:
                arr = False
        if arr and rng.random() < .5:
            kw["n_jobs"] = 2
            mon.seen("array jobs")
        bp = _quiet(BinningProcess(**kw).fit, df.values if arr else df,
                    y, **fit)
    elif variant == "reorder":
        order = list(rng.permutation(len(d["names"])))
        kw["variable_names"] = [d["names"][i] for i in order]
        sh = df[[d["names"][i] for i in rng.permutation(len(d["names"]))]]
        bp = _quiet(BinningProcess(**kw).fit, sh, y, **fit)
    elif variant == "refit":
        other = table.make(rng, ttype=d["ttype"] if rng.random() < .5
                           else None)
        okw = dict(other["kw"])
        bp = BinningProcess(**okw)
        try:
            _quiet(bp.fit, other["df"], other["y"])
            _quiet(bp.transform, other["df"])
        except Exception:
            pass
        full = {k: None for k in bp.get_params()}
        full.update(BinningProcess(variable_names=["z"]).get_params())
        full.update(kw)
        bp.set_params(**full)
        _quiet(bp.fit, df, y, **fit)
    elif variant == "check_input":
        bp = _quiet(BinningProcess(**kw).fit, df, y, check_input=True, **fit)
    elif variant == "from_dict":
        bp = BinningProcess(**kw)
        if rng.random() < .4:
            o = table.make(rng, ttype=d["ttype"], nvar=len(d["names"]))
            try:
                _quiet(bp.fit, o["df"], o["y"])
            except Exception:
                pass
        perm = rng.permutation(len(d["names"]))
        _quiet(bp.fit_from_dict, {d["names"][i]: copy.deepcopy(
            ref[d["names"][i]]) for i in perm})
    elif variant == "update":
        n = d["names"][rng.integers(len(d["names"]))]
        bp = _quiet(BinningProcess(**kw).fit, df, y, **fit)
        o = table.single(d, n)
        o.set_params(max_n_bins=2, min_n_bins=None)
        try:
            _quiet(o.fit, df[n], y)
        except Exception:
            return
        bp.update_binned_variable(n, o)
        ref = dict(ref)
        ref[n] = copy.deepcopy(o)
    else:
        yy = [y, list(y), pd.Series(y)][rng.integers(3)] if w is None else y
        if isinstance(yy, list):
            yy = np.array(yy)
        bp = _quiet(BinningProcess(**kw).fit, df, yy, **fit)
    _compare_fit(mon, d, bp, ref, tag)
    mon.check(len(bp.get_support()) == len(d["names"]) and
              bp.get_support().all(), "all-selected", lambda: bp.get_support())
    X = _query(rng, d) if rng.random() < .7 else df
    _compare_transform(mon, d, bp, ref, X, g, per, tag, arr, order)
    if rng.random() < .5:
        # a second transform with other global arguments on the same process
        g2, _ = table.transform_params(rng, d)
        if not (per and any("metric" in p for p in per.values()) and
                g2["metric"] == "bins"):
            _compare_transform(mon, d, bp, ref, X, g2, per, tag + ":again",
                               arr, order)
    if variant in ("plain", "jobs") and rng.random() < .5:
        ft = BinningProcess(**kw)
        try:
            exp = _quiet(bp.transform, df, **g)
        except Exception:
            exp = None
        if exp is not None:
            got = _quiet(ft.fit_transform, df, y, sample_weight=w, **g)
            mon.check(list(got.columns) == list(exp.columns) and
                      table.same_array(got.values, exp.values),
                      "fit_transform" + tag, "")
    # nothing the user passed in was modified
    mon.check(keep[0].equals(df) and np.array_equal(keep[1], y),
              "input-modified", "")
    if variant not in ("reorder", "jobs"):
        mon.check(repr(keep[2].get("binning_fit_params")) == repr(
            kw.get("binning_fit_params")) and repr(keep[2].get(
                "binning_transform_params")) == repr(
                    kw.get("binning_transform_params")), "params-modified", "")


def piecewise(rng, mon):
    """Variables replaced by piecewise models."""
    from optbinning import OptimalPWBinning, ContinuousOptimalPWBinning
    d = table.make(rng, ttype=str(rng.choice(["binary", "continuous"])),
                   nvar=int(rng.integers(1, 4)), allow_cat=False,
                   overrides=False)
    d["kw"].pop("min_bin_size", None)
    ref = _fit_singles(d)
    if ref is None:
        return
    bp = _quiet(BinningProcess(**d["kw"]).fit, d["df"], d["y"])
    n = d["names"][rng.integers(len(d["names"]))]
    sc = d["kw"].get("special_codes")
    cls = OptimalPWBinning if d["ttype"] == "binary" else \
        ContinuousOptimalPWBinning
    pw = cls(name=n, special_codes=sc, max_n_prebins=4,
             continuous=bool(rng.random() < .5))
    try:
        _quiet(pw.fit, d["df"][n].values, d["y"])
    except Exception:
        return
    mon.seen("piecewise")
    bp.update_binned_variable(n, pw)
    ref[n] = copy.deepcopy(pw)
    X = _query(rng, d)
    g = dict(metric_special=0, metric_missing=.5)
    exp = _expected(d, ref, X, d["names"], dict(g, metric=None), None)
    got = _quiet(bp.transform, X, **g)
    for i, m in enumerate(d["names"]):
        mon.check(table.same_array(got[m].values, exp[i]),
                  "transform:piecewise", lambda: "{} {}".format(
                      got[m].values[:8], exp[i][:8]))
    s = bp.summary().set_index("name")
    mon.check(int(s.loc[n, "n_bins"]) == len(pw.splits) + 1,
              "n_bins:piecewise", lambda: (s.loc[n, "n_bins"], pw.splits))
    key = "iv" if d["ttype"] == "binary" else "woe"
    t = ref[n].binning_table
    t.build()
    t.analysis(print_output=False)
    mon.close(s.loc[n, key], getattr(t, key), "stat:piecewise", key)
    mon.sig("pw", d["ttype"], len(pw.splits))


@contextlib.contextmanager
def interleaved(rng):
    """Log begin and end of every variable's fit, delay some of them, and
    switch threads as often as possible."""
    log, old = [], sys.getswitchinterval()
    delays = rng.choice([0, 0, 1e-3, 4e-3], 64)
    saved = {c: c.fit for c in (OptimalBinning, ContinuousOptimalBinning,
                                MulticlassOptimalBinning)}

    def wrap(fit):
        def f(self, *a, **k):
            n = len(log)
            log.append(("begin", threading.get_ident(), self.name))
            time.sleep(delays[n % 64])
            try:
                return fit(self, *a, **k)
            finally:
                time.sleep(delays[(n + 7) % 64])
                log.append(("end", threading.get_ident(), self.name))
        return f

    for c, g in saved.items():
        c.fit = wrap(g)
    seed = int(rng.integers(1 << 30))

    def hook(frame, event, arg):
        # delays within the preparation of a variable, too
        c = frame.f_code
        if event == "call" and "optbinning" in c.co_filename:
            r = getattr(own, "r", None)
            if r is None:
                r = own.r = np.random.default_rng(
                    [seed, threading.get_ident() % 1000])
            if c.co_filename.endswith("binning_process.py") or \
                    c.co_name == "__init__":
                time.sleep([0, 2e-4, 2e-3][r.integers(3)])
            elif r.random() < .02:
                time.sleep(1e-5)
    own = threading.local()
    sys.setswitchinterval(1e-5)
    threading.setprofile(hook)
    try:
        yield log
    finally:
        threading.setprofile(None)
        sys.setswitchinterval(old)
        for c, g in saved.items():
            c.fit = g


def jobs(rng, mon):
    base(rng, mon, "jobs")


FAMILIES = {"base": (base, 760, 9000), "piecewise": (piecewise, 51, 300),
            "jobs": (jobs, 90, 1200)}
