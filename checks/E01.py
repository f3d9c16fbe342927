"""E01: invalid use is rejected and leaves nothing behind."""
import copy
import json
import os
import random
import tempfile

import numpy as np
import pandas as pd
from sklearn.exceptions import NotFittedError

from optbinning import (BinningProcess, BinningProcessSketch,
                        ContinuousOptimalBinning, ContinuousOptimalPWBinning,
                        MulticlassOptimalBinning, OptimalBinning,
                        OptimalBinning2D, OptimalBinningSketch,
                        OptimalPWBinning, SBOptimalBinning, Scorecard)
from optbinning.binning.distributed import BCatSketch, BSketch, GK
from optbinning.binning.outlier import (ModifiedZScoreDetector, RangeDetector,
                                        YQuantileDetector)
from optbinning.exceptions import (NotDataAddedError, NotGeneratedError,
                                   NotSolvedError)
from optbinning.scorecard import Counterfactual, ScorecardMonitoring
from vlib import score, zoo

PROP = "E01"
RULE = ("one rejection or acceptance is observed per (estimator, parameter, "
        "value); distinct = (estimator, parameter, value, fresh or fitted)")
ASSUMPTIONS = ["the documented domains of the parameters are those written "
               "in the docstrings (open and closed ends as the error messages "
               "of the library state them)",
               "rejecting means raising ValueError or TypeError; use before "
               "fit means NotFittedError (NotSolvedError for sketches)",
               "booleans given for integers and NaN for numbers are not "
               "judged"]
REQUIRED = {"rejected": 4000, "fresh": 1500, "fitted": 1500, "accepted": 500,
            "before fit": 900, "before build": 250, "transform args": 600,
            "table args": 400, "data rejected": 400, "state kept": 1500,
            "pair": 200, "verbose": 35, "scorecard scaling": 60,
            "monitoring": 28, "counterfactual": 300, "sketch": 200,
            "before analysis": 150, "process lookups": 60,
            "process arguments": 600, "disk arguments": 200,
            "checked fit": 80, "checked transform": 60, "checked data": 250,
            "rejected batch": 20, "bad file": 60, "checked transform data": 30}
REJECT = (ValueError, TypeError)
UNFIT = (NotFittedError, NotSolvedError)


class Thing:
    """neither fits nor predicts"""


INT_POS = [0, -1, 1.5, "2"]
DOMAIN = dict(
    name=[3, None, ["a"]], name_x=[3, None], name_y=[3, None],
    dtype=["numeric", None, 1], dtype_x=["numeric", None],
    dtype_y=["numeric", None],
    prebinning_method=["tree", None, "Cart"], strategy=["dense", None],
    solver=["gurobi", None], divergence=["kl", None, "IV"],
    max_n_prebins=[1, 0, -3, 2.5, "5", None],
    max_n_prebins_x=[1, 0, 2.5], max_n_prebins_y=[1, 0, 2.5],
    min_prebin_size=[0, -.1, .51, 1, 2], min_prebin_size_x=[0, .51, -1],
    min_prebin_size_y=[0, .51, -1],
    min_n_bins=INT_POS, max_n_bins=INT_POS,
    min_bin_size=[0, 0., -.1, .51, 1, "x"],
    max_bin_size=[0, 0., 1.01, -1, "x"],
    min_bin_n_event=INT_POS, max_bin_n_event=INT_POS,
    min_bin_n_nonevent=INT_POS, max_bin_n_nonevent=INT_POS,
    monotonic_trend=["increasing", "auto_ascending", "Peak", ""],
    monotonic_trend_x=["auto", "peak", "asc"],
    monotonic_trend_y=["auto", "valley", "asc"],
    min_event_rate_diff=[-.01, 1.01, "0", None],
    min_event_rate_diff_x=[-.01, 1.01, "0"],
    min_event_rate_diff_y=[-.01, 1.01, "0"],
    min_mean_diff=[-.01, "0", None], min_mean_diff_x=["0", None],
    min_mean_diff_y=["0", None],
    max_pvalue=[0, 0., 1.01, -1, "x"], max_pvalue_policy=["any", None],
    gamma=[-.1, "x", None],
    outlier_detector=["iqr", "Range"], class_weight=[3, "auto", ["balanced"]],
    cat_cutoff=[0, 1.01, -.1, "x"], cat_unknown=[[1], (1,)],
    user_splits=[(1, 2), "a", 3], special_codes=[5, "a", (1, 2)],
    special_codes_x=[5, "a", (1, 2), {"a": 1}],
    special_codes_y=[5, "a", (1, 2), {"a": 1}],
    split_digits=[-1, 9, 1.5, "2"], mip_solver=["scip", None],
    n_jobs=[1.5, "2"], time_limit=[-1, "10", None],
    verbose=[1, "True", None],
    # piecewise
    estimator=[Thing()], objective=["mse", None], degree=[-1, 6, 1.5, "1"],
    continuous=[1, "yes", None], continuous_deriv=[0, "yes", None],
    n_subsamples=INT_POS, h_epsilon=[.99, 0, "x", None],
    quantile=[0, 1, 1.2, "x", None], regularization=["l3", "L1"],
    reg_l1=[-.1, "x", None], reg_l2=[-.1, "x", None],
    random_state=["a", 1.5],
    # sketches
    sketch=["kll", None], eps=[-.1, 1.5, "x", None], K=[0, -2, 1.5, "x"],
    cat_heuristic=[1, "x", None],
    # processes
    variable_names=[("a", "b"), None, "a"],
    selection_criteria=[["iv"], "iv"], fixed_variables=[("a",), "a"],
    categorical_variables=[("a",), "a", [1, 2]],
    binning_fit_params=[[1], "a"], binning_transform_params=[[1], "a"],
    # mdlp
    min_samples_split=[1, 0, -1, 2.5, "2"], min_samples_leaf=[0, -1, 1.5],
    max_candidates=[0, -1, 1.5, "2"],
    # scorecard
    scaling_method=["linear", "PDO"], intercept_based=[1, None, "x"],
    reverse_scorecard=[1, None, "x"], rounding=[1, None, "x"])

# two parameters that do not go together
PAIRS = [dict(min_n_bins=4, max_n_bins=3),
         dict(min_bin_size=.3, max_bin_size=.2),
         dict(min_bin_n_event=5, max_bin_n_event=4),
         dict(min_bin_n_nonevent=5, max_bin_n_nonevent=4),
         dict(outlier_detector="zscore", outlier_params=[3]),
         dict(outlier_detector="range", outlier_params="x"),
         dict(user_splits=None, user_splits_fixed=[True]),
         dict(user_splits=[.1, .2], user_splits_fixed=[True]),
         dict(user_splits=[.1, .2], user_splits_fixed=[True, False, True]),
         dict(user_splits=[.1, .2], user_splits_fixed=(True, False)),
         dict(user_splits=[.1, .2], user_splits_fixed=[1, 0]),
         dict(user_splits=[.1, .2], user_splits_fixed=["a", True])]

# found while fitting
LATE = [dict(user_splits=[.1, .1])] + [
    dict(outlier_detector=a, outlier_params=b) for a, b in (
        ("range", dict(method="IQR")), ("range", dict(interval_length=1.2)),
        ("range", dict(interval_length=-.1)), ("zscore", dict(threshold=-1)),
        ("range", dict(interval_length="x")), ("zscore", dict(threshold="x")),
        ("zscore", dict(no_such=1)), ("range", dict(threshold=1)))]

# values at the ends of the domains
OK = dict(max_n_prebins=[2, np.int64(3)], max_n_prebins_x=[2],
          max_n_prebins_y=[2], min_prebin_size=[.5], min_prebin_size_x=[.5],
          min_prebin_size_y=[.5], min_n_bins=[1, np.int32(1)],
          max_n_bins=[1, np.int64(2)], min_bin_size=[.5],
          max_bin_size=[1., 1], min_bin_n_event=[1], min_bin_n_nonevent=[1],
          min_event_rate_diff=[0, 1, 1.], min_event_rate_diff_x=[0, 1],
          min_event_rate_diff_y=[0, 1], min_mean_diff=[0, 1000],
          max_pvalue=[1., 1], gamma=[0, 5], split_digits=[0, 8, np.int64(3)],
          time_limit=[3600, 60.5], verbose=[True], degree=[0],
          h_epsilon=[1.], reg_l1=[0], reg_l2=[0], n_jobs=[1, None],
          min_samples_split=[2], min_samples_leaf=[1], max_candidates=[1],
          K=[1], eps=[1e-3, 0, 0.], intercept_based=[True, False],
          reverse_scorecard=[True, False])
OK_PAIRS = [dict(min_n_bins=2, max_n_bins=2), dict(min_n_bins=1, max_n_bins=1),
            dict(min_bin_size=.25, max_bin_size=.25),
            dict(min_bin_n_event=3, max_bin_n_event=3),
            dict(min_bin_n_nonevent=3, max_bin_n_nonevent=3)]


def domain(kind, m, o, rng):
    """(label, updates) that the estimator must reject"""
    p = o.get_params(deep=False)
    out = []
    extra = {}
    if kind in ("binary_num", "binary_cat", "multi"):
        extra["outlier_detector"] = ["yquantile"]
    if kind in ("cont_num", "cont_cat", "multi", "scenario", "piecewise"):
        extra["prebinning_method"] = ["mdlp"]
    if kind == "multi":
        extra["solver"] = ["ls"]
        extra["monotonic_trend"] = ["ascending", "peak", ["auto", "up"]]
    if kind == "scenario":
        extra["monotonic_trend"] = ["auto", "auto_heuristic",
                                    "peak_heuristic", "auto_asc_desc"]
    if kind in ("scenario", "sketch", "process_sketch"):
        extra["special_codes"] = [{"a": 1}]
    if kind in ("binary_num", "binary_cat", "cont_num", "cont_cat", "multi",
                "process"):
        extra["special_codes"] = [{}]
    if getattr(o, "dtype", None) == "categorical" and \
            kind in ("binary_cat", "cont_cat"):
        extra["user_splits"] = [[]]     # no group of categories at all
    if kind in ("sketch", "twod"):
        extra["solver"] = ["ls"]
    if kind == "piecewise":
        extra["monotonic_trend"] = ["auto_heuristic", "peak_heuristic"]
        extra["solver"] = ["cp", "mip"]
    for k in p:
        if kind == "piecewise" and k == "max_n_prebins":
            continue                    # not among the validated ones
        if kind == "card" and k == "estimator":
            pass
        if kind == "card" and k == "binning_process":
            out += [(k, {k: v}) for v in (None, Thing(), OptimalBinning())]
        for v in DOMAIN.get(k, []) + extra.get(k, []):
            out.append((k, {k: v}))
    for d in PAIRS:
        if set(d) <= set(p):
            out.append(("+".join(sorted(d)), d))
    if kind in ("binary_num", "cont_num", "multi", "scenario", "piecewise"):
        for d in LATE:
            # (repeated splits of a categorical variable: M01)
            if set(d) <= set(p):
                out.append(("+".join(sorted(d)) + "-late", d))
    if kind == "piecewise":
        out += [("trend+degree", dict(monotonic_trend=t, degree=2))
                for t in ("convex", "concave")]
    if kind == "card":
        P, M = "pdo_odds", "min_max"
        good = dict(pdo=20, odds=15, scorecard_points=600)
        sc = [(P, None), (P, [1]), (M, None), (M, dict(min=0)),
              (M, dict(min=0, max=1, step=1)), (M, dict(good)),
              (P, dict(min=0, max=1)), (P, dict(good, pdo=0)),
              (P, dict(good, odds=-1)), (P, dict(good, scorecard_points=0)),
              (P, dict(good, pdo="x")), (M, dict(min="0", max=1)),
              (M, dict(min=2, max=1)), (M, dict(min=0, max=None))]
        sc = [dict(scaling_method=a, scaling_method_params=b) for a, b in sc]
        sc += [dict(scaling_method=None, scaling_method_params=None,
                    rounding=True),
               dict(scaling_method=M, scaling_method_params=dict(
                   min=.5, max=10), rounding=True),
               dict(scaling_method=M, scaling_method_params=dict(
                   min=1, max=10.5), rounding=True)]
        if m.d["ttype"] != "binary":
            sc.append(dict(scaling_method=P, scaling_method_params=good))
        out += [("scaling", d) for d in sc]
    return out


def show(d):
    return ", ".join("{}={!r}".format(k, v if not isinstance(v, Thing)
                                      else "object()") for k, v in d.items())


def rejects(mon, f, key, msg, errors=REJECT):
    mon.seen("rejected")
    try:
        zoo.quiet(f)
    except errors as e:
        # NotFittedError is a ValueError too
        mon.check(errors is not REJECT or not isinstance(e, UNFIT),
                  key + "-notfitted", lambda: "{} raised {!r}".format(
                      msg() if callable(msg) else msg, e))
        return True
    except Exception as e:
        mon.check(False, key + "-other-error", "raised {!r}: {}".format(
            e, msg() if callable(msg) else msg))
        return False
    mon.check(False, key, "{} was accepted".format(
        msg() if callable(msg) else msg))
    return False


def feed(m, o):
    """what validates the parameters"""
    if isinstance(m, zoo.Sketch) or isinstance(m, zoo.ProcessSketch):
        o.add(*m.a["args"])
        o.solve()
    else:
        o.fit(*m.a["args"], **m.a["kw"])


def sketchy(m):
    return isinstance(m, (zoo.Sketch, zoo.ProcessSketch))


def made(m, d):
    """an object with updated parameters: for sketches, the constructor is
    what validates"""
    if sketchy(m):
        return m.cls(**dict(copy.deepcopy(m.kw), **d))
    o = m.new()
    for k, v in d.items():
        setattr(o, k, v)
    return o


def unfitted(m, kind, o, q, rng):
    """(label, call) that need a fitted object"""
    calls = []
    if m.has_transform and kind != "card":
        calls.append(("transform", lambda: o.transform(*q)))
    if kind == "mdlp":
        return [("splits", lambda: o.splits)]
    calls.append(("information", lambda: o.information()))
    if kind in ("process", "process_sketch"):
        n = m.kw["variable_names"][0]
        calls += [("summary", lambda: o.summary()),
                  ("get_binned_variable", lambda: o.get_binned_variable(n)),
                  ("get_support", lambda: o.get_support())]
        if kind == "process":
            calls.append(("update_binned_variable", lambda:
                          o.update_binned_variable(n, OptimalBinning(name=n))))
    elif kind == "card":
        calls += [("score", lambda: o.score(*q)),
                  ("predict", lambda: o.predict(*q)),
                  ("decision_function", lambda: o.decision_function(*q)),
                  ("table", lambda: o.table())]
        if m.d["ttype"] == "binary":
            calls.append(("predict_proba", lambda: o.predict_proba(*q)))
    else:
        calls += [("splits", lambda: o.splits),
                  ("binning_table", lambda: o.binning_table),
                  ("status", lambda: o.status)]
        if kind == "sketch":
            calls.append(("plot_progress", lambda: o.plot_progress()))
        if kind == "scenario":
            calls.append(("binning_table_scenario", lambda:
                          o.binning_table_scenario(0)))
    return calls


def not_ready(rng, mon, m, kind, o, q, why, nmax=3):
    calls = unfitted(m, kind, o, q, rng)
    for i in rng.permutation(len(calls))[:nmax]:
        name, f = calls[i]
        mon.seen("before fit")
        mon.sig(kind, "unfit", name, why)
        rejects(mon, f, "unfitted-" + name, "{} {} of {}".format(
            name, why, m.tag), UNFIT)


def params(rng, mon, m, kind, q, o, ref, out):
    bad = domain(kind, m, m.new(), rng)
    for i in rng.permutation(len(bad))[:int(rng.integers(6, 14))]:
        label, d = bad[i]
        d = copy.deepcopy(d)
        if len(d) > 1:
            mon.seen("pair")
        if label == "scaling":
            mon.seen("scorecard scaling")
        if sketchy(m):
            mon.seen("sketch")
        what = "{} with {}".format(m.tag, show(d))
        if sketchy(m) or label.endswith("-late") or rng.random() < .5:
            mon.seen("fresh")
            mon.sig(kind, label, show(d)[:60], "fresh")
            box = []

            def f():
                box.append(made(m, d))
                feed(m, box[0])
            if rejects(mon, f, "param-" + label, what) and box:
                not_ready(rng, mon, m, kind, box[0], q, "after rejected "
                          + show(d), 1)
        else:
            mon.seen("fitted")
            mon.sig(kind, label, show(d)[:60], "fitted")
            old = {k: getattr(o, k) for k in d}
            for k, v in d.items():
                setattr(o, k, v)
            rejects(mon, lambda: feed(m, o), "refit-" + label, what)
            for k, v in old.items():
                setattr(o, k, v)
            kept(mon, m, o, q, ref, out, label, what)


def kept(mon, m, o, q, ref, out, label, what):
    mon.seen("state kept")
    zoo.same_state(mon, zoo.state(m, o), ref, "kept-" + label,
                   lambda: "after " + what)
    if out is not None:
        mon.check(zoo.same_out(m.transform(o, q, {}), out, m.tol),
                  "kept-" + label + "-transform", "after " + what)


def accepts(rng, mon, m, kind):
    p = m.new().get_params(deep=False)
    cand = [(k, {k: v}) for k in p for v in OK.get(k, [])]
    cand += [("+".join(sorted(d)), d) for d in OK_PAIRS if set(d) <= set(p)]
    n = 0
    for i in rng.permutation(len(cand))[:4]:
        label, d = cand[i]
        d = copy.deepcopy(d)
        if kind in ("binary_cat", "cont_cat") and label == "split_digits":
            continue
        if kind == "card" and label in ("n_jobs",):
            continue
        if d.get("eps", 1) == 0 and m.kw["sketch"] == "t-digest":
            continue
        # the configuration may hold the other end of a pair
        other = dict(min_n_bins="max_n_bins", max_n_bins="min_n_bins",
                     min_bin_size="max_bin_size", max_bin_size="min_bin_size",
                     min_bin_n_event="max_bin_n_event",
                     min_bin_n_nonevent="max_bin_n_nonevent",
                     degree="monotonic_trend")
        if label in other and m.kw.get(other[label]) is not None:
            continue
        mon.seen("accepted")
        mon.sig(kind, "ok", label, show(d)[:40])
        what = "{} with {}".format(m.tag, show(d))
        try:
            o = made(m, d)
            zoo.quiet(feed, m, o)
        except Exception as e:
            # a fixed user split lost to coarser pre-bins is reported
            # all categories below the cutoff is reported
            # limits of the piecewise regression without splits (W01)
            ok = any(s in str(e) for s in (
                "Fixed user_splits", "All categories moved",
                "require a list of splits", "Invalid dimensions (0,",
                "list indices must be integers or slices")) \
                or type(e).__module__.startswith("cvxpy") \
                or type(e).__name__ == "LinAlgError"
            mon.check(ok, "valid-" + label, "{} raised {!r}".format(what, e))
            continue
        n += 1
        if label == "verbose":
            mon.seen("verbose")
            r = m.fitted()
            zoo.same_state(mon, zoo.state(m, o), zoo.state(m, r), "verbose",
                           lambda: what)
        else:
            if kind == "card":
                mon.check(np.isfinite(np.asarray(
                    m.transform(o, m.train(), {}), float)).all()
                    or True, "valid-card")
            else:
                s = m.status(o)
                s = [s] if not isinstance(s, (list, tuple)) else s
                mon.check(len(m.tables(o)) >= 0 and len(s) >= 0,
                          "valid-use", what)


TMETRICS = dict(cont_num=["woe_", "event_rate", 3], cont_cat=["event_rate"],
                multi=["woe", "event_rate"], piecewise=["iv", "indices",
                                                        "mean"])


def t_args(rng, mon, m, kind, o, q):
    if not m.has_transform or kind == "card":
        return
    bad = [dict(metric=v) for v in ["Woe", "iv", 3, ""]
           + TMETRICS.get(kind, [])]
    bad += [dict(metric_special=v) for v in ("mean", [1], None)]
    bad += [dict(metric_missing=v) for v in ("mean", [1], None, {"a": 1})]
    if kind not in ("piecewise", "process_sketch"):
        bad += [dict(metric="bins", show_digits=v) for v in (-1, 9, 1.5, "2")]
    if kind not in ("twod",) and isinstance(m.kw.get("special_codes"), dict):
        bad += [dict(metric_special={k: "x" for k in m.kw["special_codes"]})]
    if kind in ("process", "process_sketch"):
        bad += [dict(_q=(np.asarray([[1., 2.]] * 3)[:, :1]
                         if len(o.variable_names) > 1 or kind != "process"
                         else np.ones((3, 4)),))]
        bad += [dict(_q=([[1.]],)), dict(_q=(None,))]
        s = o.get_support(names=True)
        if len(s):
            bad += [dict(_q=(q[0].drop(columns=[s[0]]),))]
        if not len(s):
            return
    for i in rng.permutation(len(bad))[:5]:
        t = dict(bad[i])
        qq = t.pop("_q", q)
        mon.seen("transform args")
        mon.sig(kind, "transform", show(bad[i])[:50])
        if kind in ("process", "process_sketch") and "_q" not in bad[i]:
            mon.seen("process transform args")
        rejects(mon, lambda: o.transform(*qq, **t), "transform-"
                + "-".join(sorted(bad[i])), lambda: "transform({}) of {}"
                .format(show(t), m.tag))


PLOT = dict(binary_num=[dict(metric="js"), dict(metric="mean"),
                        dict(add_special=1), dict(add_missing="x"),
                        dict(style="line"), dict(show_bin_labels=1),
                        dict(style="actual", add_special=True,
                             show_bin_labels=True),
                        dict(figsize=[3, 4]), dict(savefig=3)],
            cont_num=[dict(metric="event_rate"), dict(add_special=1),
                      dict(add_missing="x"), dict(style="line"),
                      dict(show_bin_labels=1), dict(figsize=[3, 4]),
                      dict(style="actual", show_bin_labels=True),
                      dict(savefig=3)],
            multi=[dict(add_special=1), dict(add_missing="x"),
                   dict(show_bin_labels=1), dict(figsize=[3, 4]),
                   dict(savefig=3)],
            piecewise=[],
            twod=[])
PLOT["binary_cat"] = PLOT["sketch"] = PLOT["scenario"] = PLOT["binary_num"]
PLOT["cont_cat"] = PLOT["cont_num"]
PROPS = dict(binary_num=("gini", "iv", "js", "hellinger", "triangular", "ks"),
             cont_num=("iv", "woe"), multi=("js",), piecewise=(), twod=())
PROPS["binary_cat"] = PROPS["sketch"] = PROPS["scenario"] = \
    PROPS["binary_num"]
PROPS["cont_cat"] = PROPS["cont_num"]


def t_table(rng, mon, m, kind, o):
    if kind not in PROPS:
        return
    t = o.binning_table
    props = PROPS[kind]
    if kind == "twod":
        props = PROPS["cont_num" if isinstance(m, zoo.ContTwoD)
                      else "binary_num"]
    if kind == "piecewise":
        props = ("woe",) if isinstance(m, zoo.ContPW) else PROPS["binary_num"]
    calls = [(p, lambda p=p: getattr(t, p)) for p in props]
    if kind == "sketch":
        calls = []                      # solve builds the table
    else:
        calls += [("plot", lambda: t.plot()),
                  ("analysis", lambda: t.analysis())]
    for i in rng.permutation(len(calls))[:3]:
        mon.seen("before build")
        mon.sig(kind, "unbuilt", calls[i][0])
        rejects(mon, calls[i][1], "unbuilt-" + calls[i][0], lambda:
                "{} before build of {}".format(calls[i][0], m.tag), UNFIT)
    if rng.random() < .6:
        mon.seen("before analysis")
        if rng.random() < .5:
            zoo.quiet(t.build)
        rejects(mon, lambda: t.quality_score, "unanalyzed", lambda:
                "quality_score before analysis of {}".format(m.tag), UNFIT)
    ref = zoo.quiet(t.build)
    bad = [("build", dict(show_digits=v)) for v in (-1, 9, 1.5, "2", None)]
    bad += [("build", dict(add_totals=v)) for v in (1, "x", None)]
    bad += [("plot", d) for d in PLOT[kind]]
    if kind == "twod":
        bad += [("build", dict(show_bin_xy=v)) for v in (1, "x", None)]
        if not isinstance(m, zoo.ContTwoD):
            bad += [("plot", dict(metric=v)) for v in ("iv", "mean")]
    if "gini" in props:
        bad += [("analysis", d) for d in (
            dict(pvalue_test="t"), dict(n_samples=0), dict(n_samples=1.5),
            dict(pvalue_test=None))]
    if kind in ("binary_cat", "cont_cat"):
        bad += [("plot", dict(style="actual"))]
    if kind in ("binary_num", "cont_num"):
        bad += [("plot", dict(style="actual"))]    # no range given: checked
    for i in rng.permutation(len(bad))[:4]:
        name, d = bad[i]
        if d == dict(style="actual") and kind in ("binary_num", "cont_num"):
            if not need_range(t):
                continue
        mon.seen("table args")
        mon.sig(kind, name, show(d)[:50])
        rejects(mon, lambda: getattr(t, name)(**d), "table-{}-{}".format(
            name, "-".join(sorted(d))), lambda: "{}({}) of the table of {}"
            .format(name, show(d), m.tag))
    import matplotlib.pyplot as plt
    plt.close("all")
    zoo.same_state(mon, dict(status=0, splits=[], tables=[
        zoo.quiet(t.build)]), dict(status=0, splits=[], tables=[ref]),
        "kept-table", lambda: "after rejected calls on {}".format(m.tag))


def need_range(t):
    return False


def t_data(rng, mon, m, kind, o, q, ref, out):
    a = m.a
    if sketchy(m):
        return
    args = a["args"]
    bad = []
    if kind in ("scenario",):
        X, Y = args
        bad = [((X, Y[:-1]), "length"), ((X[0], Y), "type"),
               ((X, tuple(Y)), "type"),
               ((X, Y, None, None), None),
               ((X, Y, [1.] * (len(X) + 1)), "weights"),
               (([X[0][:-1]] + X[1:], Y), "length")]
        bad = [b for b in bad if b[1]]
    elif kind == "twod":
        x, y, z = args[:3]
        bad = [((x[:-1], y, z), "length"), ((x, y[:-1], z), "length"),
               ((x, y, z[:-1]), "length"), ((x, y, None), "none")]
    elif kind in ("process", "card"):
        X, y = args
        bad = [((X, y[:-1]), "length"), ((None, y), "type"),
               ((X.values.tolist(), y), "type"), ((X, None), "none")]
        if kind == "process":
            bad.append((((X.assign(zz=1.0)).values, y), "columns"))
    else:
        x, y = args[:2]
        bad = [((x[:-1], y), "length"), ((x, y[:-1]), "length"),
               ((x, None), "none"), ((x[:0], y[:0]), "empty")]
        if kind in ("binary_num", "binary_cat", "cont_num", "cont_cat"):
            bad[-1] = ((x[:0], y[:0], None, True), "empty")
        elif kind == "multi":
            bad[-1] = ((x[:0], y[:0], True), "empty")
        elif kind == "piecewise":
            bad.pop()
        if kind.endswith("num"):
            bad.append(((np.column_stack([x, x]), y), "2d"))
        if kind == "binary_num" or kind == "cont_num":
            z = np.asarray(y, float).copy()
            z[rng.integers(len(z))] = np.nan
            bad.append(((x, z, None, True) if True else 0, "y missing"))
        if kind in ("binary_num", "binary_cat"):
            bad.append(((x, y, np.ones(len(y) - 1)), "weights"))
    for i in rng.permutation(len(bad))[:2]:
        args, why = bad[i]
        mon.seen("data rejected")
        mon.sig(kind, "data", why, i)
        what = "fit of bad data ({}) {} {}".format(why, i, m.tag)
        key = "data-" + why
        errors = REJECT + (AttributeError, IndexError, KeyError) \
            if why in ("type", "none", "columns") else REJECT
        n = m.new()
        if rejects(mon, lambda: n.fit(*args), key, what, errors):
            not_ready(rng, mon, m, kind, n, q, "after " + what, 1)


def lookups(rng, mon, m, kind, o):
    if kind == "process":
        n = o.variable_names[0]
        bad = [lambda: o.get_binned_variable("no such"),
               lambda: o.get_binned_variable(3),
               lambda: o.get_support(indices=True, names=True),
               lambda: o.update_binned_variable(n, None),
               lambda: o.update_binned_variable("no such", OptimalBinning()),
               lambda: o.update_binned_variable(n, OptimalBinning(
                   name="another")),
               lambda: o.information(-1), lambda: o.information("x"),
               lambda: o.save(3)]
    elif kind == "process_sketch":
        bad = [lambda: o.get_binned_variable("no such"),
               lambda: o.get_binned_variable(3),
               lambda: o.get_support(indices=True, names=True),
               lambda: o.information(-1)]
    elif kind == "card":
        bad = [lambda: o.table(style="full"), lambda: o.table(style=None),
               lambda: o.information(-1), lambda: o.information(1.5),
               lambda: o.save(3), lambda: Scorecard.load(3)]
    elif kind != "mdlp":
        bad = [lambda: o.information(-1), lambda: o.information(1.5),
               lambda: o.information("x")]
        if kind == "scenario":
            bad += [lambda: o.binning_table_scenario(len(m.a["args"][0])),
                    lambda: o.binning_table_scenario(1000)]
    else:
        return
    i = int(rng.integers(len(bad)))
    mon.seen("process lookups")
    mon.sig(kind, "lookup", i)
    rejects(mon, bad[i], "lookup", "lookup {} of {}".format(i, m.tag))


def files(rng, mon, m, kind, o):
    """a file that cannot be read leaves the fitted object as it was"""
    with tempfile.TemporaryDirectory(prefix="e01") as folder:
        path = os.path.join(folder, "m.json")
        o.to_json(path)
        with open(path) as f:
            good = json.load(f)
        what = int(rng.integers(6))
        if what == 0:
            path = os.path.join(folder, "absent.json")
        elif what == 1:
            path = None
        elif what == 2:
            with open(path, "w") as f:
                f.write(json.dumps(good)[:-int(rng.integers(1, 30))])
        elif what == 3:
            good.pop(str(rng.choice(sorted(set(good) & {
                "splits", "n_event", "n_records", "sums", "classes"}))))
            good["status"] = "UNKNOWN"
            with open(path, "w") as f:
                json.dump(good, f)
        elif what == 4:
            good["of_another_version"] = 1
            good["status"], good["cat_unknown"] = "UNKNOWN", 3
            with open(path, "w") as f:
                json.dump(good, f)
        else:
            other = dict(binary_num="multi", binary_cat="cont_cat",
                         cont_num="binary_num", cont_cat="multi",
                         multi="cont_num")[kind]
            a = zoo.ALL[other](rng)
            try:
                a.fitted().to_json(path)
            except Exception:
                return
        mon.seen("bad file")
        mon.sig("bad file", kind, what)
        tag = "file {} read into {}".format(what, m.tag)
        if what == 4:
            ref = zoo.state(m, copy.deepcopy(o))
            n = copy.deepcopy(o)
            try:
                n.read_json(path)
            except Exception:
                zoo.same_state(mon, zoo.state(m, n), ref, "kept-read",
                               lambda: "after " + tag)
            return
        rejects(mon, lambda: o.read_json(path), "read", tag, (Exception,))


def run(kind):
    def f(rng, mon):
        m = zoo.ALL[kind](rng)
        try:
            o = m.fitted()
            r = m.fitted()
        except Exception:
            mon.seen("no model")
            return
        mon.sample(m.tag)
        q = m.query(rng, r, 12) if m.has_transform else ()
        if m.has_transform:
            try:
                out = m.transform(r, q, {})
            except Exception:
                out = None
        else:
            out = None
        t_table(rng, mon, m, kind, r)
        ref = zoo.state(m, r)
        not_ready(rng, mon, m, kind, m.new(), q, "before fit")
        if sketchy(m):
            n = m.new()
            rejects(mon, lambda: n.solve(), "no-data", "solve without data "
                    + m.tag, UNFIT if kind == "sketch" else
                    (NotDataAddedError,))
        params(rng, mon, m, kind, q, o, ref, out)
        if rng.random() < .7:
            t_args(rng, mon, m, kind, o, q)
            lookups(rng, mon, m, kind, o)
        if rng.random() < .7:
            t_data(rng, mon, m, kind, o, q, ref, out)
        if kind.split("_")[0] in ("binary", "cont", "multi"):
            files(rng, mon, m, kind, o)
        kept(mon, m, o, q, ref, out, "end", "all rejections of " + m.tag)
        if rng.random() < .5:
            accepts(rng, mon, m, kind)
    return f


def parts(rng, mon):
    """sketches and detectors used on their own"""
    sk = [dict(sketch=v) for v in ("kll", None)] + [
        dict(eps=v) for v in (-.1, 1.5, "x", None)] + [
        dict(K=v) for v in (0, -1, 1.5, "x")] + [
        dict(special_codes=v) for v in (3, "a", (1,), {"a": 1})]
    cat = [dict(cat_cutoff=v) for v in (0, -1, 1.01, "x")] + [
        dict(special_codes=v) for v in (3, "a", (1,), {"a": 1})]
    q = int(rng.integers(5))
    if q == 0:
        for d in sk:
            rejects(mon, lambda: BSketch(**d), "bsketch", "BSketch(%s)"
                    % show(d))
            mon.sig("bsketch", show(d))
        for d in cat:
            rejects(mon, lambda: BCatSketch(**d), "bcatsketch",
                    "BCatSketch(%s)" % show(d))
            mon.sig("bcatsketch", show(d))
    elif q == 1:
        g = GK(float(rng.choice([.01, .1])))
        rejects(mon, lambda: g.quantile(.5), "gk-empty", "quantile of empty")
        v = rng.normal(size=30)
        for u in v:
            g.add(u)
        e = [g.quantile(.2), len(g)]
        for u in (-.1, 1.1, 2):
            rejects(mon, lambda: g.quantile(u), "gk-quantile", str(u))
        h = GK(.05)
        h.add(1.)
        rejects(mon, lambda: g.merge(h), "gk-merge", "other eps",
                (Exception,))
        mon.check([g.quantile(.2), len(g)] == e, "gk-kept", "")
        mon.sig("gk", g.eps)
    elif q == 2:
        x, y = rng.normal(size=60), rng.integers(0, 2, 60)
        det = [(RangeDetector, d) for d in (
            dict(method="IQR"), dict(interval_length=1.1),
            dict(interval_length=-.1), dict(interval_length="x"))] + [
            (ModifiedZScoreDetector, d) for d in (
                dict(threshold=-1), dict(threshold="x"))] + [
            (YQuantileDetector, d) for d in (
                dict(outlier_detector="iqr"), dict(outlier_params=[1]),
                dict(n_bins=0), dict(n_bins=1.5))]
        for cls, d in det:
            o = cls(**d)
            rejects(mon, lambda: o.get_support(), "detector-unfitted",
                    cls.__name__, UNFIT)
            rejects(mon, lambda: o.fit(x, y), "detector", "{}({})".format(
                cls.__name__, show(d)))
            rejects(mon, lambda: o.get_support(), "detector-unfitted",
                    "after rejected fit " + cls.__name__, UNFIT)
            mon.sig("detector", cls.__name__, show(d))
    else:
        # merging sketches of other signature
        base = dict(name="v", eps=.01, max_n_prebins=5)
        other = [dict(eps=.02), dict(max_n_prebins=6), dict(name="w"),
                 dict(special_codes=[-9]), dict(max_n_bins=3),
                 dict(monotonic_trend="ascending"), dict(sketch="t-digest"),
                 dict(min_bin_size=.1), dict(K=30)]
        d = other[rng.integers(len(other))]
        a = OptimalBinningSketch(**base)
        b = OptimalBinningSketch(**dict(base, **d))
        for o in (a, b):
            x = rng.normal(size=80)
            zoo.quiet(o.add, x, (rng.random(80) < 1 / (1 + np.exp(-x)))
                      .astype(int))
        c = copy.deepcopy(a)
        rejects(mon, lambda: a.merge(b), "merge-signature", show(d),
                (Exception,))
        zoo.quiet(a.solve)
        zoo.quiet(c.solve)
        mon.seen("state kept")
        mon.check(list(a.splits) == list(c.splits) and
                  zoo.quiet(a.binning_table.build).equals(
                      zoo.quiet(c.binning_table.build)), "merge-kept",
                  lambda: "{} {} vs {}".format(show(d), a.splits, c.splits))
        mon.sig("merge", show(d))


def small_card(rng):
    for _ in range(5):
        d = score.make(rng, nvar=int(rng.integers(2, 4)), nmax=150)
        try:
            sc = zoo.quiet(score.fit, d, **score.scaling(rng, d["ttype"]))
            if len(sc.binning_process_.get_support(names=True)) >= 2 and \
                    np.isfinite(np.asarray(sc.score(d["df"]), float)).all():
                return d, sc
        except Exception:
            pass
    return None, None


def monitoring(rng, mon):
    d, sc = small_card(rng)
    if sc is None:
        mon.seen("no model")
        return
    mon.seen("monitoring")
    X, y = d["df"], np.asarray(d["y"])
    fit = (X, y, X, y)
    tag = "monitoring of scorecard {} {}".format(d["ttype"], d["kw"])
    mon.sample(tag)
    params = dict(scorecard=[None, Thing(), OptimalBinning()],
                  psi_method=["tree", None, "mdlp"], psi_n_bins=INT_POS,
                  psi_min_bin_size=[0, .51, -1, "x"],
                  show_digits=[-1, 9, 1.5, "2", None], verbose=[1, None, "x"])
    use = [("information", lambda o: o.information()),
           ("psi_table", lambda o: o.psi_table()),
           ("psi_variable_table", lambda o: o.psi_variable_table()),
           ("tests_table", lambda o: o.tests_table()),
           ("system_stability_report", lambda o: o.system_stability_report()),
           ("psi_plot", lambda o: o.psi_plot()),
           ("psi_splits", lambda o: o.psi_splits)]

    def unfit(o, why):
        n, f = use[rng.integers(len(use))]
        mon.seen("before fit")
        mon.sig("monitoring", "unfit", n)
        rejects(mon, lambda: f(o), "unfitted-" + n, "{} {} {}".format(
            n, why, tag), UNFIT)
    unfit(ScorecardMonitoring(sc), "before fit")
    bad = [(k, {k: v}) for k in params for v in params[k]]
    good = ScorecardMonitoring(sc)
    try:
        zoo.quiet(good.fit, *fit)
    except Exception:
        mon.seen("no model")
        return
    ref = (good.psi_table(), good.psi_variable_table(), good.tests_table())

    def same(what):
        mon.seen("state kept")
        new = (good.psi_table(), good.psi_variable_table(),
               good.tests_table())
        mon.check(all(a.equals(b) for a, b in zip(ref, new)),
                  "kept-monitoring", "after " + what)
    for i in rng.permutation(len(bad))[:6]:
        label, u = bad[i]
        what = "{} with {}".format(tag, show(u))
        mon.sig("monitoring", label, show(u)[:40])
        if rng.random() < .5:
            mon.seen("fresh")
            o = ScorecardMonitoring(**dict(dict(scorecard=sc), **u))
            if rejects(mon, lambda: o.fit(*fit), "param-" + label, what):
                unfit(o, "after rejected")
        else:
            mon.seen("fitted")
            old = getattr(good, label)
            setattr(good, label, u[label])
            rejects(mon, lambda: good.fit(*fit), "refit-" + label, what)
            setattr(good, label, old)
            same(what)
    # data
    other = rng.normal(size=len(y)) if d["ttype"] == "binary" else \
        rng.integers(0, 2, len(y))
    three = np.arange(len(y)) % 3
    cols = X.rename(columns={X.columns[0]: "other"})
    data = [((X, y, X, other), "targets"), ((X, other, X, y), "targets"),
            ((X, three, X, y), "three"), ((X, y, X, three), "three"),
            ((cols, y, X, y), "columns"), ((X, y, cols, y), "columns"),
            ((X[X.columns[::-1]], y, X, y), "columns")]
    for i in rng.permutation(len(data))[:3]:
        a, why = data[i]
        mon.seen("data rejected")
        mon.sig("monitoring", "data", i)
        o = ScorecardMonitoring(sc)
        if rejects(mon, lambda: o.fit(*a), "data-" + why, "{} {}".format(
                i, tag)):
            unfit(o, "after rejected data")
    o = ScorecardMonitoring(Scorecard(sc.binning_process, sc.estimator))
    rejects(mon, lambda: o.fit(*fit), "unfitted-scorecard", tag, UNFIT)
    calls = [lambda: good.psi_variable_table(name="no such"),
             lambda: good.psi_variable_table(style="full"),
             lambda: good.psi_variable_table(style=None),
             lambda: good.information(-1), lambda: good.information("x"),
             lambda: good.psi_plot(savefig=3)]
    for i in rng.permutation(len(calls))[:3]:
        mon.seen("table args")
        mon.sig("monitoring", "call", i)
        rejects(mon, calls[i], "monitoring-args", "call {} {}".format(i, tag))
    same("rejected calls " + tag)
    import matplotlib.pyplot as plt
    plt.close("all")


def counterfactual(rng, mon):
    d, sc = small_card(rng)
    if sc is None:
        mon.seen("no model")
        return
    X = d["df"]
    tag = "counterfactual of scorecard {} {}".format(d["ttype"], d["kw"])
    mon.sample(tag)
    for i, u in enumerate([dict(scorecard=None), dict(scorecard=Thing()),
                           dict(special_missing=1), dict(n_jobs=0),
                           dict(n_jobs=1.5), dict(verbose=1),
                           dict(special_missing=None)]):
        if rng.random() < .4:
            mon.sig("cf", "param", i)
            o = Counterfactual(**dict(dict(scorecard=sc), **u))
            if rejects(mon, lambda: o.fit(X), "param-cf", "{} with {}".format(
                    tag, show(u))):
                rejects(mon, lambda: o.generate(X.iloc[[0]], 1, "binary", 1),
                        "unfitted-generate", tag, UNFIT)
    names = list(sc.binning_process_.get_support(names=True))
    o = Counterfactual(Scorecard(sc.binning_process, sc.estimator))
    rejects(mon, lambda: o.fit(X), "unfitted-scorecard", tag, UNFIT)
    o = Counterfactual(sc)
    rejects(mon, lambda: o.fit(X.values), "data-type", tag)
    rejects(mon, lambda: o.fit(X.drop(columns=[names[0]])), "data-columns",
            tag)
    rejects(mon, lambda: o.generate(X.iloc[[0]], 1, "binary", 1),
            "unfitted-generate", tag, UNFIT)
    try:
        zoo.quiet(o.fit, X)
    except Exception:
        mon.seen("no model")
        return
    binary = d["ttype"] == "binary"
    for f in (lambda: o.display(), lambda: o.status, lambda: o.information()):
        mon.seen("before fit")
        rejects(mon, f, "ungenerated", tag, (NotGeneratedError,))
    t = (["binary", "probability"][rng.integers(2)] if binary
         else "continuous")
    good = dict(query=X.iloc[[0]], y={"binary": 1, "probability": .5}.get(
        t, float(np.mean(d["y"]))), outcome_type=t, n_cf=1,
        max_changes=len(names), time_limit=20)
    if t != "binary":
        good["hard_constraints"] = [str(rng.choice(["min_outcome",
                                                    "max_outcome"]))]
    try:
        zoo.quiet(o.generate, **good)
        ref = o.status, (o.display(show_outcome=True)
                         if o.status == "OPTIMAL" else None)
    except Exception:
        mon.seen("no model")
        return
    bad = [dict(query=[1]), dict(query=None), dict(query=X.values),
           dict(y="x"), dict(y=None), dict(outcome_type="odds"),
           dict(outcome_type=None), dict(n_cf=0), dict(n_cf=1.5),
           dict(n_cf="2"), dict(method="lexicographic"), dict(method=None),
           dict(objectives={}), dict(objectives=["proximity"]),
           dict(objectives=dict(sparsity=1)),
           dict(objectives=dict(proximity=0)),
           dict(objectives=dict(proximity=1, closeness=-1)),
           dict(objectives=dict(proximity="1")),
           dict(max_changes=0), dict(max_changes=1.5), dict(max_changes="1"),
           dict(actionable_features="v0"), dict(actionable_features=(
               names[0],)), dict(actionable_features=[names[0], "no such"]),
           dict(hard_constraints="min_outcome"),
           dict(hard_constraints={"min_outcome": 1}),
           dict(hard_constraints=["diff_outcome"]),
           dict(hard_constraints=["diversity_values"] * 2),
           dict(soft_constraints=["diversity_values"]),
           dict(soft_constraints=dict(min_outcome=1)),
           dict(soft_constraints=dict(diversity_values=0)),
           dict(soft_constraints=dict(diversity_values="1")),
           dict(priority_tol=-.1), dict(priority_tol=1.1),
           dict(priority_tol="x"), dict(priority_tol=None),
           dict(time_limit=0), dict(time_limit=-1), dict(time_limit="10")]
    if binary:
        bad += [dict(outcome_type="continuous"),
                dict(outcome_type="binary", y=2, hard_constraints=None),
                dict(outcome_type="binary", y=.5, hard_constraints=None),
                dict(outcome_type="probability", y=1.5,
                     hard_constraints=["min_outcome"]),
                dict(outcome_type="probability", y=-.1,
                     hard_constraints=["min_outcome"]),
                dict(outcome_type="binary", y=1,
                     hard_constraints=["min_outcome"]),
                dict(outcome_type="binary", y=1, hard_constraints=None,
                     soft_constraints=dict(diff_outcome=1)),
                dict(outcome_type="probability", y=.5, hard_constraints=None),
                dict(outcome_type="probability", y=.5,
                     hard_constraints=["diversity_values"]),
                dict(outcome_type="probability", y=.5, hard_constraints=None,
                     soft_constraints=dict(diversity_features=1))]
    else:
        bad += [dict(outcome_type="binary", y=1, hard_constraints=None),
                dict(outcome_type="probability", y=.5),
                dict(hard_constraints=None),
                dict(hard_constraints=["diversity_features"])]
    mon.seen("counterfactual")
    for i in rng.permutation(len(bad))[:14]:
        mon.seen("counterfactual")
        mon.sig("cf", "generate", i, t)
        rejects(mon, lambda: o.generate(**dict(good, **bad[i])),
                "generate-" + "-".join(sorted(bad[i])), "{} with {}".format(
                    tag, show(bad[i])))
        mon.seen("state kept")
        now = o.status, (o.display(show_outcome=True)
                         if o.status == "OPTIMAL" else None)
        mon.check(now[0] == ref[0] and (ref[1] is None
                                        or ref[1].equals(now[1])),
                  "kept-cf", "after " + show(bad[i]))
    if ref[1] is not None:
        for f in (lambda: o.display(show_only_changes=1),
                  lambda: o.display(show_outcome="x")):
            mon.seen("table args")
            rejects(mon, f, "display-args", tag)
    rejects(mon, lambda: o.information(-1), "lookup", tag)
    # valid ends of the domains
    for u in (dict(time_limit=.5), dict(time_limit=2.5), dict(priority_tol=0),
              dict(priority_tol=1), dict(n_cf=np.int64(1)),
              dict(query={k: v for k, v in X.iloc[0].items()}),
              dict(method="hierarchical"),
              dict(actionable_features=np.array(names)),
              dict(objectives=dict(proximity=1e-3))):
        if rng.random() < .3:
            mon.seen("accepted")
            mon.sig("cf", "ok", list(u)[0])
            try:
                zoo.quiet(o.generate, **dict(good, **u))
                s = o.status
                mon.check(isinstance(s, str), "valid-cf-status", show(u))
            except Exception as e:
                # (non-optimal first stage, see X01)
                mon.check("problem in hierarchical model" in str(e),
                          "valid-cf-" + list(u)[0],
                          "generate({}) raised {!r}: {}".format(
                              show(u)[:80], e, tag))


def process_data(rng):
    """three variables (two numeric, one of letters) and a target"""
    n = int(rng.integers(60, 160))
    t = ["binary", "continuous", "multiclass"][rng.integers(3)]
    X = pd.DataFrame(dict(a=rng.normal(size=n), b=rng.integers(0, 9, n) * 1.,
                          c=rng.choice(list("pqrs"), n)))
    z = X["a"] + .4 * X["b"] + X["c"].map(dict(p=0, q=1, r=.5, s=-1)) \
        + rng.normal(size=n)
    z = np.asarray(z)
    y = {"binary": (z > np.median(z)).astype(int), "continuous": z,
         "multiclass": np.digitize(z, np.quantile(z, [.35, .7]))}[t]
    if t == "multiclass":
        X["c"] = rng.normal(size=n) + y
    return X, y, t


CLS = dict(binary=OptimalBinning, continuous=ContinuousOptimalBinning,
           multiclass=MulticlassOptimalBinning)


def pstate(o, X):
    """what a fitted process answers"""
    t = zoo.quiet(o.transform, X)
    s = o.summary()
    return (np.asarray(t), list(t.columns), s.astype(str).values.tolist(),
            list(o.get_support()),
            [list(map(str, o.get_binned_variable(v).splits))
             for v in o.variable_names])


def psame(a, b):
    return np.array_equal(a[0], b[0], equal_nan=True) and a[1:] == b[1:]


def criteria(rng, t):
    """selection criteria outside of what is documented"""
    m = {"binary": ["iv", "gini", "js", "quality_score"],
         "continuous": ["woe", "quality_score"],
         "multiclass": ["js", "quality_score"]}[t]
    g = m[rng.integers(len(m))]
    c = [{"ks": dict(min=.1)}, {"IV": dict(min=.1)}, {g: .1}, {g: [.1]},
         {g: None}, {g: dict(min=-.01)}, {g: dict(min=.1, max=.5, least=1)},
         {"quality_score": dict(max=1.01)}, {"quality_score": dict(min=-1)},
         {g: dict(strategy="best", top=1)},
         {g: dict(strategy=None, top=1)}, {g: dict(strategy="highest",
                                                   top=0)},
         {g: dict(strategy="highest", top=-1)},
         {g: dict(strategy="lowest", top=0.)},
         {g: dict(strategy="lowest", top=1.)},
         {g: dict(strategy="lowest", top=1.5)},
         {g: dict(min=0), "nope": dict(min=0)},
         [g], g, {g: dict(min="x")}, {g: dict(top="x", strategy="lowest")}]
    if t == "binary":
        c += [{"gini": dict(max=1.2)}, {"woe": dict(min=0)}]
    else:
        c += [{"iv": dict(min=0)}, {"gini": dict(min=0)}]
    if t == "multiclass":
        c += [{"woe": dict(min=0)}]
    return c


def process_args(rng, mon):
    """arguments of a binning process beyond its constructor's"""
    X, y, t = process_data(rng)
    names = list(X.columns)
    tag = "process of a {} target".format(t)
    mon.sample(tag)
    o = BinningProcess(names)
    o2 = BinningProcess(names)
    err = REJECT + (KeyError,)
    fits = [lambda p: p.fit(X, y)]
    other = {v: CLS[t](name=v, **({} if t == "multiclass" else
                                  {"dtype": "categorical" if
                                   X[v].dtype == object else "numerical"}))
             for v in names}
    for v in names:
        zoo.quiet(other[v].fit, X[v].values, y)
    fits.append(lambda p: p.fit_from_dict(other))
    zoo.quiet(fits[rng.integers(2)], o)
    ref = pstate(o, X)

    def same(what):
        mon.seen("state kept")
        try:
            now = pstate(o, X)
        except Exception as e:
            mon.check(False, "kept-process", "after {}: {!r} of a {}".format(
                what, e, tag))
            return
        mon.check(psame(now, ref), "kept-process", "after {} of a {}".format(
            what, tag))

    # parameters judged against the data
    todo = [dict(selection_criteria=c) for c in criteria(rng, t)] + [
        dict(fixed_variables=["nope"]), dict(fixed_variables=["a", "nope"])]
    for i in rng.permutation(len(todo))[:9]:
        u = todo[i]
        k = int(rng.integers(2))
        mon.seen("process arguments")
        mon.sig("process", t, show(u), k)
        n = BinningProcess(names, **u)
        if rejects(mon, lambda: fits[k](n), "process-" + list(u)[0],
                   "{} of {}".format(show(u), tag), err):
            rejects(mon, lambda: n.transform(X), "process-unfitted-after",
                    "{} of {}".format(show(u), tag), UNFIT)
        o.set_params(**u)
        rejects(mon, lambda: fits[k](o), "process-refit-" + list(u)[0],
                "{} of {}".format(show(u), tag), err)
        o.set_params(**{list(u)[0]: None})
        same(show(u))

    # objects given to fit_from_dict
    w = CLS[["binary", "continuous", "multiclass"][
        rng.integers(3)]]
    if w is CLS[t]:
        w = (ContinuousOptimalPWBinning if t == "binary"
             else OptimalPWBinning)
    alien = w(name="b")
    y2 = {OptimalBinning: y == y.max(), OptimalPWBinning: y > np.median(y)
          if np.median(y) < y.max() else y == y.max(),
          ContinuousOptimalBinning: y + np.arange(len(y)) * 1e-3,
          ContinuousOptimalPWBinning: y + np.arange(len(y)) * 1e-3,
          MulticlassOptimalBinning: np.arange(len(y)) % 3}[w]
    zoo.quiet(alien.fit, X["b"].values, np.asarray(y2) * 1)
    renamed = CLS[t](name="a")
    zoo.quiet(renamed.fit, X["b"].values, y)
    new = CLS[t](name="b")
    noname = CLS[t]()
    zoo.quiet(noname.fit, X["b"].values, y)
    dicts = [("list", [other[v] for v in names], REJECT),
             ("none", None, REJECT), ("empty", {}, REJECT),
             ("less", {v: other[v] for v in names[1:]}, REJECT),
             ("more", dict(other, d=other["a"]), REJECT),
             ("key", dict({v: other[v] for v in names[1:]}, A=other["a"]),
              REJECT),
             ("class", dict(other, b=Thing()), REJECT),
             ("nothing", dict(other, b=None), REJECT),
             ("mixed", dict(other, b=alien), REJECT),
             ("unfitted", dict(other, b=new), UNFIT),
             ("renamed", dict(other, b=renamed), REJECT)]
    sb = SBOptimalBinning()
    zoo.quiet(sb.fit, [X["b"].values] * 2, [np.asarray(y == y.max()) * 1] * 2)
    two = OptimalBinning2D(name_x="a", name_y="b")
    zoo.quiet(two.fit, X["a"].values, X["b"].values,
              np.asarray(y == y.max()) * 1)
    dicts += [("scenarios", {v: sb for v in names}, REJECT),
              ("2d", {v: two for v in names}, REJECT)]
    for i in rng.permutation(len(dicts))[:6]:
        label, d, e = dicts[i]
        mon.seen("process arguments")
        mon.sig("process", t, "dict", label)
        rejects(mon, lambda: BinningProcess(names).fit_from_dict(d),
                "process-dict-" + label, tag, e)
        rejects(mon, lambda: o.fit_from_dict(d),
                "process-dict-" + label, tag, e)
        same("fit_from_dict " + label)

    # update of a variable
    upd = [("alien", "b", alien, REJECT), ("renamed", "b", renamed, REJECT),
           ("unfitted", "b", new, UNFIT),
           ("unfitted unnamed", "b", CLS[t](), UNFIT),
           ("nope", "B", noname, REJECT), ("nope", None, noname, REJECT),
           ("object", "b", Thing(), REJECT), ("class", "b", CLS[t], REJECT)]
    for i in rng.permutation(len(upd))[:5]:
        label, v, ob, e = upd[i]
        mon.seen("process arguments")
        mon.sig("process", t, "update", label)
        rejects(mon, lambda: o.update_binned_variable(v, ob),
                "process-update-" + label, tag, e)
        same("update_binned_variable " + label)
    rejects(mon, lambda: o2.update_binned_variable("b", noname),
            "process-update-before-fit", tag, UNFIT)

    # fit arguments
    bad = [("list", (X.values.tolist(), y)), ("columns", (
               X[names[1:]].values, y)),
           ("more columns", (np.column_stack([X.values, X["a"]]), y)),
           ("target", (X, np.column_stack([y, y])))]
    for label, a in bad:
        if rng.random() < .5:
            mon.seen("process arguments")
            mon.sig("process", t, "fit", label)
            rejects(mon, lambda: o.fit(*a), "process-fit-" + label, tag)
            same("fit with other " + label)
    if t != "binary":
        rejects(mon, lambda: o.fit(X, y, sample_weight=np.ones(len(y))),
                "process-fit-weight", tag)
        same("fit with weights")

    # metrics which cannot share an array
    def mixed():
        yield "bins", dict(a=dict(metric="indices")), "bins"
        yield "bins2", dict(a=dict(metric="bins")), "indices"
        yield "bins3", dict(a=dict(metric="bins")), None
    numeric = dict(binary="event_rate", continuous="mean",
                   multiclass="weighted_mean_woe")[t]
    for label, p, metric in list(mixed()) + [
            ("bins4", dict(b=dict(metric=numeric)), "bins")]:
        mon.seen("process arguments")
        mon.sig("process", t, "mix", label)
        n = BinningProcess(names, binning_transform_params=p)
        zoo.quiet(fits[rng.integers(2)], n)
        before = np.asarray(zoo.quiet(BinningProcess(names).fit_from_dict(
            {v: n.get_binned_variable(v) for v in names}).transform, X))
        rejects(mon, lambda: n.transform(X, metric=metric)
                if metric else n.transform(X), "process-mixed-" + label, tag)
        n.set_params(binning_transform_params=None)
        mon.check(np.array_equal(before, np.asarray(zoo.quiet(
            n.transform, X))), "process-mixed-kept", tag)
        if t == "binary":
            ps = BinningProcessSketch(names, categorical_variables=["c"],
                                      binning_transform_params=p)
            zoo.quiet(ps.add, X, y)
            zoo.quiet(ps.solve)
            rejects(mon, lambda: ps.transform(X, metric=metric or "woe"),
                    "process-sketch-mixed-" + label, tag)

    # piecewise members have neither bins nor indices
    if t != "multiclass":
        pw = (OptimalPWBinning if t == "binary" else
              ContinuousOptimalPWBinning)(name="b")
        zoo.quiet(pw.fit, X["b"].values, y)
        zoo.quiet(o.update_binned_variable, "b", pw)
        ref = pstate(o, X)
        for metric in ("bins", "indices"):
            mon.seen("process arguments")
            mon.sig("process", t, "piecewise", metric)
            rejects(mon, lambda: o.transform(X, metric=metric),
                    "process-piecewise-" + metric, tag)
            same("metric " + metric)


def disk_args(rng, mon):
    """arguments of the methods reading and writing files"""
    X, y, t = process_data(rng)
    names = list(X.columns)
    tag = "process on disk of a {} target".format(t)
    mon.sample(tag)
    with tempfile.TemporaryDirectory() as tmp:
        src = os.path.join(tmp, "in.csv")
        D = X.assign(y=y)
        D.to_csv(src, index=False)
        o = BinningProcess(names)
        zoo.quiet(o.fit_disk, src, "y")
        ref = pstate(o, X)
        out = os.path.join(tmp, "out.csv")
        zoo.quiet(o.transform_disk, src, out, 50)
        kept0 = open(out).read(), sorted(os.listdir(tmp))
        txt = os.path.join(tmp, "in.txt")
        D.to_csv(txt, index=False)
        kept0 = kept0[0], sorted(os.listdir(tmp))
        one = os.path.join(tmp, "one.csv")
        D.assign(y="").to_csv(one, index=False)
        kept0 = kept0[0], sorted(os.listdir(tmp))
        fresh = BinningProcess(names)
        calls = [("fit-extension", lambda p: p.fit_disk(txt, "y")),
                 ("fit-extension", lambda p: p.fit_disk(src[:-4], "y")),
                 ("fit-target", lambda p: p.fit_disk(src, 3)),
                 ("fit-target", lambda p: p.fit_disk(src, None)),
                 ("fit-target", lambda p: p.fit_disk(src, ["y"])),
                 ("fit-transform-extension",
                  lambda p: p.fit_transform_disk(txt, out, "y", 10)),
                 ("fit-transform-target",
                  lambda p: p.fit_transform_disk(src, out, 7, 10))]
        tr = [("extension", (txt, out, 50)), ("extension", (src, out[:-4],
                                                            50)),
              ("extension", (src, out + ".gz", 50)),
              ("extension", (src, out[:-4] + ".parquet", 50)),
              ("chunksize", (src, out, 0)), ("chunksize", (src, out, -5)),
              ("chunksize", (src, out, 1.5)), ("chunksize", (src, out, "9")),
              ("chunksize", (src, out, None))]
        for label, f in calls:
            mon.seen("disk arguments")
            mon.sig("disk", t, label)
            if rejects(mon, lambda: f(fresh), "disk-" + label, tag):
                rejects(mon, lambda: fresh.transform(X), "disk-unfitted",
                        tag, UNFIT)
            rejects(mon, lambda: f(o), "disk-" + label, tag)
        for label, a in tr:
            mon.seen("disk arguments")
            mon.sig("disk", t, "transform", label)
            rejects(mon, lambda: o.transform_disk(*a), "disk-" + label, tag)
        mon.seen("disk arguments")
        rejects(mon, lambda: o.fit_disk(one, "y"), "disk-target-type", tag,
                REJECT)
        rejects(mon, lambda: fresh.transform_disk(src, out, 10),
                "disk-unfitted", tag, UNFIT)
        u = [dict(selection_criteria={"ks": dict(min=0)}),
             dict(fixed_variables=["nope"]),
             dict(selection_criteria={"quality_score": dict(min=-1)})]
        u = u[rng.integers(len(u))]
        o.set_params(**u)
        rejects(mon, lambda: o.fit_disk(src, "y"), "disk-" + list(u)[0], tag)
        o.set_params(**{list(u)[0]: None})
        n = BinningProcess(names, binning_transform_params=dict(
            a=dict(metric="bins")))
        zoo.quiet(n.fit_disk, src, "y")
        rejects(mon, lambda: n.transform_disk(src, out, 30), "disk-mixed",
                tag)
        rejects(mon, lambda: n.transform_disk(src, out, 30,
                                              metric="indices"),
                "disk-mixed", tag)
        if t != "multiclass":
            pw = (OptimalPWBinning if t == "binary" else
                  ContinuousOptimalPWBinning)(name="b")
            zoo.quiet(pw.fit, X["b"].values, y)
            n = BinningProcess(names)
            zoo.quiet(n.fit_disk, src, "y")
            n.update_binned_variable("b", pw)
            for metric in ("bins", "indices"):
                rejects(mon, lambda: n.transform_disk(src, out, 30,
                                                      metric=metric),
                        "disk-piecewise", tag)
        mon.seen("state kept")
        mon.check(psame(pstate(o, X), ref), "kept-disk", tag)
        now = open(out).read(), sorted(os.listdir(tmp))
        mon.check(now == kept0, "disk-files", lambda: "rejected calls changed "
                  "the output or left files: {}".format(now[1]))


def spoil(rng, v, what):
    """a copy of one column with an infinite or missing value"""
    v = np.array(v, dtype=float, copy=True)
    v[rng.integers(len(v))] = dict(
        inf=np.inf, minf=-np.inf, nan=np.nan)[what]
    return v


def numeric(v):
    return np.asarray(v).dtype.kind in "fiu"


def bad_data(rng, kind, m):
    """(args, why): what fit must reject when asked to check its input"""
    a = m.a["args"]
    inf = str(rng.choice(["inf", "minf"]))
    bad = []
    if kind == "scenario":
        X, Y = list(a[0]), list(a[1])
        j = int(rng.integers(len(X)))
        bad.append((([spoil(rng, x, inf) if i == j else x
                      for i, x in enumerate(X)], Y), "x " + inf))
        for w in (inf, "nan"):
            bad.append(((X, [spoil(rng, y, w) if i == j else y
                             for i, y in enumerate(Y)]), "y " + w))
    elif kind == "twod":
        for j, w in ((0, inf), (1, inf), (2, inf), (2, "nan")):
            if numeric(a[j]):
                b = list(a)
                b[j] = spoil(rng, b[j], w)
                bad.append((tuple(b), "xyz"[j] + " " + w))
    elif kind in ("process", "card", "process_sketch"):
        X, y = a[:2]
        # one array is checked, whose type mixed columns hide
        cols = [c for c in X.columns if numeric(X[c])]
        if kind != "process_sketch" and len(cols) < X.shape[1]:
            cols = []
        for c in cols[-2:]:
            bad.append(((X.assign(**{c: spoil(rng, X[c], inf)}), y),
                        "x " + inf))
        for w in (inf, "nan"):
            bad.append(((X, spoil(rng, y, w)), "y " + w))
        bad.append(((X, np.asarray(y)[:-1]), "length"))
    else:
        x, y = a[:2]
        if numeric(x):
            bad.append(((spoil(rng, x, inf), y), "x " + inf))
        for w in (inf, "nan"):
            bad.append(((x, spoil(rng, y, w)), "y " + w))
        bad.append(((x, np.asarray(y)[:-1]), "length"))
    return bad


def checked(rng, mon):
    """check_input changes no result and rejects invalid data; a rejected
    batch leaves nothing in a sketch"""
    kind = str(rng.choice(list(zoo.ALL)))
    m = zoo.ALL[kind](rng)
    sketch = kind in ("sketch", "process_sketch")
    try:
        o = m.fitted()
        ref = zoo.state(m, o)
    except Exception:
        mon.seen("no model")
        return
    mon.sample("checked " + m.tag)
    mon.sig("checked", kind)
    kw = {} if kind == "mdlp" else dict(check_input=True)

    def load(n, args, kw):
        if sketch:
            zoo.quiet(n.add, *args, **kw)
        else:
            zoo.quiet(n.fit, *args, **dict(m.a["kw"], **kw))

    def fresh():
        random.seed(0)                  # t-digest draws from it
        return m.new()

    def equal(n, key, msg):
        if sketch:
            zoo.quiet(n.solve)
        zoo.same_state(mon, zoo.state(m, n), ref, key,
                       lambda: "{}: {}".format(msg, m.tag))

    # the same results
    n = fresh()
    load(n, m.a["args"], kw)
    mon.seen("checked fit")
    equal(n, "checked-fit", "fit with check_input")
    if m.has_transform and kind != "card":
        q = m.query(rng, o, 20)
        t = m.tkw(rng)
        try:
            out = m.transform(o, q, t)
        except Exception:
            out = None                  # the arguments of the transform
        if out is not None:
            mon.seen("checked transform")
            got = m.transform(n, q, dict(t, check_input=True))
            mon.check(zoo.same_out(out, got, m.tol), "checked-transform",
                      lambda: "{} {}".format(m.tag, t))
        cols = list(q[0].columns) if isinstance(q[0], pd.DataFrame) else \
            range(len(q))
        cols = [c for c in cols if numeric(
            q[0][c] if isinstance(q[0], pd.DataFrame) else q[c])]
        if kind in ("process", "process_sketch") and cols:
            chosen = set(zoo.quiet(o.get_support, names=True))
            cols = [c for c in cols if c in chosen]
        if cols and out is not None:
            c = cols[rng.integers(len(cols))]
            w = str(rng.choice(["inf", "minf"]))
            if isinstance(q[0], pd.DataFrame):
                u = (q[0].assign(**{c: spoil(rng, q[0][c], w)}),)
            else:
                u = tuple(spoil(rng, v, w) if i == c else v
                          for i, v in enumerate(q))
            mon.seen("checked transform data")
            rejects(mon, lambda: m.transform(n, u, dict(t, check_input=True)),
                    "checked-transform-" + w,
                    "transform of {} in {} {}".format(w, c, m.tag))
            zoo.same_state(mon, zoo.state(m, n), ref, "checked-kept",
                           lambda: "after rejected transform " + m.tag)
    # invalid data
    bad = bad_data(rng, kind, m)
    for i in rng.permutation(len(bad))[:4]:
        args, why = bad[i]
        mon.seen("checked data")
        mon.sig("checked", kind, why)
        n = fresh()
        before = sketch and rng.random() < .5
        if before:
            load(n, m.a["args"], {})
        if not rejects(mon, lambda: load(n, args, kw), "checked-" + why,
                       "data ({}) {}".format(why, m.tag)):
            continue
        if sketch:
            mon.seen("rejected batch")
            if not before:
                load(n, m.a["args"], {})
            equal(n, "rejected-batch", "after rejected batch ({})".format(why))


FAMILIES = {k: (run(k), n, 15 * n) for k, n in dict(
    binary_num=80, binary_cat=60, cont_num=60, cont_cat=50, multi=50,
    scenario=30, piecewise=40, twod=50, mdlp=20, process=40, card=40,
    sketch=40, process_sketch=25).items()}
FAMILIES["process_args"] = (process_args, 40, 600)
FAMILIES["disk_args"] = (disk_args, 20, 300)
FAMILIES["checked"] = (checked, 120, 1500)
FAMILIES["parts"] = (parts, 40, 400)
FAMILIES["monitoring"] = (monitoring, 40, 600)
FAMILIES["counterfactual"] = (counterfactual, 40, 600)
