"""P02: variable selection of a binning process (and of its sketch version):
reference selection computed from the statistics of the individual binnings."""
import copy
import itertools
import math
import numbers
import warnings

import numpy as np
import pandas as pd

from optbinning import BinningProcess, BinningProcessSketch
from vlib import table

PROP = "P02"
RULE = ("a selection counts when some variables pass and some do not, or when "
        "criteria of at least two metrics interact")
ASSUMPTIONS = [
    "criteria of several metrics apply one after the other in the documented "
    "metric order (iv, js, gini, quality_score / js, quality_score / woe, "
    "quality_score); variables with exactly equal statistics may be ranked in "
    "any order",
    "the individual classes' statistics are the reference for the summary"]
REQUIRED = {"proper selection": 250, "empty": 20, "strategy": 250,
            "fraction": 100, "exact bound": 150, "fixed": 150, "ties": 40,
            "update": 60, "sketch": 30, "array": 8, "two metrics": 150}

ORDER = {"binary": ["iv", "js", "gini", "quality_score"],
         "multiclass": ["js", "quality_score"],
         "continuous": ["woe", "quality_score"]}
CAP = {"iv": np.inf, "js": np.inf, "gini": 1, "quality_score": 1,
       "woe": np.inf}


def _quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def criteria(rng, ttype, stats, mon):
    ms = ORDER[ttype]
    k = 1 if rng.random() < .55 else int(rng.integers(2, len(ms) + 1))
    out = {}
    for m in rng.permutation(ms)[:k]:
        m = str(m)
        vals = np.array([s[m] for s in stats.values()], float)
        info = {}

        def bound():
            r = rng.random()
            v = float(rng.choice(vals))
            if r < .5:
                mon.seen("exact bound")
                return v                     # exactly a reported statistic
            if r < .8:
                return float(np.mean(rng.choice(vals, 2)))
            return v * float(rng.choice([.9, 1.1]))
        if rng.random() < .55:
            info["min"] = max(0., bound())
        if rng.random() < .35:
            info["max"] = min(CAP[m], max(0., bound()))
        if rng.random() < .65 or not info:
            info["strategy"] = str(rng.choice(["highest", "lowest"]))
            info["top"] = int(rng.integers(1, len(vals) + 2)) \
                if rng.random() < .55 else float(rng.choice(
                    [.1, .25, .34, .5, .67, .9, 1 / 3, .2, .75]))
            mon.seen("strategy")
            mon.seen("fraction", isinstance(info["top"], float))
        elif rng.random() < .15:            # half a ranking: ignored
            info["strategy"] = "highest"
        items = list(info.items())
        out[m] = dict(items[i] for i in rng.permutation(len(items)))
    return out


def reference(ttype, names, stats, crit):
    """All selections allowed (ties may be broken in any way)."""
    states = [frozenset(names)]
    for m in ORDER[ttype]:
        if m not in (crit or {}):
            continue
        c, nxt = crit[m], set()
        for s in states:
            s = [n for n in names if n in s
                 and not ("min" in c and not stats[n][m] >= c["min"])
                 and not ("max" in c and not stats[n][m] <= c["max"])]
            if "strategy" in c and "top" in c:
                top = c["top"]
                if not isinstance(top, numbers.Integral):
                    top = math.ceil(len(s) * top)
                top = min(top, len(s))
                sign = -1 if c["strategy"] == "highest" else 1
                srt = sorted(s, key=lambda n: sign * stats[n][m])
                if top < len(s) and top > 0:
                    cut = stats[srt[top - 1]][m]
                    inside = [n for n in s if sign * stats[n][m] < sign * cut]
                    tied = [n for n in s if stats[n][m] == cut]
                    for t in itertools.combinations(tied, top - len(inside)):
                        nxt.add(frozenset(inside) | frozenset(t))
                    continue
                s = srt[:top]
            nxt.add(frozenset(s))
        states = list(nxt)
    return states


def stats_of(o, ttype):
    t = o.binning_table
    t.build()
    t.analysis(print_output=False)
    return {m: float(getattr(t, m)) for m in ORDER[ttype]}


def check_selection(mon, bp, d, stats, crit, fixed, tag=""):
    names = d["names"]
    sup = np.asarray(bp.get_support())
    got = frozenset(n for n, s in zip(names, sup) if s)
    allowed = {s | frozenset(fixed or []) for s in
               reference(d["ttype"], names, stats, crit)}
    mon.check(got in allowed, "selection" + tag,
              lambda: "selected {} allowed {} criteria {} fixed {} "
              "statistics {}".format(sorted(got), [sorted(a) for a in allowed],
                                     crit, fixed, stats))
    mon.check(sup.dtype == bool and len(sup) == len(names), "mask" + tag,
              lambda: sup)
    mon.check(list(bp.get_support(indices=True)) == list(np.flatnonzero(sup)),
              "indices" + tag, "")
    sel = [n for n in names if n in got]
    mon.check(list(bp.get_support(names=True)) == sel, "names" + tag, lambda:
              (list(bp.get_support(names=True)), sel))
    mon.seen("proper selection", 0 < len(got) < len(names))
    mon.seen("empty", len(got) == 0)
    mon.seen("ties", len(allowed) > 1)
    mon.seen("two metrics", bool(crit) and len(crit) > 1)
    mon.sig(tag, d["ttype"], len(names), len(got), sorted(crit or {}),
            [tuple(sorted(v)) for v in (crit or {}).values()],
            len(fixed or []), len(allowed) > 1)
    return sel


def check_summary(mon, bp, d, ref, stats, tag=""):
    s = bp.summary()
    if not mon.check(list(s["name"]) == d["names"], "summary-names" + tag,
                     lambda: list(s["name"])):
        return
    mon.check(list(s["selected"].astype(bool)) ==
              list(bp.get_support().astype(bool)), "summary-selected" + tag,
              lambda: (list(s["selected"]), list(bp.get_support())))
    for i, n in enumerate(d["names"]):
        o, r = ref[n], s.iloc[i]
        numeric = getattr(o, "dtype", "numerical") == "numerical"
        nb = len(o.splits) + (1 if numeric else 0)
        mon.check(int(r["n_bins"]) == nb, "summary-n_bins" + tag,
                  lambda: (n, r["n_bins"], nb))
        mon.check(r["status"] == o.status, "summary-status" + tag, lambda:
                  (n, r["status"], o.status))
        mon.check(r["dtype"] == ("numerical" if numeric else "categorical"),
                  "summary-dtype" + tag, lambda: (n, r["dtype"]))
        for m in ORDER[d["ttype"]]:
            mon.close(r[m], stats[n][m], "summary-{}{}".format(m, tag), n)


def build(rng, mon, ttype=None):
    d = table.make(rng, ttype=ttype, nmax=140, nvar=int(rng.integers(1, 8)))
    d["kw"].pop("min_n_bins", None)
    if rng.random() < .35 and len(d["names"]) > 1:     # identical variables
        a, b = rng.choice(len(d["names"]), 2, replace=False)
        na, nb = d["names"][a], d["names"][b]
        d["df"][nb] = d["df"][na]
        d["kinds"][b] = d["kinds"][a]
        fp = d["kw"].get("binning_fit_params", {})
        fp.pop(nb, None)
        if na in fp:
            fp[nb] = fp[na]
        cv = [n for n, k in zip(d["names"], d["kinds"]) if k != "num"]
        d["kw"].pop("categorical_variables", None)
        if cv:
            d["kw"]["categorical_variables"] = cv
    ref = {}
    for n in d["names"]:
        ref[n] = _quiet(table.single(d, n).fit, d["df"][n], d["y"])
    stats = {n: stats_of(ref[n], d["ttype"]) for n in d["names"]}
    if any(not np.isfinite(v) for s in stats.values() for v in s.values()):
        return None
    return d, ref, stats


def fixed_vars(rng, mon, d):
    if rng.random() < .4:
        k = int(rng.integers(1, len(d["names"]) + 1))
        f = [str(v) for v in rng.permutation(d["names"])[:k]]
        mon.seen("fixed")
        return f
    return None


def base(rng, mon):
    b = build(rng, mon)
    if b is None:
        return
    d, ref, stats = b
    bp = None
    how = str(rng.choice(["fit", "dict", "array", "disk"], p=[.5, .2, .2, .1]))
    if how == "array" and not all(k == "num" for k in d["kinds"]):
        how = "fit"
    for rep in range(6):
        crit = criteria(rng, d["ttype"], stats, mon) \
            if rng.random() < .95 else None
        fixed = fixed_vars(rng, mon, d)
        kw = dict(d["kw"], selection_criteria=copy.deepcopy(crit),
                  fixed_variables=fixed if fixed is None or rng.random() < .7
                  else np.array(fixed))
        if bp is None or rng.random() < .5:
            bp = BinningProcess(**kw)
        else:
            bp.set_params(**kw)
        if rep == 0 and how != "dict":
            X = d["df"].values if how == "array" else d["df"]
            mon.seen("array", how == "array")
            _quiet(bp.fit, X, d["y"])
        else:
            _quiet(bp.fit_from_dict, ref)
        sel = check_selection(mon, bp, d, stats, crit, fixed)
        mon.check(bp.selection_criteria == crit, "criteria-modified", "")
        check_summary(mon, bp, d, ref, stats)
        if rep in (0, 5):
            check_columns(mon, bp, d, ref, sel, how == "array" and rep == 0)
    mon.sample("{} variables, {} target, criteria {} -> {}".format(
        len(d["names"]), d["ttype"], crit, sel))
    # replacing one variable changes its statistics and so the selection
    n = d["names"][rng.integers(len(d["names"]))]
    o = table.single(d, n)
    o.set_params(max_n_bins=int(rng.integers(1, 3)))
    _quiet(o.fit, d["df"][n], d["y"])
    stats2, ref2 = dict(stats), dict(ref)
    stats2[n], ref2[n] = stats_of(o, d["ttype"]), o
    if any(not np.isfinite(v) for v in stats2[n].values()):
        return
    bp.update_binned_variable(n, o)
    mon.seen("update")
    first = str(rng.choice(["support", "summary", "transform"]))
    if first == "summary":
        bp.summary()
    elif first == "transform":
        _quiet(bp.transform, d["df"])
    sel = check_selection(mon, bp, d, stats2, crit, fixed, ":updated")
    check_summary(mon, bp, d, ref2, stats2, ":updated")
    check_columns(mon, bp, d, ref2, sel, False, ":updated")


def check_columns(mon, bp, d, ref, sel, arr, tag=""):
    X = d["df"]
    out = _quiet(bp.transform, X.values if arr else X)
    mon.check(out.shape == (len(X), len(sel)), "transform-shape" + tag,
              lambda: (out.shape, sel))
    if not sel or out.shape[1] != len(sel):
        return
    if not arr:
        mon.check(list(out.columns) == sel, "transform-columns" + tag,
                  lambda: (list(out.columns), sel))
    v = np.asarray(out)
    for i, n in enumerate(sel):
        mon.check(table.same_array(v[:, i], ref[n].transform(
            X[n], metric_special=0, metric_missing=0)), "transform" + tag, n)
    # only the selected columns are needed
    if not arr:
        out2 = _quiet(bp.transform, X[sel[::-1]])
        mon.check(table.same_array(v, out2.values), "needs-other-columns" +
                  tag, "")


def sketch(rng, mon):
    d = table.make(rng, ttype="binary", nmax=200, nvar=int(rng.integers(2, 6)),
                   overrides=False)
    keep = [n for n, k in zip(d["names"], d["kinds"]) if k != "catint"]
    if not keep:
        return
    cv = [n for n, k in zip(d["names"], d["kinds"])
          if k in ("cat", "catnum")]
    kw = {k: v for k, v in d["kw"].items() if k in (
        "max_n_prebins", "max_n_bins", "max_pvalue", "max_pvalue_policy")}
    kw["variable_names"] = keep
    if cv:
        kw["categorical_variables"] = cv
    if isinstance(d["kw"].get("special_codes"), list):
        kw["special_codes"] = d["kw"]["special_codes"]
    elif d["special"]:
        return
    d["kinds"] = [k for n, k in zip(d["names"], d["kinds"]) if n in keep]
    d["names"] = keep
    try:
        b0 = BinningProcessSketch(**kw)
        b0.add(d["df"], d["y"])
        _quiet(b0.solve)
    except Exception:
        mon.seen("skipped sketch")
        return
    ref = {n: b0.get_binned_variable(n) for n in keep}
    stats = {n: stats_of(ref[n], "binary") for n in keep}
    if any(not np.isfinite(v) for s in stats.values() for v in s.values()):
        return
    crit = criteria(rng, "binary", stats, mon)
    b = BinningProcessSketch(selection_criteria=crit, **kw)
    b.add(d["df"], d["y"])
    _quiet(b.solve)
    mon.seen("sketch")
    sel = check_selection(mon, b, d, stats, crit, None, ":sketch")
    check_summary(mon, b, d, ref, stats, ":sketch")
    out = _quiet(b.transform, d["df"])
    mon.check(out.shape == (len(d["df"]), len(sel)), "transform-shape:sketch",
              lambda: (out.shape, sel))
    if sel and out.shape[1] == len(sel):
        mon.check(list(out.columns) == sel, "transform-columns:sketch", "")
        for n in sel:
            mon.check(table.same_array(out[n].values, ref[n].transform(
                d["df"][n], metric="woe", metric_special=0,
                metric_missing=0)), "transform:sketch", n)


FAMILIES = {"base": (base, 400, 5000), "sketch": (sketch, 120, 1500)}
