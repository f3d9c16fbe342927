"""R01: pre-binning limits, user splits, fixed splits, rounding."""
import re

import numpy as np
import pandas as pd
from optbinning import (ContinuousOptimalBinning, MDLP,
                        MulticlassOptimalBinning, OptimalBinning)
from optbinning.binning.prebinning import PreBinning

from vlib import anyfit as A
from vlib import binary as B
from vlib import seg

PROP = "R01"
RULE = ("distinct = (method or class, x style, #splits, limits); non-trivial "
        "when at least one split is returned")
ASSUMPTIONS = [
    "cart counts are checked on data exactly representable in single "
    "precision (the tree converts its input to float32)",
    "for categorical user splits the order is immaterial only if the groups' "
    "event rates differ"]


def basic(mon, s, x, n_bins, key, tag):
    s = np.asarray(s, float)
    mon.check(np.isfinite(s).all(), key + ":finite", tag)
    mon.check((np.diff(s) > 0).all(), key + ":not_increasing",
              "{} {}".format(tag, s))
    if len(s):
        mon.check(s[0] >= x.min() and s[-1] <= x.max(), key + ":range",
                  "{} {}".format(tag, s))
    if n_bins is not None:
        mon.check(len(s) <= n_bins - 1, key + ":too_many",
                  "{} {}".format(tag, s))
    return s


def target(rng, x, problem):
    z = (x - np.median(x)) / (np.std(x) + 1e-12)
    f = A.link(rng, np.clip(z, -5, 5))
    if problem == "regression":
        return f + rng.normal(0, rng.choice([.1, 1]), len(x))
    y = (rng.random(len(x)) < 1 / (1 + np.exp(-f))).astype(int)
    if len(x) > 1:
        y[rng.permutation(len(x))[:2]] = [0, 1]
    return y


def direct(rng, mon):
    m = int(rng.choice([2, 3, 5, 20, 100, 400]))
    x, style = A.numeric_x(rng, m)
    x = x.astype(np.float32).astype(float)
    problem = str(rng.choice(["classification", "regression"]))
    y = target(rng, x, problem)
    method = str(rng.choice(["cart", "quantile", "uniform"] +
                            ["mdlp"] * (problem == "classification")))
    n_bins = int(rng.integers(2, 20))
    leaf = int(rng.integers(1, max(2, m // 2)))
    tag = "{} {} {} m={} n_bins={} leaf={}".format(method, problem, style, m,
                                                   n_bins, leaf)
    sw = rng.integers(1, 4, m).astype(float) if rng.random() < .3 else None
    x0, y0 = x.copy(), y.copy()
    s = PreBinning(problem, method, n_bins, leaf).fit(x, y, sw).splits
    mon.check(np.array_equal(x, x0) and np.array_equal(y, y0),
              "input_changed:" + method, tag)
    s = basic(mon, s, x, n_bins if method != "mdlp" else None, method, tag)
    cnt = np.bincount(np.digitize(x, s), minlength=len(s) + 1)
    if method == "cart":
        if len(s):
            mon.check(cnt.min() >= leaf, "cart:leaf_size",
                      "{} {}".format(tag, cnt))
    elif method == "mdlp":
        inner = np.isin(s, x).any()
        if len(s) and not inner:
            mon.check(cnt.min() >= leaf, "mdlp:leaf_size",
                      "{} {}".format(tag, cnt))
        # a split separates different targets
        for v in s:
            mon.check(len(np.unique(y)) == 2, "mdlp:pure_split", tag)
    elif method == "uniform":
        if x.max() > x.min():
            mon.close(s, np.linspace(x.min(), x.max(), n_bins + 1)[1:-1],
                      "uniform:edges", tag, rtol=1e-9,
                      atol=1e-9 * np.abs(x).max())
        else:
            mon.check(len(s) == 0, "uniform:constant", tag)
    else:
        ref = np.percentile(x, np.linspace(0, 100, n_bins + 1))
        for v in s:
            mon.check(np.min(np.abs(ref - v)) <=
                      1e-9 * max(1e-300, np.abs(ref).max()),
                      "quantile:value", "{} {} {}".format(tag, v, ref))
        lost = [r for r in np.unique(ref)[1:-1] if len(s) == 0 or
                np.min(np.abs(s - r)) > 1e-9 * np.abs(ref).max()]
        # scikit-learn drops bins narrower than 1e-8
        lost = [] if np.diff(np.unique(ref)).min(initial=1) < 2e-8 else lost
        mon.check(not lost, "quantile:lost",
                  "{} {} {}".format(tag, lost, s))
    if len(s):
        mon.seen("direct_" + method)
        mon.sig(method, problem, style, len(s), m, leaf)
    mon.sample(tag)


def mdlp(rng, mon):
    """MDLP object: limits and refit."""
    m = int(rng.choice([5, 20, 100, 400]))
    x, style = A.numeric_x(rng, m)
    y = target(rng, x, "classification")
    kw = dict(min_samples_split=int(rng.integers(2, 30)),
              min_samples_leaf=int(rng.integers(1, 20)),
              max_candidates=int(rng.choice([1, 4, 32])))
    o = MDLP(**kw)
    tag = "mdlp {} {} m={}".format(kw, style, m)
    s = basic(mon, o.fit(x, y).splits, x, None, "mdlp", tag)
    mon.check(np.array_equal(o.fit(x, y).splits, s), "mdlp:refit", tag)
    p = rng.permutation(m)
    if len(np.unique(x)) == m:
        mon.check(np.array_equal(MDLP(**kw).fit(x[p], y[p]).splits, s),
                  "mdlp:order", tag)
    cnt = np.bincount(np.digitize(x, s), minlength=len(s) + 1)
    if len(s) and not np.isin(s, x).any():
        mon.check(cnt.min() >= kw["min_samples_leaf"], "mdlp:leaf_size",
                  "{} {}".format(tag, cnt))
        mon.seen("mdlp_splits")
        mon.sig("mdlp", style, len(s), *kw.values())


CLS = [OptimalBinning, ContinuousOptimalBinning, MulticlassOptimalBinning]


def make(rng, k, m):
    x, style = A.numeric_x(rng, m)
    x = x.astype(np.float32).astype(float)
    if k == 0:
        y = target(rng, x, "classification")
    elif k == 1:
        y = target(rng, x, "regression")
    else:
        q = target(rng, x, "regression")
        y = np.searchsorted(np.quantile(q, [.3, .7]), q)
        y[:3] = [0, 1, 2]
    return x, y, style


def prebins(rng, mon):
    """Final splits are a subset of the pre-bin splits."""
    k = int(rng.integers(3))
    m = int(rng.integers(20, 400))
    x, y, style = make(rng, k, m)
    method = str(rng.choice(["cart", "quantile", "uniform"]))
    n_pre = int(rng.integers(2, 15))
    frac = float(rng.choice([.01, .05, .1, .3, .5]))
    kw = dict(prebinning_method=method, max_n_prebins=n_pre,
              min_prebin_size=frac)
    digits = int(rng.integers(0, 5)) if rng.random() < .4 else None
    if digits is not None:
        kw["split_digits"] = digits
    if k == 0:
        kw["monotonic_trend"] = [None, "auto", "peak"][rng.integers(3)]
    xm = x.copy()
    miss = rng.random(m) < .1 if rng.random() < .3 else np.zeros(m, bool)
    miss[:5] = False
    xm[miss] = np.nan
    xc, yc = x[~miss], y[~miss]
    if k != 1 and len(np.unique(yc)) < len(np.unique(y)):
        return
    tag = "{} {} m={} {}".format(CLS[k].__name__, style, m, kw)
    o = CLS[k](**kw).fit(xm, y)
    s = basic(mon, o.splits, xc, n_pre, "fit", tag)  if digits is None else \
        np.asarray(o.splits, float)
    ref = PreBinning("regression" if k == 1 else "classification", method,
                     n_pre, int(np.ceil(frac * m))).fit(xc, yc).splits
    if digits is not None:
        mon.check((np.diff(s) > 0).all(), "digits:not_increasing",
                  "{} {}".format(tag, s))
        mon.check(len(s) <= n_pre - 1, "digits:too_many", tag)
        mon.close(s, np.round(s, digits), "digits:not_rounded", tag, rtol=0,
                  atol=0)
        ref = np.round(ref, digits)
        mon.seen("rounded")
    mon.check(np.isin(s, ref).all(), "not_subset:" + method,
              "{} {} {}".format(tag, s, ref))
    cnt = np.bincount(np.digitize(xc, s), minlength=len(s) + 1)
    mon.check(cnt.min() > 0, "empty_bin", "{} {}".format(tag, cnt))
    if method == "cart" and digits is None and len(s):
        mon.check(cnt.min() >= int(np.ceil(frac * m)), "fit:leaf_size",
                  "{} {}".format(tag, cnt))
    if len(s):
        mon.seen("fit_" + CLS[k].__name__)
        mon.sig(k, method, style, len(s), n_pre, digits)


def table(o):
    t = o.binning_table.build(show_digits=6)
    return [str(b) for b in t["Bin"]], t["Count"].tolist()


def user(rng, mon):
    """Order of user splits is immaterial, fixed splits are kept."""
    k = int(rng.integers(3))
    m = int(rng.integers(60, 400))
    x, y, style = make(rng, k, m)
    if style in ("big", "tiny", "const"):
        return
    ns = int(rng.integers(1, 9))
    q = np.unique(np.round(rng.choice(x, ns), 3))
    p = rng.permutation(len(q))
    fx = rng.random(len(q)) < .3
    kw = {}
    if rng.random() < .5:
        kw["monotonic_trend"] = ["auto", "auto_asc_desc", None][
            rng.integers(3)]
    if rng.random() < .3:
        kw["max_n_bins"] = int(rng.integers(2, 6))
    fixed = fx.any() and rng.random() < .6
    res = []
    for order in (np.arange(len(q)), p):
        a = dict(kw, user_splits=q[order] if rng.random() < .5 else
                 q[order].tolist())
        if fixed:
            a["user_splits_fixed"] = [bool(v) for v in fx[order]]
        o = CLS[k](**a)
        try:
            o.fit(x, y)
            res.append((o.status, list(o.splits), table(o)))
        except ValueError as e:
            if "are removed because produce pure prebins" not in \
                    " ".join(str(e).split()):
                raise
            # the message names fixed splits that the data cannot support
            text = re.sub(r"np\.\w+\(([^)]*)\)", r"\1", str(e))
            res.append(("removed", sorted(float(v) for v in re.findall(
                r"-?\d+\.?\d*(?:e[-+]?\d+)?", text))))
            mon.seen("fixed_removed")
    tag = "user {} {} q={} p={} fixed={} {}".format(
        CLS[k].__name__, style, q.tolist(), p.tolist(),
        fx.tolist() if fixed else None, kw)
    mon.check(res[0] == res[1], "order:" + CLS[k].__name__,
              lambda: "{} {}".format(tag, res))
    if res[0][0] == "removed":
        return
    st, s, _ = res[0]
    mon.check(np.isin(s, q).all() and (np.diff(s) > 0).all(),
              "user:not_subset", lambda: "{} {}".format(tag, s))
    if fixed and st != "INFEASIBLE":
        inside = q[fx]
        mon.check(np.isin(inside, s).all(), "user:fixed_dropped",
                  lambda: "{} {} {}".format(tag, st, s))
        mon.seen("fixed_kept")
    if len(s):
        mon.seen("user_splits")
        mon.sig("user", k, style, len(q), len(s), fixed, sorted(kw))


def user_cat(rng, mon):
    k = int(rng.integers(2))
    d = A.binary_categorical(rng, 300)
    if d is None or d["groups"] is None:
        return
    if k == 1:
        A.to_continuous(rng, d)
    kw = d["kw"]
    us = kw.pop("user_splits")
    miss, spec, clean = A.masks(d)
    xs = pd.Series(d["x"])
    rate = []
    for g in us:
        msk = xs.isin(list(g)).values & clean
        if not msk.any():
            return
        rate.append(d["y"][msk].mean())
    if len(us) < 2 or np.diff(np.sort(rate)).min() < 1e-9:
        return
    p = rng.permutation(len(us))
    fx = rng.random(len(us)) < .3
    fixed = rng.random() < .3
    res = []
    for order in (np.arange(len(us)), p):
        u = np.empty(len(us), dtype=object)
        for i, j in enumerate(order):
            u[i] = us[j]
        a = dict(kw, user_splits=u)
        if fixed:
            a["user_splits_fixed"] = [bool(v) for v in fx[order]]
        o = CLS[k](**a)
        try:
            o.fit(d["x"], d["y"])
            t = o.binning_table.build()
            res.append((o.status, [frozenset(map(str, b))
                                   for b in o.splits], t["Count"].tolist()))
        except ValueError as e:
            if "are removed because produce pure prebins" not in \
                    " ".join(str(e).split()):
                raise
            res.append(("removed", ))
    tag = "user_cat {} {} {} {} {}".format(CLS[k].__name__, us, p, fx, kw)
    mon.check(res[0] == res[1], "order_cat:" + CLS[k].__name__,
              lambda: "{} {}".format(tag, res))
    if res[0][0] == "removed":
        return
    mon.seen("user_cat")
    # every final bin is a union of user groups (others aside)
    for b in res[0][1]:
        for g in us:
            gg = set(map(str, g))
            mon.check(gg <= b or not (gg & b), "cat_group_divided",
                      lambda: "{} {}".format(tag, res[0]))
    if len(us) > 2:
        mon.sig("cat", k, len(us), len(res[0][1]), fixed)


FAMILIES = {"direct": (direct, 5400, 30000), "mdlp": (mdlp, 1500, 8000),
            "prebins": (prebins, 4200, 25000), "user": (user, 4200, 25000),
            "user_cat": (user_cat, 3000, 15000)}
REQUIRED = {"direct_cart": 80, "direct_mdlp": 20, "direct_quantile": 60,
            "direct_uniform": 60, "rounded": 100, "fixed_kept": 60,
            "user_splits": 200, "user_cat": 40, "mdlp_splits": 40}
