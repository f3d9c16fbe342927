"""Continuous-target workload and reference (pinned pre-bins)."""
import itertools

import numpy as np
from optbinning import ContinuousOptimalBinning
from scipy import stats

from . import gen, seg

TRENDS = [None, None, "ascending", "descending", "peak", "valley", "concave",
          "convex", "peak_heuristic", "valley_heuristic", "auto",
          "auto_asc_desc", "auto_heuristic"]


def pinned(rng, n, lo=2, hi=30):
    mode = rng.choice(["uniform", "skew", "equal"])
    size = {"uniform": lambda: rng.integers(lo, hi, n),
            "skew": lambda: np.maximum(lo, (hi * n * rng.dirichlet(
                np.full(n, .6))).astype(int)),
            "equal": lambda: np.full(n, rng.integers(lo, hi))}[mode]()
    r, kind = gen.rate_pattern(rng, n)
    scale = float(rng.choice([0.1, 1., 10., 1000.]))
    shift = float(rng.choice([0., -.5, -1., 1.]))
    mu = (r + shift) * scale
    sd = float(rng.choice([0.01, .1, .5])) * scale
    style = str(rng.choice(["real", "int"]))
    x, splits = gen.values_in_bins(rng, n, size, style)
    ystyle = str(rng.choice(["real", "real", "grid"]))
    y = np.concatenate([rng.normal(m, sd, s) for m, s in zip(mu, size)])
    if ystyle == "grid":
        y = np.round(y / (scale / 4)) * (scale / 4)
    codes = None
    if rng.random() < .4:
        m = rng.integers(1, 10)
        x = np.r_[x, np.full(m, np.nan)]
        y = np.r_[y, rng.normal(0, scale, m)]
    if rng.random() < .3:
        codes = [-99999.0]
        m = rng.integers(1, 10)
        x = np.r_[x, np.full(m, codes[0])]
        y = np.r_[y, rng.normal(0, scale, m)]
    p = rng.permutation(len(x))
    return dict(x=x[p], y=y[p], splits=splits, codes=codes, n=n, kind=kind,
                scale=scale, ystyle=ystyle)


def clean(d):
    m = ~np.isnan(d["x"])
    if d["codes"] is not None:
        m &= ~np.isin(d["x"], d["codes"])
    return d["x"][m], d["y"][m]


def stats_of(x, y, splits):
    """Per-bin record count, sum, and list of raw targets."""
    idx = np.searchsorted(splits, x, side="right")
    groups = [y[idx == i] for i in range(len(splits) + 1)]
    return groups


def constraints(rng, groups, n_samples, level=None):
    n = len(groups)
    size = np.array([len(g) for g in groups])
    mean = np.array([g.mean() if len(g) else 0. for g in groups])
    p = level if level is not None else rng.choice([.08, .2, .35])
    c = {}
    if rng.random() < p:
        c["min_n_bins"] = int(rng.integers(1, n + 1))
    if rng.random() < p + .1:
        c["max_n_bins"] = int(rng.integers(c.get("min_n_bins", 1), n + 2))

    def sized():
        k = rng.integers(1, max(2, n))
        i = rng.integers(0, n - k + 1)
        return int(size[i:i + k].sum()) + int(rng.integers(-1, 2))

    if rng.random() < p + .1:
        c["min_bin_size"] = float(np.clip(sized() / n_samples, 1e-3, .5))
    if rng.random() < p:
        c["max_bin_size"] = float(np.clip(max(
            sized() / n_samples, c.get("min_bin_size", 0)), 1e-3, 1.))
    if rng.random() < p:
        d = np.abs(np.diff(mean))
        c["min_mean_diff"] = float(rng.choice(d) * rng.choice([.5, .99, 1.5])
                                   ) if len(d) else .1
        if c["min_mean_diff"] < 1e-5:
            c.pop("min_mean_diff")
    if rng.random() < p:
        c["max_pvalue"] = float(rng.choice([.01, .05, .2, .5]))
        c["max_pvalue_policy"] = str(rng.choice(["all", "consecutive"]))
    return c


def pvalue_bad(a, b, maxp, strict):
    sa, sb = a.std(), b.std()
    s = max(1e-12, abs(a).max(), abs(b).max())
    if sa < 1e-5 * s and sb < 1e-5 * s:
        return strict                  # undefined / numerical noise
    p = stats.ttest_ind_from_stats(a.mean(), sa, len(a), b.mean(), sb,
                                   len(b), False)[1]
    if not np.isfinite(p):
        return strict
    return p > maxp + (-1e-6 if strict else 1e-6)


def violated(groups, c, cuts, n_samples, strict, trend, fixed=()):
    bad = []
    k = len(groups)
    size = np.array([len(g) for g in groups])
    mean = np.array([g.mean() for g in groups])
    if c.get("min_n_bins") is not None and k < c["min_n_bins"]:
        bad.append("min_n_bins")
    if c.get("max_n_bins") is not None and k > c["max_n_bins"]:
        bad.append("max_n_bins")
    if c.get("min_bin_size") is not None and \
            size.min() < int(np.ceil(c["min_bin_size"] * n_samples)):
        bad.append("min_bin_size")
    if c.get("max_bin_size") is not None and \
            size.max() > int(np.ceil(c["max_bin_size"] * n_samples)):
        bad.append("max_bin_size")
    if trend is not None:
        m = seg.trend_margin(mean, trend)
        if not (m > seg.EPS if strict else m >= -seg.EPS):
            bad.append("monotonic:" + trend)
    md = c.get("min_mean_diff", 0)
    if md and k > 1:
        t = 1e-9 * max(1, abs(mean).max())
        if np.abs(np.diff(mean)).min() < md + (t if strict else -t):
            bad.append("min_mean_diff")
    if c.get("max_pvalue") is not None:
        pairs = (itertools.combinations(range(k), 2)
                 if c.get("max_pvalue_policy") == "all"
                 else [(i, i + 1) for i in range(k - 1)])
        for i, j in pairs:
            if pvalue_bad(groups[i], groups[j], c["max_pvalue"], strict):
                bad.append("max_pvalue")
                break
    bad += ["fixed_split" for f in fixed if f not in cuts]
    return bad


def objective(groups, gamma, total, t_mean):
    v = sum(abs(g.mean() - t_mean) for g in groups)
    if gamma:
        s = [len(g) for g in groups]
        v -= gamma / total * (max(s) - min(s))
    return v


def merged(groups, cuts):
    b = [0] + list(cuts) + [len(groups)]
    return [np.concatenate(groups[b[i]:b[i + 1]]) for i in range(len(b) - 1)]


def best(groups, c, n_samples, gamma, trend, fixed):
    total = sum(len(g) for g in groups)
    t_mean = np.concatenate(groups).mean()
    top, arg, cnt, loose = -np.inf, None, 0, 0
    for cuts in seg.all_cuts(len(groups)):
        g = merged(groups, cuts)
        if violated(g, c, cuts, n_samples, True, trend, fixed):
            if not loose and not violated(g, c, cuts, n_samples, False, trend,
                                          fixed):
                loose += 1
            continue
        cnt += 1
        v = objective(g, gamma, total, t_mean)
        if v > top:
            top, arg = v, cuts
    return top, arg, cnt, cnt + loose


def fit(x, y, **kw):
    kw.setdefault("name", "x")
    kw.setdefault("time_limit", 60)
    return ContinuousOptimalBinning(**kw).fit(x, y)
