"""R02: outlier detectors and their use in a fit."""
import numpy as np
import pandas as pd
from optbinning import (ContinuousOptimalBinning, MulticlassOptimalBinning,
                        OptimalBinning)
from optbinning.binning.outlier import (ModifiedZScoreDetector, RangeDetector,
                                        YQuantileDetector)
from optbinning.binning.preprocessing import split_data

from vlib import anyfit as A

PROP = "R02"
RULE = ("distinct = (detector, parameters, x style, size class); non-trivial "
        "when some but not all values are flagged")
ASSUMPTIONS = [
    "values closer to a bound than rounding error are not judged",
    "modified z-score with a zero MAD: every value different from the median "
    "has an infinite score (flagged), the median itself is not flagged"]


def quantile(s, q):
    """Linear-interpolation quantile of a sorted vector."""
    h = (len(s) - 1) * q
    lo = int(np.floor(h))
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (h - lo) * (s[hi] - s[lo])


def ref_range(x, length=.5, k=1.5, method="ETI"):
    """(flagged, doubtful)"""
    s = np.sort(x)
    n = len(s)
    if method == "ETI":
        lb, ub = (quantile(s, (1 - length) / 2), quantile(s, (1 + length) / 2))
        bounds = [(lb, ub)]
    else:
        inc = min(int(np.ceil(length * n)), n - 1)
        w = [s[i + inc] - s[i] for i in range(n - inc)]
        # every interval of (nearly) minimal width is acceptable
        bounds = [(s[i], s[i + inc]) for i in range(n - inc)
                  if w[i] <= min(w)]
        bounds = bounds[:1]
    lb, ub = bounds[0]
    r = ub - lb
    lo, hi = lb - k * r, ub + k * r
    eps = 1e-9 * max(np.abs(s).max(), 1e-300)
    doubt = (np.abs(x - lo) <= eps) | (np.abs(x - hi) <= eps)
    if method == "ETI" and (1 - length) == 0:
        doubt &= False
    return (x > hi) | (x < lo), doubt


def ref_z(x, threshold=3.5):
    s = np.sort(x)
    med = quantile(s, .5)
    d = np.abs(x - med)
    mad = quantile(np.sort(d), .5)
    if mad == 0:
        return d > 0, np.zeros(len(x), bool)
    z = 0.6745 * d / mad
    return z > threshold, np.abs(z - threshold) <= 1e-9 * max(1, threshold)


def ref_y(x, y, detector="zscore", params=None, n_bins=5):
    s = np.sort(x)
    cuts = np.unique([quantile(s, i / n_bins) for i in range(n_bins + 1)])
    gap = np.diff(cuts)
    scale = max(np.abs(s).max(), 1e-300)
    ref_cuts = np.unique(np.quantile(x, np.linspace(0, 1, n_bins + 1)))
    if len(ref_cuts) != len(cuts) or (len(gap) and
                                      gap.min() < 1e-9 * scale):
        return None
    f = ref_z if detector == "zscore" else ref_range
    out, doubt = np.zeros(len(x), bool), np.zeros(len(x), bool)
    cuts = cuts[1:-1]
    if len(cuts) and (np.abs(x[:, None] - cuts) < 1e-9 * scale).any() and \
            not np.array_equal(cuts, ref_cuts[1:-1]):
        cuts = ref_cuts[1:-1]      # value on a cut: rounding decides
    which = np.array([int(np.sum(v >= cuts)) for v in x])
    for b in range(len(cuts) + 1):
        m = which == b
        if m.any():
            out[m], doubt[m] = f(y[m], **(params or {}))
    return out, doubt


def draw(rng):
    m = int(rng.choice([2, 3, 4, 7, 20, 60, 300]))
    x, style = A.numeric_x(rng, m)
    if rng.random() < .4:
        k = max(1, m // 20)
        x = x.copy()
        x[:k] = x[:k] + rng.choice([-1, 1], k) * 20 * (np.std(x) + 1)
        x = rng.permutation(x)
    return x, m, style


def rparams(rng):
    p = {}
    if rng.random() < .6:
        p["interval_length"] = float(rng.choice([0, .1, .5, .8, .9, .99, 1]))
    if rng.random() < .5:
        p["k"] = float(rng.choice([0, .5, 1, 1.5, 3]))
    if rng.random() < .6:
        p["method"] = str(rng.choice(["HDI", "ETI"]))
    return p


def zparams(rng):
    return {"threshold": float(rng.choice([0, 1, 2, 3.5, 6]))} \
        if rng.random() < .6 else {}


def yparams(rng):
    p = {"outlier_detector": str(rng.choice(["range", "zscore"]))}
    if rng.random() < .5:
        p["outlier_params"] = (rparams if p["outlier_detector"] == "range"
                               else zparams)(rng)
    if rng.random() < .5:
        p["n_bins"] = int(rng.integers(1, 9))
    return p


def reference(name, p, x, y):
    if name == "range":
        return ref_range(x, p.get("interval_length", .5), p.get("k", 1.5),
                         p.get("method", "ETI"))
    if name == "zscore":
        return ref_z(x, **p)
    q = dict(p.get("outlier_params") or {})
    if p.get("outlier_detector", "zscore") == "range":
        q = {dict(interval_length="length").get(k, k): v
             for k, v in q.items()}
    return ref_y(x, y, p.get("outlier_detector", "zscore"), q,
                 p.get("n_bins", 5))


PAR = dict(range=rparams, zscore=zparams, yquantile=yparams)


def detect(rng, mon):
    x, m, style = draw(rng)
    y = A.link(rng, (x - np.median(x)) / (np.std(x) + 1e-12)) + \
        rng.standard_t(2, m)
    if rng.random() < .3:
        y = np.round(y)
    name = str(rng.choice(["range", "zscore", "yquantile"]))
    p = PAR[name](rng)
    tag = "{} {} {} m={}".format(name, p, style, m)
    d = dict(range=RangeDetector, zscore=ModifiedZScoreDetector,
             yquantile=YQuantileDetector)[name](**p)
    x0, y0 = x.copy(), y.copy()
    got = d.fit(x, y).get_support()
    mon.check(np.array_equal(x, x0) and np.array_equal(y, y0),
              "input_changed", tag)
    mon.check(np.array_equal(d.get_support(indices=True),
                             np.flatnonzero(got)), "indices", tag)
    ref = reference(name, p, x, y)
    if ref is None:
        return
    want, doubt = ref
    bad = (got != want) & ~doubt
    mon.check(not bad.any(), "mask:" + name, lambda: "{} x={} got={} want={}"
              .format(tag, x[bad][:5], got[bad][:5], want[bad][:5]))
    mon.check(np.array_equal(d.fit(x, y).get_support(), got), "refit", tag)
    mon.seen("detect_" + name)
    if 0 < want.sum() < m:
        mon.seen("flagged_" + name)
        mon.sig(name, sorted(p.items(), key=str), style, m)
    mon.sample(tag)


CLS = [OptimalBinning, ContinuousOptimalBinning, MulticlassOptimalBinning]


def fit(rng, mon):
    m = int(rng.integers(40, 300))
    k = int(rng.integers(3))
    x, style = A.numeric_x(rng, m)
    x = x.astype(np.float32).astype(float)
    if style in ("big", "tiny"):
        return
    nout = int(rng.integers(1, 8))
    x[:nout] = np.median(x) + rng.choice([-1, 1], nout) * \
        float(rng.choice([10, 100])) * (np.std(x) + 1)
    z = np.clip((x - np.median(x)) / (np.std(x) + 1e-9), -4, 4)
    if k == 0:
        y = (rng.random(m) < 1 / (1 + np.exp(-A.link(rng, z)))).astype(int)
    elif k == 1:
        y = A.link(rng, z) + .3 * rng.standard_t(3, m)
    else:
        y = rng.integers(0, 3, m)
    codes = [-999., 777.][:int(rng.integers(0, 3))]
    spec = np.zeros(m, bool)
    if codes:
        spec = rng.random(m) < .1
        x[spec] = rng.choice(codes, spec.sum())
    x[np.isin(x, codes) & ~spec] = 1.0
    miss = (rng.random(m) < .1) & ~spec if rng.random() < .6 else \
        np.zeros(m, bool)
    x[miss] = np.nan
    clean = ~miss & ~spec
    name = str(rng.choice(["range", "zscore"] + ["yquantile"] * (k == 1)))
    p = PAR[name](rng)
    ref = reference(name, p, x[clean], y[clean])
    if ref is None or ref[1].any():
        return
    out = np.zeros(m, bool)
    out[clean] = ref[0]
    keep = clean & ~out
    need = 1 if k == 1 else len(np.unique(y))
    if keep.sum() < 5 or len(np.unique(y[keep])) < need:
        return
    kw = dict(prebinning_method=str(rng.choice(["cart", "quantile"])),
              max_n_prebins=int(rng.integers(2, 12)))
    if codes:
        kw["special_codes"] = codes
    nz = int(rng.integers(2, 12))
    tag = "{} {} {} {} m={} out={}".format(CLS[k].__name__, name, p, kw, m,
                                           out.sum())
    o = CLS[k](outlier_detector=name, outlier_params=p or None,
               min_prebin_size=min(.5, (nz - .5) / m), **kw)
    x0 = x.copy()
    rest = ~out
    w = np.ones(m)
    fk, fr = {}, {}
    if k < 2 and kw["prebinning_method"] == "cart" and rng.random() < .4:
        w = rng.integers(1, 6, m).astype(float)
        fk, fr = dict(sample_weight=w.copy()), dict(sample_weight=w[rest])
        tag += " weighted"
        mon.seen("fit_weighted")
    o.fit(x, y, **fk)
    mon.check(np.array_equal(x, x0, equal_nan=True), "fit:input_changed", tag)
    if (nz - .5) / rest.sum() > .5 or (nz - .5) / m > .5:
        return
    r = CLS[k](min_prebin_size=(nz - .5) / rest.sum(), **kw)
    r.fit(x[rest], y[rest], **fr)
    mon.check(list(o.splits) == list(r.splits) and o.status == r.status,
              "fit:splits", lambda: "{} {} {}".format(tag, o.splits,
                                                      r.splits))
    to, tr = o.binning_table.build(), r.binning_table.build()
    mon.check(to.equals(tr), "fit:table", lambda: "{}\n{}\n{}".format(
        tag, to, tr))
    cnt = to["Count"].tolist()
    mon.check(cnt[-1] == w[rest].sum() and cnt[-2] == w[miss].sum() and
              cnt[-3] == w[spec].sum(), "fit:counts",
              lambda: "{} {}".format(tag, cnt))
    # a removed record still has a row of its own value
    metric = "mean" if k == 1 else ("woe" if k == 0 else "mean_woe")
    xs = x[clean]
    mon.check(np.array_equal(o.transform(xs, metric=metric),
                             r.transform(xs, metric=metric)),
              "fit:transform", tag)
    if out.any():
        mon.seen("fit_removed_" + name)
        mon.sig("fit", k, name, sorted(p.items(), key=str), style,
                len(o.splits))


def bounds(rng, mon):
    """split_data: exact partition of the records, optional bounds."""
    m = int(rng.choice([5, 20, 100]))
    x, style = A.numeric_x(rng, m)
    y = rng.integers(0, 2, m).astype(float)
    ident = np.arange(m).astype(float)         # weights identify records
    codes = [float(v) for v in rng.choice(x, int(rng.integers(0, 3)))]
    miss = rng.random(m) < .15
    x = x.copy()
    x[miss] = np.nan
    spec = np.isin(x, codes) & ~miss
    lo, hi = np.sort(rng.choice(np.where(miss, 0., x), 2))
    kw = {}
    if rng.random() < .6:
        kw["fix_lb"] = float(lo)
    if rng.random() < .6:
        kw["fix_ub"] = float(hi)
    tag = "bounds {} {} m={} codes={}".format(kw, style, m, codes)
    x0 = x.copy()
    r = split_data("numerical", x, y, special_codes=codes or None,
                   sample_weight=ident, **kw)
    mon.check(np.array_equal(x, x0, equal_nan=True) and np.array_equal(
        ident, np.arange(m)), "bounds:input_changed", tag)
    clean = ~miss & ~spec & (x >= kw.get("fix_lb", -np.inf)) & (
        x <= kw.get("fix_ub", np.inf))
    for got, sw, msk, nm in ((r[0], r[9], clean, "clean"),
                             (r[2], r[10], miss, "missing"),
                             (r[4], r[11], spec, "special")):
        mon.check(list(sw) == list(ident[msk]) and
                  np.array_equal(np.asarray(got, float), x[msk],
                                 equal_nan=True), "bounds:" + nm,
                  lambda: "{} {}".format(tag, got))
    mon.check(np.array_equal(r[1], y[clean]) and
              np.array_equal(r[3], y[miss]) and
              np.array_equal(np.asarray(r[5], float), y[spec]),
              "bounds:target", tag)
    mon.seen("bounds_%d" % len(kw))
    mon.sig("bounds", sorted(kw), style, m, len(codes))


def categorical(rng, mon):
    """Categorical variables have no outliers."""
    m = int(rng.integers(60, 200))
    x = rng.choice(list("abcdefg"), m, p=[.4, .3, .1, .1, .05, .03, .02])
    y = rng.integers(0, 2, m)
    k = int(rng.integers(2))
    name = str(rng.choice(["range", "zscore"] + ["yquantile"] * (k == 1)))
    o = CLS[k](dtype="categorical", outlier_detector=name).fit(x, y)
    t = o.binning_table.build()
    mon.check(t["Count"].iloc[-1] == m, "categorical", "{} {}".format(
        name, t))
    mon.seen("categorical")


FAMILIES = {"detect": (detect, 8000, 150000), "fit": (fit, 1800, 20000),
            "bounds": (bounds, 1600, 20000), "categorical": (categorical, 80, 400)}
REQUIRED = {"flagged_range": 100, "flagged_zscore": 100,
            "flagged_yquantile": 100, "fit_removed_range": 20,
            "fit_removed_zscore": 20, "fit_removed_yquantile": 20,
            "fit_weighted": 40, "bounds_2": 100, "bounds_1": 100, "categorical": 20}
