"""Binary-target workload: constraint generator and library driver."""
import numpy as np
from optbinning import OptimalBinning

from . import gen, seg

TRENDS = [None, "ascending", "descending", "peak", "valley", "concave",
          "convex", "peak_heuristic", "valley_heuristic", "auto",
          "auto_asc_desc", "auto_heuristic"]

# shapes a successful fit may have for each requested trend
SHAPES = {None: [None], "auto": ["ascending", "descending", "peak", "valley"],
          "auto_heuristic": ["ascending", "descending", "peak", "valley"],
          "auto_asc_desc": ["ascending", "descending"],
          "peak_heuristic": ["peak"], "valley_heuristic": ["valley"]}


def shapes(trend):
    return SHAPES.get(trend, [trend])


def constraints(rng, NE, E, n_samples, level=None):
    """Random constraint set whose thresholds sit near what the data can
    attain, so that constraints bind."""
    n = len(E)
    size = NE + E
    p = level if level is not None else rng.choice([0.08, 0.2, 0.35])
    c = {}
    if rng.random() < p:
        c["min_n_bins"] = int(rng.integers(1, n + 1))
    if rng.random() < p + .1:
        lo = c.get("min_n_bins", 1)
        c["max_n_bins"] = int(rng.integers(lo, n + 2))

    def sized(arr):
        k = rng.integers(1, max(2, n))
        i = rng.integers(0, n - k + 1)
        return int(arr[i:i + k].sum()) + int(rng.integers(-1, 2))

    if rng.random() < p + .1:
        v = sized(size) / n_samples
        c["min_bin_size"] = float(np.clip(v, 1e-3, 0.5))
    if rng.random() < p:
        v = max(sized(size) / n_samples, c.get("min_bin_size", 0))
        c["max_bin_size"] = float(np.clip(v, 1e-3, 1.0))
    for name, arr in (("event", E), ("nonevent", NE)):
        if rng.random() < p:
            c["min_bin_n_" + name] = max(1, sized(arr))
        if rng.random() < p * .6:
            c["max_bin_n_" + name] = max(c.get("min_bin_n_" + name, 1),
                                         sized(arr))
    if rng.random() < p:
        c["min_event_rate_diff"] = float(rng.choice([0.001, 0.05, 0.1, 0.3]))
    if rng.random() < p:
        c["max_pvalue"] = float(rng.choice([0.01, 0.05, 0.2, 0.5]))
        c["max_pvalue_policy"] = str(rng.choice(["all", "consecutive"]))
    return c


def tight(rng, size, n_samples, e=None, ne=None, off=0):
    """Constraints that a given merging meets with equality (off=0) or that
    one of its bins misses by exactly one (off=1)."""
    k = len(size)
    names = ["min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size"]
    if e is not None:
        names += ["min_bin_n_event", "max_bin_n_event", "min_bin_n_nonevent",
                  "max_bin_n_nonevent"]
    pick = [a for a in names if rng.random() < rng.choice([.25, .5])]
    if rng.random() < .3:
        pick = ["min_bin_size", "max_bin_size"]
    elif rng.random() < .15:
        pick = ["min_n_bins", "max_n_bins"]
    miss = str(rng.choice(pick)) if off and pick else None
    c = {}
    for a in pick:
        arr = e if a.endswith("_event") else ne
        if a.endswith("n_bins"):
            v = k
        elif a.endswith("bin_size"):
            v = size.min() if a.startswith("min") else size.max()
        else:
            v = arr.min() if a.startswith("min") else arr.max()
        v = int(v)
        if a == miss:
            v += 1 if a.startswith("min") else -1
        elif rng.random() < .2:
            v += -1 if a.startswith("min") else 1
        if v < 1:
            continue
        if a.endswith("bin_size"):
            f = v / n_samples
            if int(np.ceil(f * n_samples)) != v:
                f = (v - .5) / n_samples
            if a.startswith("min") and f > .5:
                continue
            c[a] = float(min(f, 1.))
        else:
            c[a] = v
    for a in ("n_bins", "bin_size", "bin_n_event", "bin_n_nonevent"):
        lo, hi = c.get("min_" + a), c.get("max_" + a)
        if lo is not None and hi is not None and lo > hi:
            c.pop("max_" + a)
    return c


def fit(x, y, **kw):
    kw.setdefault("name", "x")
    kw.setdefault("time_limit", 60)
    return OptimalBinning(**kw).fit(x, y)


def counts_by_splits(x, y, splits, codes):
    clean = ~np.isnan(x)
    if codes is not None:
        clean &= ~np.isin(x, codes)
    xc, yc = x[clean], y[clean]
    idx = np.searchsorted(splits, xc, side="right")
    k = len(splits) + 1
    e = np.bincount(idx, weights=(yc == 1), minlength=k).astype(int)
    n = np.bincount(idx, minlength=k).astype(int)
    return n - e, e


def setup(rng, nmax=8, trends=TRENDS, solvers=("cp", "mip"), fixed=True,
          missing=True, special=True, nmin=2, kind=None, pure=0.0):
    n = int(rng.integers(nmin, nmax + 1))
    d = gen.binary_pinned(rng, n, missing, special, kind=kind, pure=pure)
    kw = dict(solver=str(rng.choice(solvers)),
              divergence=str(rng.choice(["iv", "iv", "js", "hellinger",
                                         "triangular"])))
    trend = trends[rng.integers(len(trends))]
    kw["monotonic_trend"] = trend
    if kw["solver"] == "mip":
        kw["mip_solver"] = str(rng.choice(["bop", "cbc"]))
    c = constraints(rng, d["ne"], d["e"], len(d["x"]))
    if rng.random() < .25:
        kw["gamma"] = float(rng.choice([0.1, 0.5, 2.0]))
    fx = []
    order = rng.permutation(n - 1) if rng.random() < .3 else np.arange(n - 1)
    us = d["splits"][order]
    kw["user_splits"] = us.tolist() if rng.random() < .5 else us
    if fixed and n > 1 and rng.random() < .2:
        f = rng.random(n - 1) < rng.choice([.2, .5])
        fx = [int(i) + 1 for i in np.flatnonzero(f)]
        kw["user_splits_fixed"] = [bool(v) for v in f[order]]
    if d["codes"] is not None:
        kw["special_codes"] = d["codes"]
    return d, c, kw, trend, fx


def cuts_of(splits, all_splits):
    """Indices of the returned splits among the pre-bin splits (or None)."""
    out = []
    for s in splits:
        w = np.flatnonzero(all_splits == s)
        if len(w) != 1:
            return None
        out.append(int(w[0]) + 1)
    return tuple(out)
