"""Multiclass workload and reference (pinned pre-bins)."""
import itertools

import numpy as np
from optbinning import MulticlassOptimalBinning

from . import binary as B
from . import gen, seg

LIST_TRENDS = [None, None, "ascending", "descending", "peak", "valley",
               "concave", "convex", "peak_heuristic", "valley_heuristic",
               "auto", "auto_asc_desc", "auto_heuristic"]


def pinned(rng, n, k, lo=1, hi=30):
    """n pre-bins, k classes, every class present in every pre-bin."""
    shape = rng.choice(["free", "trend", "skew"])
    if shape == "free":
        N = rng.integers(lo, hi, (n, k))
    elif shape == "trend":
        t = np.linspace(0, 1, n)[:, None]
        w = np.exp(np.sin(t * rng.uniform(0, 6, k)) * rng.uniform(-3, 3, k))
        p = w / w.sum(axis=1, keepdims=True)
        N = np.maximum(1, np.rint(p * rng.integers(10, 120, n)[:, None]))
    else:
        N = np.maximum(1, (hi * rng.dirichlet(np.full(k, .4), n)))
    N = N.astype(int)
    x, splits = gen.values_in_bins(rng, n, N.sum(axis=1),
                                   str(rng.choice(["real", "int"])))
    labels = [np.arange(k), np.arange(k) * 3 - 4,
              np.array(["c" + str(i) for i in range(k)])][rng.integers(3)]
    y = np.concatenate([rng.permutation(np.repeat(labels, r)) for r in N])
    codes = None
    if rng.random() < .4:
        m = rng.integers(1, 10)
        x = np.r_[x, np.full(m, np.nan)]
        y = np.r_[y, rng.choice(labels, m)]
    if rng.random() < .4:
        codes = [-99999.0, -88888.0][:rng.integers(1, 3)]
        m = rng.integers(1, 10)
        x = np.r_[x, rng.choice(codes, m)]
        y = np.r_[y, rng.choice(labels, m)]
    p = rng.permutation(len(x))
    return dict(x=x[p], y=y[p], splits=splits, N=N, codes=codes, n=n, k=k,
                labels=labels)


def violated(N, c, cuts, n_samples, strict, trends, fixed=()):
    """N: merged bins x classes. trends: one concrete trend per class."""
    bad = []
    size = N.sum(axis=1)
    k = len(N)
    if c.get("min_n_bins") is not None and k < c["min_n_bins"]:
        bad.append("min_n_bins")
    if c.get("max_n_bins") is not None and k > c["max_n_bins"]:
        bad.append("max_n_bins")
    if c.get("min_bin_size") is not None and \
            size.min() < int(np.ceil(c["min_bin_size"] * n_samples)):
        bad.append("min_bin_size")
    if c.get("max_bin_size") is not None and \
            size.max() > int(np.ceil(c["max_bin_size"] * n_samples)):
        bad.append("max_bin_size")
    sub = {q: c[q] for q in ("min_event_rate_diff", "max_pvalue",
                             "max_pvalue_policy") if q in c}
    for j in range(N.shape[1]):
        b = seg.binary_constraints(size - N[:, j], N[:, j], cuts, sub,
                                   n_samples, strict,
                                   trends[j] if trends else None)
        bad += [v for v in b if v not in bad]
    bad += ["fixed_split" for f in fixed if f not in cuts]
    return bad


def objective(N):
    size = N.sum(axis=1)
    return sum(seg.divergence("iv", size - N[:, j], N[:, j])
               for j in range(N.shape[1]))


def combos(trends, k):
    """Concrete trend combinations a successful fit may have followed."""
    per = []
    for j in range(k):
        t = trends[j] if isinstance(trends, list) else trends
        per.append(B.shapes(t))
    return list(itertools.product(*per))


def allowed(N, trends, strict):
    """Every class follows one of the shapes its request allows."""
    size = N.sum(axis=1)
    for j in range(N.shape[1]):
        t = trends[j] if isinstance(trends, list) else trends
        if not any(seg.ok_margin(seg.trend_margin(N[:, j] / size, s), strict)
                   for s in B.shapes(t)):
            return t
    return False


ENUM = {"concave": "concave_all", "convex": "convex_all"}


def references(N, c, n_samples, trends, fixed):
    """[(best objective, cuts, strictly feasible, loosely feasible mergings)]
    for every concrete trend combination the request allows."""
    k = N.shape[1]
    per = [B.shapes(trends[j] if isinstance(trends, list) else trends)
           for j in range(k)]
    rows = []
    for cuts in seg.all_cuts(len(N)):
        m = seg.merge(N, cuts)
        if violated(m, c, cuts, n_samples, False, None, fixed):
            continue
        base = not violated(m, c, cuts, n_samples, True, None, fixed)
        size = m.sum(axis=1)
        mar = [[seg.trend_margin(m[:, j] / size, ENUM.get(t, t))
                for t in per[j]] for j in range(k)]
        st = [[base and seg.ok_margin(v, True) for v in q] for q in mar]
        lo = [[seg.ok_margin(v, False) for v in q] for q in mar]
        rows.append((cuts, objective(m), st, lo))
    out = []
    for co in itertools.product(*[range(len(q)) for q in per]):
        top, arg, cnt, loose = -np.inf, None, 0, 0
        for cuts, v, st, lo in rows:
            if all(st[j][t] for j, t in enumerate(co)):
                cnt += 1
                if v > top:
                    top, arg = v, cuts
            elif not loose and all(lo[j][t] for j, t in enumerate(co)):
                loose = 1
        out.append((top, arg, cnt, cnt + loose))
    return out


def fit(x, y, **kw):
    kw.setdefault("name", "x")
    kw.setdefault("time_limit", 60)
    return MulticlassOptimalBinning(**kw).fit(x, y)
