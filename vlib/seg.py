"""Reference model for one-dimensional optimal binning: enumerates all
mergings of ordered pre-bins and decides feasibility/objective by the
documented definitions, independently of the library."""
import itertools

import numpy as np
from scipy import stats

EPS = 3e-6      # the CP formulation works with rates truncated to 1e-6


def divergence(name, ne, e):
    ne, e = np.asarray(ne, float), np.asarray(e, float)
    p, q = e / e.sum(), ne / ne.sum()
    with np.errstate(all="ignore"):
        if name == "iv":
            v = np.where((p > 0) & (q > 0), (p - q) * np.log(p / q), 0)
        elif name == "js":
            m = (p + q) / 2
            v = (np.where(p > 0, p * np.log(p / m), 0) +
                 np.where(q > 0, q * np.log(q / m), 0)) / 2
        elif name == "hellinger":
            v = (np.sqrt(p) - np.sqrt(q)) ** 2 / 2
        elif name == "triangular":
            v = np.where(p + q > 0, (p - q) ** 2 / (p + q), 0)
    return v.sum()


def all_cuts(n):
    for r in range(n):
        yield from itertools.combinations(range(1, n), r)


def merge(a, cuts):
    return np.add.reduceat(np.asarray(a), [0] + list(cuts), axis=0)


def trend_margin(r, trend):
    """>= 0 when the sequence r satisfies the trend; the value is the margin
    of the tightest inequality (inf when there is none)."""
    r = np.asarray(r, float)
    n = len(r)
    if trend is None or n == 1:
        return np.inf
    d = np.diff(r)
    if trend == "ascending":
        return d.min()
    if trend == "descending":
        return (-d).min()
    if trend in ("peak", "valley"):
        s = d if trend == "peak" else -d
        best = -np.inf
        for t in range(n):
            m = np.inf
            if t > 0:
                m = min(m, s[:t].min())
            if t < n - 1:
                m = min(m, (-s[t:]).min())
            best = max(best, m)
        return best
    if n == 2:
        return np.inf
    if trend in ("concave", "convex"):        # consecutive bins
        dd = np.diff(d)
        return (-dd).min() if trend == "concave" else dd.min()
    if trend in ("concave_all", "convex_all"):
        m = np.inf
        for k, j, i in itertools.combinations(range(n), 3):
            v = 2 * r[j] - r[i] - r[k]
            m = min(m, v if trend == "concave_all" else -v)
        # truncation can break an exact tie of three different rates
        return m if m != 0 else -0.5 * EPS
    raise ValueError(trend)


EXACT_TIES = True    # set False for solvers working in floating point


def ok_margin(m, strict):
    """strict: feasible beyond numerical doubt; loose: feasible up to it."""
    if strict:
        return (m == 0 and EXACT_TIES) or m > EPS
    return m >= -EPS


def pvalue_ok(ne, e, max_pvalue, policy, strict):
    zc = stats.norm.ppf(1 - max_pvalue / 2)
    n = len(e)
    pairs = (itertools.combinations(range(n), 2) if policy == "all"
             else [(i, i + 1) for i in range(n - 1)])
    for i, j in pairs:
        n1, n2 = ne[i] + e[i], ne[j] + e[j]
        p = (e[i] + e[j]) / (n1 + n2)
        z = abs(e[i] / n1 - e[j] / n2) / np.sqrt(p * (1 - p) *
                                                 (1 / n1 + 1 / n2))
        if z < zc + (1e-9 if strict else -1e-9):
            return False
    return True


def binary_constraints(ne, e, cuts, c, n_samples, strict, trend, fixed=()):
    """First violated constraint of the merged bins, or None."""
    bad = []
    k = len(e)
    if c.get("min_n_bins") is not None and k < c["min_n_bins"]:
        bad.append("min_n_bins")
    if c.get("max_n_bins") is not None and k > c["max_n_bins"]:
        bad.append("max_n_bins")
    size = ne + e
    if c.get("min_bin_size") is not None and \
            size.min() < int(np.ceil(c["min_bin_size"] * n_samples)):
        bad.append("min_bin_size")
    if c.get("max_bin_size") is not None and \
            size.max() > int(np.ceil(c["max_bin_size"] * n_samples)):
        bad.append("max_bin_size")
    for name, arr in (("event", e), ("nonevent", ne)):
        lo, hi = c.get("min_bin_n_" + name), c.get("max_bin_n_" + name)
        if lo is not None and arr.min() < lo:
            bad.append("min_bin_n_" + name)
        if hi is not None and arr.max() > hi:
            bad.append("max_bin_n_" + name)
    rate = e / size
    if trend is not None and not ok_margin(trend_margin(rate, trend), strict):
        bad.append("monotonic:" + trend)
    md = c.get("min_event_rate_diff", 0)
    if md and k > 1:
        diff = np.abs(np.diff(rate)).min()
        if diff < md + (EPS if strict else -EPS):
            bad.append("min_event_rate_diff")
    if c.get("max_pvalue") is not None and not pvalue_ok(
            ne, e, c["max_pvalue"], c.get("max_pvalue_policy", "consecutive"),
            strict):
        bad.append("max_pvalue")
    for f in fixed:
        if f not in cuts:
            bad.append("fixed_split")
    return bad


def objective(ne, e, div, gamma, total):
    v = divergence(div, ne, e)
    if gamma:
        s = ne + e
        v -= gamma / total * (s.max() - s.min())
    return v


def best_binary(NE, E, c, n_samples, div, gamma, trend, fixed=()):
    """(best objective, cuts, number of strictly feasible mergings,
    loosely feasible count)."""
    n = len(E)
    total = (NE + E).sum()
    best, arg, cnt, loose = -np.inf, None, 0, 0
    for cuts in all_cuts(n):
        ne, e = merge(NE, cuts), merge(E, cuts)
        if binary_constraints(ne, e, cuts, c, n_samples, True, trend, fixed):
            if not loose and not binary_constraints(
                    ne, e, cuts, c, n_samples, False, trend, fixed):
                loose += 1
            continue
        cnt += 1
        v = objective(ne, e, div, gamma, total)
        if v > best:
            best, arg = v, cuts
    return best, arg, cnt, cnt + loose
