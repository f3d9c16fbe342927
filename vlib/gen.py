"""Workload generators shared by the checks."""
import numpy as np


def rate_pattern(rng, n, kind=None):
    kind = kind or rng.choice(["random", "asc", "desc", "peak", "valley",
                               "flat", "high", "low", "zigzag", "ties"])
    u = np.sort(rng.uniform(0.03, 0.97, n))
    if kind == "random":
        r = rng.uniform(0.02, 0.98, n)
    elif kind == "asc":
        r = u
    elif kind == "desc":
        r = u[::-1]
    elif kind in ("peak", "valley"):
        t = rng.integers(0, n)
        left = np.sort(rng.uniform(0.05, 0.95, n))
        r = np.concatenate([np.sort(left[:t]), np.sort(left[t:])[::-1]])
        if kind == "valley":
            r = 1 - r
    elif kind == "flat":
        r = np.full(n, rng.uniform(0.1, 0.9))
    elif kind == "high":
        r = rng.uniform(0.55, 0.98, n)
    elif kind == "low":
        r = rng.uniform(0.02, 0.2, n)
    elif kind == "ties":
        r = rng.choice([0.25, 0.5, 0.75], n)
    else:
        r = np.where(np.arange(n) % 2, rng.uniform(.05, .45, n),
                     rng.uniform(.55, .95, n))
    noise = rng.choice([0, 0, 0.02, 0.1])
    return np.clip(r + rng.normal(0, noise, n), 0.01, 0.99), str(kind)


def bin_counts(rng, n, lo=4, hi=60, kind=None):
    """event / non-event counts for n bins, both positive everywhere."""
    mode = rng.choice(["uniform", "skew", "equal"])
    if mode == "uniform":
        size = rng.integers(lo, hi, n)
    elif mode == "skew":
        size = np.maximum(lo, (hi * 4 * rng.dirichlet(np.full(n, .6)) *
                               n / 4).astype(int))
    else:
        size = np.full(n, rng.integers(lo, hi))
    r, kind = rate_pattern(rng, n, kind)
    e = np.rint(size * r).astype(int)
    e = np.clip(e, 1, size - 1)
    return size - e, e, kind


def values_in_bins(rng, n, sizes, style="real"):
    """(x, splits): sizes[i] values inside the i-th of n bins delimited by
    the returned n-1 splits, half-open [a, b)."""
    if style == "int":
        step = rng.integers(2, 6)
        start = rng.integers(-10, 10)
        splits = start + step * np.arange(1, n)
        x = np.concatenate([rng.integers(start + step * i,
                                         start + step * (i + 1), s)
                            for i, s in enumerate(sizes)]).astype(float)
        return x, splits.astype(float)
    widths = rng.uniform(0.5, 3, n)
    scale = 10.0 ** rng.integers(-2, 4)
    edges = rng.normal(0, 3) + np.concatenate([[0], np.cumsum(widths)])
    edges *= scale
    x = []
    for i, s in enumerate(sizes):
        v = rng.uniform(edges[i], edges[i + 1], s)
        if s and rng.random() < 0.4:
            v[0] = edges[i]          # exactly on the edge: belongs to bin i
        x.append(np.minimum(v, np.nextafter(edges[i + 1], -np.inf)))
    return np.concatenate(x), edges[1:-1]


def binary_pinned(rng, n, missing=True, special=True, style=None, kind=None,
                  lo=4, hi=60, pure=0.0):
    """Binary data set whose pre-bins (given as user splits) are known."""
    ne, e, kind = bin_counts(rng, n, lo, hi, kind)
    for i in range(n):
        if rng.random() < pure:
            if rng.random() < .5:
                ne[i], e[i] = 0, ne[i] + e[i]
            else:
                ne[i], e[i] = ne[i] + e[i], 0
    style = style or rng.choice(["real", "int"])
    x, splits = values_in_bins(rng, n, ne + e, style)
    y = np.concatenate([np.r_[np.zeros(a), np.ones(b)]
                        for a, b in zip(ne, e)]).astype(int)
    # shuffle y inside bins happens through the global permutation
    off = 0
    for a, b in zip(ne, e):
        y[off:off + a + b] = rng.permutation(y[off:off + a + b])
        off += a + b
    codes = None
    if missing and rng.random() < 0.5:
        m = rng.integers(1, 12)
        x = np.r_[x, np.full(m, np.nan)]
        y = np.r_[y, rng.integers(0, 2, m)]
    if special and rng.random() < 0.4:
        codes = [-99999.0, -88888.0][:rng.integers(1, 3)]
        m = rng.integers(1, 12)
        x = np.r_[x, rng.choice(codes, m)]
        y = np.r_[y, rng.integers(0, 2, m)]
    p = rng.permutation(len(x))
    return dict(x=x[p], y=y[p], splits=splits, ne=ne, e=e, codes=codes,
                kind=kind, n=n, style=str(style))


def maybe(rng, p, v):
    return v() if rng.random() < p else None
