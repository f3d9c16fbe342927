"""Two-dimensional workload and reference tilings."""
import numpy as np
import pandas as pd
from optbinning import ContinuousOptimalBinning2D, OptimalBinning2D

CODES = [-999., -888., -777.]
SCODES = ["zz", "yy"]


def axis(rng, m, allow_cat=True):
    """-> (values, latent in [-2, 2], dtype, codes, style)"""
    if allow_cat and rng.random() < .3:
        k = int(rng.integers(1, 8))
        names = np.array(["k%d" % i for i in range(k)], dtype=object)
        i = rng.integers(0, k, m)
        eff = rng.uniform(-2, 2, k)
        v, z, codes = names[i], eff[i], []
        if rng.random() < .4:
            codes = SCODES[:int(rng.integers(1, 3))]
        style = "cat"
    else:
        style = str(rng.choice(["normal", "int", "ties", "lattice", "const",
                                "exp"], p=[.3, .2, .2, .15, .05, .1]))
        v = {"normal": lambda: rng.normal(0, 5, m),
             "int": lambda: rng.integers(-5, 15, m).astype(float),
             "ties": lambda: rng.choice([0., 1, 2, 5, 9], m),
             "lattice": lambda: rng.integers(0, 12, m) / 4.,
             "const": lambda: np.full(m, 2.5),
             "exp": lambda: rng.exponential(2, m)}[style]()
        z = np.clip((v - v.mean()) / (v.std() + 1e-9), -2, 2)
        codes = CODES[:int(rng.integers(1, 4))] if rng.random() < .4 else []
    if codes and rng.random() < .85:
        s = np.flatnonzero(rng.random(m) < .1)
        for q in s:
            v[q] = codes[rng.integers(len(codes))]
    if rng.random() < .5:
        s = np.flatnonzero(rng.random(m) < .1)
        for q in s:
            v[q] = None if style == "cat" and rng.random() < .3 else np.nan
    return v, z, "categorical" if style == "cat" else "numerical", codes, style


def masks(x, y, dx, dy):
    miss = pd.isnull(x) | pd.isnull(y)
    spec = pd.Series(x).isin(dx).values | pd.Series(y).isin(dy).values
    return miss, spec & ~miss, ~miss & ~spec


def draw(rng, k, allow_cat=True, mmax=300):
    m = int(rng.integers(40, mmax))
    x, zx, tx, cx, sx = axis(rng, m, allow_cat)
    y, zy, ty, cy, sy = axis(rng, m, allow_cat)
    a, b = rng.normal(0, 1.2, 2)
    f = a * zx + b * zy
    if rng.random() < .3:
        f = f + rng.normal() * zx * zy
    if k == 0:
        z = (rng.random(m) < 1 / (1 + np.exp(-f))).astype(int)
        if rng.random() < .2:
            z = z | (zx > 1).astype(int)           # pure corner
    else:
        z = f * float(rng.choice([.1, 1, 50])) + rng.normal(0, .3, m)
        if rng.random() < .2:
            z = np.round(z)
    kw = dict(dtype_x=tx, dtype_y=ty)
    if cx:
        kw["special_codes_x"] = list(cx)
    if cy:
        kw["special_codes_y"] = list(cy) if rng.random() < .7 else \
            np.array(cy)
    return dict(x=x, y=y, z=z, kw=kw, cx=cx, cy=cy, styles=(sx, sy),
                tx=tx, ty=ty)


def make(k, kw):
    return [OptimalBinning2D, ContinuousOptimalBinning2D][k](**kw)


def member(v, dtype, piece):
    """records of v inside one axis side of a displayed rectangle"""
    if dtype == "numerical":
        v = np.asarray(v, float)
        return (v >= piece[0]) & (v < piece[1])
    return pd.Series(v).isin(list(piece)).values


def tilings(m, n, allowed, limit=200000):
    """Every tiling of an m x n grid (rows, cols) by allowed rectangles
    (r0, c0, r1, c1), half-open."""
    full = (1 << (m * n)) - 1
    at = {}
    for r in allowed:
        mask = 0
        for i in range(r[0], r[2]):
            for j in range(r[1], r[3]):
                mask |= 1 << (i * n + j)
        at.setdefault(r[0] * n + r[1], []).append((mask, r))
    out, stack = [], [(0, ())]
    while stack:
        cov, part = stack.pop()
        if cov == full:
            out.append(part)
            if len(out) > limit:
                return None
            continue
        p = 0
        while cov >> p & 1:
            p += 1
        for mask, r in at.get(p, ()):
            if not cov & mask:
                stack.append((cov | mask, part + (r,)))
    return out


def adjacent(a, b, axis_):
    """b directly right of (x) / directly above (y) a, sharing an edge."""
    if axis_ == "x":
        return a[3] == b[1] and a[0] < b[2] and b[0] < a[2]
    return a[2] == b[0] and a[1] < b[3] and b[1] < a[3]


def trend_ok(tiles, val, axis_, trend, diff):
    for a in tiles:
        for b in tiles:
            if adjacent(a, b, axis_):
                if trend == "ascending" and not val[a] + diff < val[b]:
                    return False
                if trend == "descending" and not val[a] > val[b] + diff:
                    return False
    return True
