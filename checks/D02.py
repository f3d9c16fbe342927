"""D02: two-dimensional binning honours constraints and is optimal."""
import numpy as np

from vlib import core
from vlib import grid2d as G

PROP = "D02"
RULE = ("distinct = (target, family, grid shape, solver, trends, constraint "
        "set, #bins); non-trivial when the grid has at least two tilings that "
        "satisfy the constraints")
ASSUMPTIONS = [
    "uniform pre-binning of k intervals has the splits min + i*(max-min)/k",
    "with cart/quantile/mdlp pre-binning the competitors are the tilings of "
    "the sub-grid spanned by the displayed edges",
    "the CP objective truncates each rectangle's contribution to 1e-6",
    "with gamma > 0 the solution must not be dominated in (divergence, "
    "largest minus smallest bin size)"]
DIVS = ["iv", "iv", "js", "hellinger", "triangular"]


def pinned(rng, k):
    """numerical x, y whose uniform pre-bins are [i, i+1)"""
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    n, m = max(n, 2), max(m, 2)
    while n * m > 12 and rng.random() < .8:
        n, m = int(rng.integers(2, 5)), int(rng.integers(2, 4))
    size = rng.integers(2, 12, (m, n))
    if rng.random() < .3:
        size[rng.integers(m), rng.integers(n)] *= 8
    if rng.random() < .3:
        size[rng.random((m, n)) < .2] = 0
    i, j = [np.repeat(a.ravel(), size.ravel()) for a in
            np.meshgrid(np.arange(n), np.arange(m))]
    x, y = i + rng.random(len(i)) * .999, j + rng.random(len(j)) * .999
    if rng.random() < .5:
        x, y = np.floor(x), np.floor(y)
    a, b, c = rng.normal(0, .6, 3)
    f = a * (i - n / 2) + b * (j - m / 2) + \
        c * (rng.random() < .4) * (i - n / 2) * (j - m / 2)
    if rng.random() < .5:
        f = f + rng.normal(0, .8, (m, n))[j, i]
    if k == 0:
        z = (rng.random(len(x)) < 1 / (1 + np.exp(-f))).astype(int)
        if rng.random() < .5:      # both classes in (almost) every cell
            for r in range(m):
                for s in range(n):
                    q = np.flatnonzero((i == s) & (j == r))
                    if len(q) > 1:
                        z[q[0]], z[q[1]] = 0, 1
    else:
        z = np.round(f * float(rng.choice([1, 10])) +
                     rng.normal(0, .3, len(x)), int(rng.integers(0, 4)))
    # the corners fix the range of the uniform grid; they carry records
    x, y = np.r_[x, 0., n], np.r_[y, 0., m]
    z = np.r_[z, (0, 1) if k == 0 else rng.normal(0, 1, 2)]
    z = z.astype(int) if k == 0 else z
    miss = int(rng.integers(0, 12)) if rng.random() < .4 else 0
    if miss:
        x, y = np.r_[x, np.full(miss, np.nan)], np.r_[y, rng.random(miss)]
        z = np.r_[z, rng.integers(0, 2, miss)]
    p = rng.permutation(len(x))
    kw = dict(prebinning_method="uniform", max_n_prebins_x=n,
              max_n_prebins_y=m)
    return (x[p], y[p], z[p], kw, np.arange(1., n), np.arange(1., m), [], [])


def free(rng, k):
    d = G.draw(rng, k, allow_cat=False, mmax=220)
    kw = dict(d["kw"], prebinning_method=str(rng.choice(
        ["cart", "quantile"] + ["mdlp"] * (k == 0))),
        max_n_prebins_x=int(rng.integers(2, 5)),
        max_n_prebins_y=int(rng.integers(2, 5)),
        min_prebin_size_x=float(rng.choice([.05, .1, .2])),
        min_prebin_size_y=float(rng.choice([.05, .1, .2])))
    return d["x"], d["y"], d["z"], kw, None, None, d["cx"], d["cy"]


class Ref:
    """all rectangles of a grid with their statistics"""

    def __init__(self, k, x, y, z, ex, ey, div):
        self.k, self.div = k, div
        n, m = len(ex) + 1, len(ey) + 1
        self.m, self.n = m, n
        ix = np.searchsorted(ex, x, side="right")
        iy = np.searchsorted(ey, y, side="right")
        self.cnt, self.s = np.zeros((m, n), int), np.zeros((m, n))
        np.add.at(self.cnt, (iy, ix), 1)
        np.add.at(self.s, (iy, ix), z)
        self.rects = {}
        tot, ts = self.cnt.sum(), self.s.sum()
        for r0 in range(m):
            for r1 in range(r0 + 1, m + 1):
                for c0 in range(n):
                    for c1 in range(c0 + 1, n + 1):
                        c = self.cnt[r0:r1, c0:c1].sum()
                        s = self.s[r0:r1, c0:c1].sum()
                        if c == 0 or k == 0 and s in (0, c):
                            continue
                        if k == 0:
                            v = self._part(c - s, s, tot - ts, ts)
                        else:
                            v = abs(s / c - ts / tot)
                        self.rects[(r0, c0, r1, c1)] = (c, s, s / c, v)

    def _part(self, ne, e, tne, te):
        p, q = e / te, ne / tne
        if self.div == "iv":
            return (p - q) * np.log(p / q)
        if self.div == "js":
            h = (p + q) / 2
            return (p * np.log(p / h) + q * np.log(q / h)) / 2
        if self.div == "hellinger":
            return (np.sqrt(p) - np.sqrt(q)) ** 2 / 2
        return (p - q) ** 2 / (p + q)

    def rect_ok(self, r, c, n_samples):
        if r not in self.rects:
            return False
        cnt, s = self.rects[r][:2]
        size = [int(np.ceil(c[q] * n_samples)) if q in c else None
                for q in ("min_bin_size", "max_bin_size")]
        lims = [(cnt, size[0], size[1])]
        if self.k == 0:
            lims += [(s, c.get("min_bin_n_event"), c.get("max_bin_n_event")),
                     (cnt - s, c.get("min_bin_n_nonevent"),
                      c.get("max_bin_n_nonevent"))]
        return all((lo is None or v >= lo) and (hi is None or v <= hi)
                   for v, lo, hi in lims)

    def tiles_ok(self, tiles, c, slack):
        if not c.get("min_n_bins", 0) <= len(tiles) <= c.get("max_n_bins",
                                                             10 ** 9):
            return False
        val = {t: self.rects[t][2] for t in tiles}
        d = "min_event_rate_diff_" if self.k == 0 else "min_mean_diff_"
        return all(G.trend_ok(tiles, val, a, c["monotonic_trend_" + a],
                              c.get(d + a, 0) + slack)
                   for a in "xy" if c.get("monotonic_trend_" + a))

    def objective(self, tiles):
        return sum(self.rects[t][3] for t in tiles)

    def spread(self, tiles):
        c = [self.rects[t][0] for t in tiles]
        return max(c) - min(c)


def constraints(rng, k, ref, n_samples):
    c = {}
    cnt, s = ref.cnt, ref.s
    some = [ref.rects[r] for r in ref.rects]
    pick = some[rng.integers(len(some))] if some else (5, 2, .5, 0)
    tight = rng.random() < .5
    level = rng.random()
    if level < .2:
        return c
    p = .25
    if rng.random() < .5:
        c["monotonic_trend_x"] = str(rng.choice(["ascending", "descending"]))
    if rng.random() < .5:
        c["monotonic_trend_y"] = str(rng.choice(["ascending", "descending"]))
    nm = "min_event_rate_diff_" if k == 0 else "min_mean_diff_"
    for a in "xy":
        if "monotonic_trend_" + a in c and rng.random() < .4:
            v = float(rng.choice([.01, .05, .15]))
            if tight and len(some) > 1:
                o = some[rng.integers(len(some))]
                v = float(min(.9, abs(o[2] - pick[2])))
            c[nm + a] = v * (1 if k == 0 else max(1, np.abs(ref.s).max() /
                                                  10 * (not tight)))
    if rng.random() < p:
        c["max_n_bins"] = int(rng.integers(1, 7))
    if rng.random() < p:
        c["min_n_bins"] = int(rng.integers(1, c.get("max_n_bins", 6) + 1))
    if rng.random() < p:
        v = pick[0] if tight else max(1, cnt.sum() * rng.choice([.05, .15]))
        c["min_bin_size"] = float(min(.5, max(1e-3, (v - .5) / n_samples)))
    if rng.random() < p:
        v = pick[0] if tight else cnt.sum() * rng.choice([.3, .5, .8])
        c["max_bin_size"] = float(min(.99, max(
            c.get("min_bin_size", 0) + 1e-3, (v - .5) / n_samples)))
    if k == 0:
        for q, val in (("event", pick[1]), ("nonevent", pick[0] - pick[1])):
            if rng.random() < .15:
                c["min_bin_n_" + q] = int(val if tight else
                                          rng.integers(1, 8))
            if rng.random() < .15:
                hi = int(val if tight else rng.integers(10, 60))
                c["max_bin_n_" + q] = max(hi, c.get("min_bin_n_" + q, 1), 1)
    return c


def leaves(o, ref, allowed):
    """rectangles made of two or more whole leaves of the fitted tree (as the
    tree itself assigns the cells); None without such a tree"""
    tree = getattr(o, "_clf", None)
    if not hasattr(tree, "apply"):
        return None
    try:
        at = tree.apply(np.array([(j, i) for i in range(ref.m)
                                  for j in range(ref.n)], float))
    except Exception:
        return None
    at = at.reshape(ref.m, ref.n)
    size = {v: int((at == v).sum()) for v in np.unique(at)}
    out = []
    for r in allowed:
        inner = at[r[0]:r[2], r[1]:r[3]]
        ids = np.unique(inner)
        if len(ids) > 1 and sum(size[v] for v in ids) == inner.size:
            out.append(r)
    return out


def run(rng, mon, k, kind):
    x, y, z, kw, ex, ey, cx, cy = [pinned, free][kind](rng, k)
    miss, spec, clean = G.masks(x, y, cx, cy)
    if clean.sum() < 10 or (k == 0 and len(np.unique(z[clean])) < 2):
        return
    div = str(rng.choice(DIVS)) if k == 0 else None
    xc, yc, zc = x[clean], y[clean], z[clean]
    ref = None
    if kind == 0:
        ref = Ref(k, xc, yc, zc, ex, ey, div)
    coarse = ref or Ref(k, xc, yc, zc, [np.median(xc)], [np.median(yc)], div)
    c = constraints(rng, k, coarse, len(x))
    gamma = float(rng.choice([.01, .5, 5])) if rng.random() < .15 else 0
    solver = str(rng.choice(["cp", "cp", "mip"]))
    a = dict(kw, **c)
    if k == 0:
        a["divergence"] = div
    if gamma:
        a["gamma"] = gamma
    a["solver"] = solver
    cart = not gamma and rng.random() < .12
    if cart:
        # the candidates are the rectangles of at least two leaves of a tree
        a["strategy"] = "cart"
    if rng.random() < .15:
        a["n_jobs"] = int(rng.integers(2, 5))
        mon.seen("n_jobs")
    o = G.make(k, a)
    o.fit(x, y, z)
    tag = "{} {} m={} clean={}".format(type(o).__name__, a, len(x),
                                       clean.sum())
    status = o.status
    mon.seen("status_" + str(status))
    sols = None
    if kind == 0:
        allowed = [r for r in ref.rects if ref.rect_ok(r, c, len(x))]
        sols = G.tilings(ref.m, ref.n, allowed, 80000)
        if cart and sols is not None:
            allowed = leaves(o, ref, allowed)
            sols = None if allowed is None else G.tilings(
                ref.m, ref.n, allowed, 80000)
    eps = 1e-9 if k == 0 else 1e-9 * (1 + np.abs(zc).max())
    core.hasty(mon, status)
    if status not in ("OPTIMAL", "FEASIBLE"):
        if sols is not None and status == "INFEASIBLE":
            f = [t for t in sols if ref.tiles_ok(t, c, eps)]
            mon.check(not f, "infeasible_but_feasible",
                      lambda: "{} e.g. {}".format(tag, f[:1]))
            mon.seen("infeasible_confirmed")
        return
    # --- the displayed rectangles on the grid
    sx, sy = o.splits
    if kind == 1:
        ex = np.array(sorted({q for s in sx for q in s if np.isfinite(q)}))
        ey = np.array(sorted({q for s in sy for q in s if np.isfinite(q)}))
        ref = Ref(k, xc, yc, zc, ex, ey, div)
        if ref.m * ref.n <= 12:
            sols = G.tilings(ref.m, ref.n, [
                r for r in ref.rects if ref.rect_ok(r, c, len(x))], 20000)
    e0, e1 = np.r_[-np.inf, ex, np.inf], np.r_[-np.inf, ey, np.inf]
    tiles = []
    for p, q in zip(sx, sy):
        if not mon.check(set(p) <= set(e0) and set(q) <= set(e1), "grid_edge",
                         lambda: "{} {} {} not on {} {}".format(
                             tag, sx, sy, ex, ey)):
            return
        tiles.append((int(np.flatnonzero(e1 == q[0])[0]),
                      int(np.flatnonzero(e0 == p[0])[0]),
                      int(np.flatnonzero(e1 == q[1])[-1]),
                      int(np.flatnonzero(e0 == p[1])[-1])))
    cover = np.zeros((ref.m, ref.n), int)
    for t in tiles:
        cover[t[0]:t[2], t[1]:t[3]] += 1
    if not mon.check((cover == 1).all(), "tiling", tag):
        return
    # --- constraints
    bad = [t for t in tiles if not ref.rect_ok(t, c, len(x))]
    if not mon.check(not bad, "constraint:bin", lambda: "{} {} {}".format(
            tag, bad, [ref.rects.get(t) for t in bad])):
        return
    if not mon.check(ref.tiles_ok(tiles, c, -eps), "constraint:bins_or_trend",
                     lambda: "{} {} {}".format(tag, tiles, [
                         ref.rects[t] for t in tiles])):
        return
    mon.seen("fit%d%d" % (k, kind))
    for q in c:
        mon.seen("c:" + q)
    if cart:
        mon.seen("cart%d" % k)
        for q in c:
            mon.seen("cart:" + q)
        if kind or sols is None:
            return
        mon.seen("cart optimal")
    if status != "OPTIMAL":
        return
    # --- optimality
    if sols is None:
        return
    got = ref.objective(tiles)
    tol = 1e-6 * (len(tiles) + 1) + 1e-6 * abs(got) + (
        1e-6 * ref.m * ref.n)
    good = 0
    g0 = ref.spread(tiles)
    for t in sols:
        f = ref.objective(t)
        if f <= got + tol and not (gamma and f >= got - tol):
            good += 1
            continue
        if not ref.tiles_ok(t, c, eps):
            continue
        good += 1
        if gamma:
            g = ref.spread(t)
            dom = f > got + tol and g <= g0 or f >= got + tol and g < g0
            if not mon.check(not dom, "dominated", lambda: "{} {} ({}, {}) "
                             "dominated by {} ({}, {})".format(
                                 tag, tiles, got, g0, t, f, g)):
                break
        else:
            mon.fail("not_optimal", "{} {} has {} but {} has {}".format(
                tag, tiles, got, t, f))
            break
    mon.evals += 1
    mon.seen("optimal%d" % kind)
    mon.seen("tilings", len(sols))
    # --- the other solver
    if rng.random() < .4 and not gamma and not core.HURRY and not cart:
        o2 = G.make(k, dict(a, solver="mip" if solver == "cp" else "cp"))
        o2.fit(x, y, z)
        if mon.check(o2.status == status, "solver_status", lambda: "{} {} {}"
                     .format(tag, status, o2.status)):
            v = []
            for q in (o, o2):
                t = q.binning_table.build()
                n = len(q.splits[0])
                if k == 0:
                    v.append(sum(
                        ref._part(ne, e, len(zc) - zc.sum(), zc.sum())
                        for ne, e in zip(t["Non-event"][:n], t["Event"][:n])))
                else:
                    v.append(np.abs(t["Mean"].iloc[:n].astype(float) -
                                    zc.mean()).sum())
            mon.check(abs(v[0] - v[1]) <= 2 * tol, "solver_objective",
                      lambda: "{} {}".format(tag, v))
            mon.seen("two_solvers")
    if len(sols) > 1:
        mon.sig(k, kind, ref.m, ref.n, solver, sorted(c), bool(gamma),
                len(tiles))
    mon.sample(tag[:250])


FAMILIES = {
    "binary": (lambda r, m: run(r, m, 0, 0), 4500, 30000),
    "continuous": (lambda r, m: run(r, m, 1, 0), 3000, 20000),
    "binary_free": (lambda r, m: run(r, m, 0, 1), 1050, 7000),
    "continuous_free": (lambda r, m: run(r, m, 1, 1), 1050, 7000),
    "hurried": (core.hurried(
        lambda r, m: run(r, m, int(r.integers(2)), int(r.random() < .3))),
        600, 4000)}
REQUIRED = {"cart0": 30, "cart1": 30, "fit00": 200, "fit10": 150, "fit01": 40, "fit11": 40,
            "optimal0": 250, "optimal1": 40, "infeasible_confirmed": 10,
            "two_solvers": 60, "hurried:FEASIBLE": 80, "hurried:UNKNOWN": 20}
