"""U01: scenario-based binning is feasible and optimal in every scenario."""
import numpy as np
from optbinning.binning.uncertainty import SBOptimalBinning

from vlib import anyfit as A
from vlib import binary as B
from vlib import core, gen, seg

PROP = "U01"
RULE = ("distinct = (family, #scenarios, #pre-bins, trend, constraint set, "
        "weights kind, fixed?, #bins); non-trivial when the scenarios' own "
        "event rates differ and at least two bins result")
ASSUMPTIONS = [
    "bin sizes are fractions of each scenario's own number of records",
    "the peak/valley change point is common to all scenarios",
    "weights matter up to a relative precision of 1e-4",
    "mergings whose feasibility hinges on rate differences below 3e-6 are "
    "not used as competitors"]
TRENDS = [None, None, "ascending", "descending", "peak", "valley", "concave",
          "convex"]


def common_margin(rates, trend):
    if trend in ("peak", "valley"):
        up, down = ("ascending", "descending") if trend == "peak" else \
            ("descending", "ascending")
        b = len(rates[0])
        return max(min(min(
            seg.trend_margin(r[:k], up) if k else np.inf,
            seg.trend_margin(r[k:], down) if k < b else np.inf)
            for r in rates) for k in range(b + 1))
    t = {"concave": "concave_all", "convex": "convex_all"}.get(trend, trend)
    return min(seg.trend_margin(r, t) for r in rates)


def feasible(NE, E, cuts, c, ns, trend, fixed, strict):
    rates = []
    for s in range(NE.shape[1]):
        ne, e = seg.merge(NE[:, s], cuts), seg.merge(E[:, s], cuts)
        own = None if strict or trend is None else trend
        bad = seg.binary_constraints(ne, e, cuts, c, ns[s], strict, own,
                                     fixed)
        if bad:
            return bad
        rates.append(e / (ne + e))
    if strict and trend is not None and not seg.ok_margin(
            common_margin(rates, trend), True):
        return ["trend"]
    return []


def value(NE, E, cuts, w):
    return sum(w[s] * seg.divergence("iv", seg.merge(NE[:, s], cuts),
                                     seg.merge(E[:, s], cuts))
               for s in range(NE.shape[1]))


def weights(rng, S):
    k = str(rng.choice(["none", "equal", "fraction", "int", "mixed"]))
    w = {"none": None, "equal": np.full(S, 1 / S),
         "fraction": rng.dirichlet(np.full(S, .7)) + .01,
         "int": rng.integers(1, 6, S), "mixed": rng.uniform(.3, 30, S)}[k]
    if w is not None and rng.random() < .5:
        w = w.tolist()
    return k, w


def with_tail(rng, x, y, codes):
    m = int(rng.integers(0, 12)) if rng.random() < .6 else 0
    x, y = np.r_[x, np.full(m, np.nan)], np.r_[y, rng.integers(0, 2, m)]
    if codes:
        m = int(rng.integers(0, 10))
        x = np.r_[x, rng.choice(codes, m)]
        y = np.r_[y, rng.integers(0, 2, m)]
    p = rng.permutation(len(x))
    return x[p], y[p]


def table(mon, tag, t, NE, E, n):
    """recount of one displayed table: rows = bins, special, missing"""
    ne, e = np.array(NE), np.array(E)
    cnt = ne + e
    mon.check(t["Event"].tolist() == e.tolist() + [e.sum()] and
              t["Non-event"].tolist() == ne.tolist() + [ne.sum()] and
              t["Count"].tolist() == cnt.tolist() + [cnt.sum()], "counts",
              lambda: "{}\n{}\n{} {}".format(tag, t, ne, e))
    mon.close(t["Count (%)"].astype(float), np.r_[cnt / cnt.sum(), 1],
              "count_pct", tag)
    ok = (e > 0) & (ne > 0)
    er, woe, iv, js = np.zeros((4, len(e)))
    er[ok] = e[ok] / cnt[ok]
    p, q = e[ok] / e.sum(), ne[ok] / ne.sum()
    woe[ok] = np.log(q / p)
    iv[ok] = (p - q) * np.log(p / q)
    h = (p + q) / 2
    js[ok] = (p * np.log(p / h) + q * np.log(q / h)) / 2
    mon.close(t["Event rate"].astype(float), np.r_[er, e.sum() / cnt.sum()],
              "event_rate", tag)
    mon.close(t["WoE"].iloc[:-1].astype(float), woe, "woe", tag)
    mon.close(t["IV"].astype(float), np.r_[iv, iv.sum()], "iv", tag)
    mon.close(t["JS"].astype(float), np.r_[js, js.sum()], "js", tag)
    return er, woe


def observe(rng, mon, o, X, Y, codes, tag):
    """tables of every scenario, aggregate table and transform"""
    s = np.asarray(o.splits, float)
    rows = [("Special", codes)]
    n = len(s) + 1
    tot = np.zeros((2, n + 2), int)
    for k, (x, y) in enumerate(zip(X, Y)):
        r, _ = A.row_of(x, "numerical", s, None, rows)
        ne, e = (np.bincount(r[y == v], minlength=n + 2) for v in (0, 1))
        tot += [ne, e]
        t = o.binning_table_scenario(k).build()
        if not mon.check(len(t) == n + 3, "rows", tag):
            return
        table(mon, "{} scenario {}".format(tag, k), t, ne, e, n)
    t = o.binning_table.build()
    er, woe = table(mon, tag + " aggregate", t, tot[0], tot[1], n)
    allx = np.concatenate(X)
    clean = allx[~np.isnan(allx) & ~np.isin(allx, codes)]
    v = np.r_[rng.choice(allx, 60), s, np.nextafter(s, -np.inf),
              clean.min() - 1, clean.max() + 1, codes, np.nan]
    r, _ = A.row_of(v, "numerical", s, None, rows)
    labels = t["Bin"].tolist()
    for metric, val in (("woe", woe), ("event_rate", er),
                        ("indices", np.arange(n + 2)), ("bins", None)):
        ms = [0, "empirical", -1.5, .25, 1][rng.integers(5)]
        mm = [0, "empirical", 2.5, .6, np.nan][rng.integers(5)]
        g = o.transform(v, metric=metric, metric_special=ms,
                        metric_missing=mm)
        if metric == "bins":
            ok = np.array([a == labels[b] for a, b in zip(g, r)])
        else:
            exp = np.asarray(val, float)[r]
            for j, m in ((n, ms), (n + 1, mm)):
                if m != "empirical" and not (metric == "indices" and
                                             not isinstance(m, int)):
                    exp[r == j] = m
            ok = np.isclose(g, exp, atol=1e-9, equal_nan=True)
        mon.check(ok.all(), "transform:" + metric, lambda: "{} {} {} "
                  "{}".format(tag, ms, mm, list(zip(v[~ok], g[~ok]))[:5]))
    mon.seen("tables", len(X) + 1)


def pinned(rng, mon):
    S = int(rng.integers(2, 5))
    n = int(rng.integers(2, 8))
    c0, X, Y, NE, E = None, [], [], [], []
    codes = [-9999., -8888.][:int(rng.integers(1, 3))] \
        if rng.random() < .4 else []
    kind = str(rng.choice(["asc", "desc", "peak", "valley", "random"]))
    splits = np.arange(1., n) * float(rng.choice([1, .37, 50]))
    step = splits[0]
    for s in range(S):
        ne, e, _ = gen.bin_counts(rng, n, 4, int(rng.choice([25, 90])),
                                  kind if rng.random() < .75 else None)
        x = np.concatenate([(np.arange(n)[i] + rng.random(a) * .98) * step
                            for i, a in enumerate(ne + e)])
        for q in splits:                   # some records on the edges
            if rng.random() < .5:
                i = int(round(q / step))
                j = np.flatnonzero((x >= q) & (x < (i + 1) * step * .98))
                if len(j):
                    x[j[0]] = q
        y = np.concatenate([rng.permutation(np.r_[np.zeros(a), np.ones(b)])
                            for a, b in zip(ne, e)]).astype(int)
        # what the pre-bins really hold
        r = np.searchsorted(splits, x, side="right")
        NE.append(np.bincount(r[y == 0], minlength=n))
        E.append(np.bincount(r[y == 1], minlength=n))
        x, y = with_tail(rng, x, y, codes)
        X.append(x)
        Y.append(y)
    NE, E = np.array(NE).T, np.array(E).T
    if (NE == 0).any() or (E == 0).any():
        return
    ns = [len(x) for x in X]
    trend = TRENDS[rng.integers(len(TRENDS))]
    c = {}
    if rng.random() < .7:
        k = int(rng.integers(S))
        if rng.random() < .5:
            cuts = list(seg.all_cuts(n))
            cuts = cuts[rng.integers(len(cuts))]
            c = B.tight(rng, seg.merge(NE[:, k] + E[:, k], cuts), ns[k],
                        None, None, int(rng.integers(2)))
        else:
            c = B.constraints(rng, NE[:, k], E[:, k], ns[k])
        c = {a: b for a, b in c.items() if "_n_event" not in a and
             "_n_nonevent" not in a}
    wk, w = weights(rng, S)
    perm = rng.permutation(n - 1)
    kw = dict(user_splits=splits[perm] if rng.random() < .5 else
              splits[perm].tolist(), monotonic_trend=trend, **c)
    fixed = ()
    if rng.random() < .3:
        f = rng.random(n - 1) < .3
        kw["user_splits_fixed"] = f[perm].tolist()
        fixed = tuple(int(i) + 1 for i in np.flatnonzero(f))
    if codes:
        kw["special_codes"] = codes
    o = SBOptimalBinning(**kw)
    X0, Y0 = [x.copy() for x in X], [y.copy() for y in Y]
    o.fit(X, Y, weights=w)
    tag = "{} w={} ns={}".format({a: b for a, b in kw.items()
                                  if a != "user_splits"}, w, ns)
    mon.check(all(np.array_equal(a, b, equal_nan=True)
                  for a, b in zip(X0 + Y0, X + Y)), "input_changed", tag)
    seg.EXACT_TIES = True
    ref = [k for k in seg.all_cuts(n)
           if not feasible(NE, E, k, c, ns, trend, fixed, True)]
    data = lambda: " ne={} e={} fixed={}".format(NE.T.tolist(), E.T.tolist(),
                                                 fixed)
    if core.hasty(mon, o.status):
        mon.check(len(o.splits) == 0, "unknown_not_single", tag)
        return
    if o.status == "INFEASIBLE":
        mon.check(not ref, "infeasible_but_feasible", lambda: tag + data())
        mon.seen("infeasible")
        return
    cuts = B.cuts_of(o.splits, splits)
    if not mon.check(cuts is not None, "split_not_in_user_splits", tag):
        return
    bad = feasible(NE, E, cuts, c, ns, trend, fixed, False)
    mon.check(not bad, "constraint:" + ",".join(bad), lambda: "{} {} {}"
              .format(tag, cuts, data()))
    if o.status == "OPTIMAL":
        ww = np.ones(S) if w is None else np.asarray(w, float)
        ww = ww / ww.max()
        got = value(NE, E, cuts, ww)
        best, arg = max([(value(NE, E, k, ww), k) for k in ref] +
                        [(-1, None)])
        tot = value(NE, E, arg, np.ones(S)) if arg is not None else 0
        mon.check(best <= got + 2e-4 * tot + 2e-6 * (n + 2) * S,
                  "suboptimal:" + str(trend), lambda: "{} {} has {} but {} "
                  "has {}{}".format(tag, cuts, got, arg, best, data()))
        mon.seen("optimal")
        mon.seen("trend_" + str(trend))
        mon.seen("weights_" + wk)
        if fixed:
            mon.seen("fixed")
    observe(rng, mon, o, X, Y, codes, tag)
    if len(cuts):
        mon.sig("pinned", S, n, trend, sorted(c), wk, bool(fixed), len(cuts))
    mon.sample(tag[:250])


def free(rng, mon):
    """automatic pre-binning: feasibility, recount, coarser competitors"""
    S = int(rng.integers(1, 4))
    codes = [-9999., -8888.][:int(rng.integers(1, 3))] \
        if rng.random() < .4 else []
    X, Y = [], []
    style = str(rng.choice(["normal", "exp", "int", "ties", "const", "two",
                            "heavy", "lattice"]))
    f = [np.sin, np.tanh, lambda z: -z, np.abs][rng.integers(4)]
    for s in range(S):
        m = int(rng.integers(40, 300))
        x, _ = A.numeric_x(rng, m, style)
        z = np.clip((x - np.median(x)) / (np.std(x) + 1e-9), -3, 3)
        p = 1 / (1 + np.exp(-f(z) * rng.uniform(.3, 3) - rng.normal(0, .5)))
        y = (rng.random(m) < p).astype(int)
        y[:2] = 0, 1
        x, y = with_tail(rng, x, y, codes)
        X.append(x)
        Y.append(y)
    ns = [len(x) for x in X]
    c = {}
    if rng.random() < .3:
        c["max_n_bins"] = int(rng.integers(1, 5))
    if rng.random() < .3:
        c["min_bin_size"] = float(rng.choice([.05, .1, .25]))
    if rng.random() < .2:
        c["max_pvalue"] = .1
    if rng.random() < .2:
        c["min_event_rate_diff"] = .05
    trend = TRENDS[rng.integers(len(TRENDS))]
    wk, w = weights(rng, S)
    kw = dict(prebinning_method=str(rng.choice(["cart", "quantile",
                                                "uniform"])),
              max_n_prebins=int(rng.integers(2, 10)),
              min_prebin_size=float(rng.choice([.02, .05, .2])),
              monotonic_trend=trend, **c)
    if rng.random() < .2:
        kw["split_digits"] = int(rng.integers(0, 3))
    if codes:
        kw["special_codes"] = codes
    if rng.random() < .2:
        kw["class_weight"] = "balanced"
    o = SBOptimalBinning(**kw)
    tag = "{} {} w={} ns={}".format(style, kw, w, ns)
    x0 = np.concatenate(X)
    a = dict(metric="woe")
    g = o.fit_transform(x0, X, Y, w, metric="woe")
    mon.close(g, o.transform(x0, metric="woe"), "fit_transform", tag)
    if core.hasty(mon, o.status):
        mon.check(len(o.splits) == 0, "unknown_not_single", tag)
        return
    if o.status == "INFEASIBLE":
        mon.seen("infeasible")
        return
    s = np.asarray(o.splits, float)
    mon.check((np.diff(s) > 0).all(), "splits_order", lambda: "{} {}".format(
        tag, s))
    if "split_digits" in kw:
        mon.check(np.array_equal(s, np.round(s, kw["split_digits"])),
                  "split_digits", lambda: "{} {}".format(tag, s))
    NE, E = [], []
    for x, y in zip(X, Y):
        cl = ~np.isnan(x) & ~np.isin(x, codes)
        r = np.searchsorted(s, x[cl], side="right")
        NE.append(np.bincount(r[y[cl] == 0], minlength=len(s) + 1))
        E.append(np.bincount(r[y[cl] == 1], minlength=len(s) + 1))
    NE, E = np.array(NE).T, np.array(E).T
    n = len(s) + 1
    if n > 1:
        mon.check((NE > 0).all() and (E > 0).all(), "pure_bin", lambda:
                  "{} {} {}".format(tag, NE.tolist(), E.tolist()))
        bad = feasible(NE, E, tuple(range(1, n)), c, ns, trend, (), False)
        mon.check(not bad, "constraint:" + ",".join(bad), lambda:
                  "{} {} {}".format(tag, NE.tolist(), E.tolist()))
        if o.status == "OPTIMAL":
            ww = np.ones(S) if w is None else np.asarray(w, float)
            ww = ww / ww.max()
            got = value(NE, E, tuple(range(1, n)), ww)
            for k in seg.all_cuts(n):
                if value(NE, E, k, ww) > got * (1 + 2e-4) + 1e-5 and \
                        not feasible(NE, E, k, c, ns, trend, (), True):
                    mon.fail("coarser_is_better", "{} {}".format(tag, k))
                    break
    else:
        mon.seen("one_bin")
    observe(rng, mon, o, X, Y, codes, tag)
    mon.seen("free")
    if n > 1:
        mon.sig("free", S, style, trend, sorted(c), wk, n)


FAMILIES = {"pinned": (pinned, 3400, 20000), "free": (free, 1530, 10000),
            "hurried": (core.hurried(pinned), 400, 3000),
            "hurried_free": (core.hurried(free), 150, 1500)}
REQUIRED = {"optimal": 300, "infeasible": 20, "free": 150, "one_bin": 10,
            "fixed": 60, "weights_fraction": 60, "weights_mixed": 60,
            "trend_peak": 15, "trend_concave": 15, "tables": 1500,
            "hurried:FEASIBLE": 15, "hurried:UNKNOWN": 15}
