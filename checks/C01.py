"""C01: continuous target, constraints and optimality by enumeration."""
import numpy as np

from vlib import binary as B
from vlib import cont as C
from vlib import core, seg

PROP = "C01"
RULE = ("distinct = (trend, active constraints, gamma, #pre-bins, #bins, "
        "status); non-trivial when a constraint or trend is active or several "
        "mergings compete")
ASSUMPTIONS = ["means are compared up to 3e-6 (the CP model truncates to "
               "1e-6), targets between 1e-1 and 1e3 in magnitude",
               "concave/convex is enforced for every triple of bins",
               "the heuristic trends are checked for feasibility only"]


def setup(rng, nmax):
    n = int(rng.integers(2, nmax + 1))
    d = C.pinned(rng, n)
    x, y = C.clean(d)
    groups = C.stats_of(x, y, d["splits"])
    c = C.constraints(rng, groups, len(d["x"]))
    trend = C.TRENDS[rng.integers(len(C.TRENDS))]
    kw = dict(monotonic_trend=trend)
    if rng.random() < .25:
        kw["gamma"] = float(rng.choice([.1, .5, 2.]))
    order = rng.permutation(n - 1) if rng.random() < .3 else np.arange(n - 1)
    us = d["splits"][order]
    kw["user_splits"] = us.tolist() if rng.random() < .5 else us
    fx = []
    if rng.random() < .2:
        f = rng.random(n - 1) < rng.choice([.2, .5])
        fx = [int(i) + 1 for i in np.flatnonzero(f)]
        kw["user_splits_fixed"] = [bool(v) for v in f[order]]
    if d["codes"] is not None:
        kw["special_codes"] = d["codes"]
    return d, groups, c, kw, trend, fx


def feasible(mon, optb, groups, c, n_samples, trend, cuts, fx, tag):
    k = len(groups)
    st = optb.status
    none = core.hasty(mon, st)
    mon.check(st in ("OPTIMAL", "FEASIBLE", "INFEASIBLE") or none,
              "status:" + st, tag)
    if st == "INFEASIBLE" or none:
        mon.seen("infeasible")
        mon.check(k == 1, "infeasible_not_single", tag)
        return
    bad = C.violated(groups, c, cuts, n_samples, False, None, fx)
    mean = [g.mean() for g in groups]
    if not any(seg.ok_margin(seg.trend_margin(mean, t), False)
               for t in B.shapes(trend)):
        bad.append("monotonic:" + str(trend))
    for b in bad:
        mon.fail("constraint:" + b.split(":")[0],
                 "{} means={} sizes={}".format(
                     tag, mean, [len(g) for g in groups]))
    mon.evals += 1
    mon.seen("feasible")
    if k > 1:
        mon.seen("multi_bin")
    for name in c:
        mon.seen("active:" + name)
    if trend:
        mon.seen("trend:" + trend)


def brute(rng, mon):
    d, groups, c, kw, trend, fx = setup(rng, 8)
    one(rng, mon, d, groups, c, kw, trend, fx, True)


def large(rng, mon):
    d, groups, c, kw, trend, fx = setup(rng, 14)
    if c.get("max_pvalue_policy") == "all":
        c["max_pvalue_policy"] = "consecutive"
    one(rng, mon, d, groups, c, kw, trend, fx, len(groups) <= 10)


def one(rng, mon, d, groups, c, kw, trend, fx, enum):
    n = d["n"]
    tag = "{} c={} fixed={}".format({k: v for k, v in kw.items()
                                     if k != "user_splits"}, c, fx)
    mon.sample(tag)
    optb = C.fit(d["x"], d["y"], **kw, **c)
    cuts = B.cuts_of(optb.splits, d["splits"])
    if not mon.check(cuts is not None, "split_not_in_user_splits", tag):
        return
    got = C.merged(groups, cuts)
    N = len(d["x"])
    feasible(mon, optb, got, c, N, trend, cuts, fx, tag)
    mon.sig(trend, sorted(c), kw.get("gamma"), n, len(got), optb.status)
    if not enum or (trend and "heuristic" in trend):
        return
    if all(abs(np.concatenate(groups).mean() - g.mean()) < 1e-9
           for g in groups):
        return
    gamma = kw.get("gamma", 0)
    total = sum(len(g) for g in groups)
    ref = {}
    for t in B.shapes(trend):
        tt = {"concave": "concave_all", "convex": "convex_all"}.get(t, t)
        ref[t] = C.best(groups, c, N, gamma, tt, fx)
    label = str(trend) + (":gamma" if gamma else "")
    info = lambda: "{} cuts={} ref={} sizes={} means={}".format(
        tag, cuts, ref, [len(g) for g in groups],
        [float(g.mean()) for g in groups])
    if optb.status == "INFEASIBLE":
        if all(v[2] > 0 for v in ref.values()):
            mon.fail("infeasible_but_feasible:" + label, info)
        mon.evals += 1
        return
    if optb.status != "OPTIMAL":
        return
    if len(ref) == 1 and list(ref.values())[0][3] == 0:
        mon.fail("optimal_but_infeasible:" + label, info)
        return
    v = C.objective(got, gamma, total, np.concatenate(groups).mean())
    gap = min((r[0] - v if r[2] else 0.) for r in ref.values())
    tol = 2e-6 * (n + 2) + (1e-6 * total if gamma else 0)
    mon.check(gap <= tol, "suboptimal:" + label, info)
    mon.seen("optimal_compared")
    if len(cuts) < n - 1:
        mon.seen("merged")


def tight(rng, mon):
    """Constraints placed exactly at what the best merging attains (or one
    short of it)."""
    d, groups, c, kw, trend, fx = setup(rng, 9)
    kw.pop("user_splits_fixed", None)
    if trend and ("auto" in trend or "heuristic" in trend):
        kw["monotonic_trend"] = trend = None
    tt = {"concave": "concave_all", "convex": "convex_all"}.get(trend, trend)
    arg = C.best(groups, {}, len(d["x"]), kw.get("gamma", 0), tt, [])[1]
    if arg is None:
        return
    size = np.array([len(g) for g in C.merged(groups, arg)])
    off = int(rng.random() < .35)
    c = B.tight(rng, size, len(d["x"]), off=off)
    mon.seen("tight_" + ("missed" if off else "met"))
    one(rng, mon, d, groups, c, kw, trend, [], True)


def auto_prebins(rng, mon):
    m = int(rng.integers(40, 500))
    x = {0: lambda: rng.normal(0, 10, m), 1: lambda: rng.exponential(5, m),
         2: lambda: rng.integers(0, 25, m).astype(float)}[
             int(rng.integers(3))]()
    z = (x - x.mean()) / (x.std() + 1e-9)
    y = [z, -z, -z ** 2, z ** 2, np.sin(2 * z)][int(rng.integers(5))] * \
        rng.choice([.3, 1, 10]) + rng.normal(0, rng.choice([.1, 1]), m) + \
        rng.choice([0, -5, 5])
    codes = None
    if rng.random() < .4:
        x[rng.random(m) < .05] = np.nan
    if rng.random() < .3:
        codes = [-777.0]
        x[rng.random(m) < .05] = -777.0
    d = dict(x=x, y=y, codes=codes)
    trend = C.TRENDS[rng.integers(len(C.TRENDS))]
    kw = dict(monotonic_trend=trend, max_n_prebins=int(rng.integers(2, 11)),
              prebinning_method=str(rng.choice(["cart", "quantile",
                                                "uniform"])),
              min_prebin_size=float(rng.choice([.02, .05, .1])))
    if codes:
        kw["special_codes"] = codes
    xc, yc = C.clean(d)
    q = np.unique(np.quantile(xc, np.linspace(0, 1, 6)[1:-1]))
    g0 = [g for g in C.stats_of(xc, yc, q) if len(g)]
    c = C.constraints(rng, g0, m)
    if c.get("min_n_bins", 0) > 3:
        c["min_n_bins"] = 2
        if "max_n_bins" in c:
            c["max_n_bins"] = max(c["max_n_bins"], 2)
    if rng.random() < .3:
        kw["split_digits"] = int(rng.integers(0, 4))
    tag = "auto {} c={}".format(kw, c)
    optb = C.fit(x, y, **kw, **c)
    got = C.stats_of(xc, yc, optb.splits)
    mon.check(all(len(g) for g in got), "empty_bin", tag)
    if len(got) == 1 and optb.status != "INFEASIBLE":
        return
    if all(len(g) for g in got):
        feasible(mon, optb, got, c, m, trend, tuple(range(1, len(got))), [],
                 tag)
    mon.sig("auto", trend, sorted(c), len(got), optb.status)


FAMILIES = {"brute": (brute, 2000, 40000), "large": (large, 400, 8000),
            "tight": (tight, 1000, 15000),
            "auto": (auto_prebins, 600, 10000),
            "hurried": (core.hurried(large), 400, 6000),
            "hurried_auto": (core.hurried(auto_prebins), 150, 3000)}
REQUIRED = {"optimal_compared": 300, "infeasible": 30, "multi_bin": 400,
            "active:max_pvalue": 50, "active:min_mean_diff": 50,
            "merged": 100, "tight_met": 150, "tight_missed": 80,
            "hurried:FEASIBLE": 80, "hurried:UNKNOWN": 20}
