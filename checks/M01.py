"""M01: multiclass, constraints and optimality by enumeration."""
import numpy as np

from vlib import binary as B
from vlib import multi as M
from vlib import core, seg

PROP = "M01"
RULE = ("distinct = (solver, trend request, active constraints, #classes, "
        "#pre-bins, #bins, status); non-trivial when a constraint or trend is "
        "active or several mergings compete")
ASSUMPTIONS = ["every class occurs in every pre-bin of the pinned family",
               "rates are compared up to 3e-6 (the CP model truncates)",
               "heuristic trends are checked for feasibility only"]


def setup(rng, nmax, cmax):
    n, k = int(rng.integers(2, nmax + 1)), int(rng.integers(3, cmax + 1))
    d = M.pinned(rng, n, k)
    size = d["N"].sum(axis=1)
    c = B.constraints(rng, size - d["N"][:, 0], d["N"][:, 0], len(d["x"]))
    for q in [q for q in c if q.endswith("event")]:
        del c[q]
    if rng.random() < .4:
        trends = [M.LIST_TRENDS[i] for i in rng.integers(
            0, len(M.LIST_TRENDS), k)]
    else:
        trends = [None, "auto", "auto_asc_desc",
                  "auto_heuristic"][rng.integers(4)]
    kw = dict(monotonic_trend=trends, solver=str(rng.choice(["cp", "mip"])))
    if kw["solver"] == "mip":
        kw["mip_solver"] = str(rng.choice(["bop", "cbc"]))
    order = rng.permutation(n - 1) if rng.random() < .3 else np.arange(n - 1)
    us = d["splits"][order]
    kw["user_splits"] = us.tolist() if rng.random() < .5 else us
    fx = []
    if rng.random() < .2:
        f = rng.random(n - 1) < rng.choice([.2, .5])
        fx = [int(i) + 1 for i in np.flatnonzero(f)]
        kw["user_splits_fixed"] = [bool(v) for v in f[order]]
    if d["codes"] is not None:
        kw["special_codes"] = d["codes"]
    return d, c, kw, trends, fx


def feasible(mon, optb, N, c, n_samples, trends, cuts, fx, tag):
    st = optb.status
    none = core.hasty(mon, st)
    mon.check(st in ("OPTIMAL", "FEASIBLE", "INFEASIBLE") or none,
              "status:" + st, tag)
    if st == "INFEASIBLE" or none:
        mon.seen("infeasible")
        mon.check(len(N) == 1, "infeasible_not_single", tag)
        return
    for b in M.violated(N, c, cuts, n_samples, False, None, fx):
        mon.fail("constraint:" + b, lambda: "{} {}".format(tag, N.tolist()))
    t = M.allowed(N, trends, False)
    mon.check(t is False, "constraint:monotonic:" + str(t),
              lambda: "{} {}".format(tag, N.tolist()))
    mon.seen("feasible")
    if len(N) > 1:
        mon.seen("multi_bin")
    for name in c:
        mon.seen("active:" + name)
    for q in trends if isinstance(trends, list) else [trends]:
        if q:
            mon.seen("trend:" + q)


def one(rng, mon, d, c, kw, trends, fx, enum):
    n, N, ns = d["n"], d["N"], len(d["x"])
    tag = "{} c={} fixed={}".format({q: v for q, v in kw.items()
                                     if q != "user_splits"}, c, fx)
    mon.sample(tag)
    optb = M.fit(d["x"], d["y"], **kw, **c)
    cuts = B.cuts_of(optb.splits, d["splits"])
    if not mon.check(cuts is not None, "split_not_in_user_splits", tag):
        return
    got = seg.merge(N, cuts)
    feasible(mon, optb, got, c, ns, trends, cuts, fx, tag)
    mon.sig(kw["solver"], trends, sorted(c), d["k"], n, len(got), optb.status)
    flat = trends if isinstance(trends, list) else [trends]
    if not enum or any(t and "heuristic" in t for t in flat if
                       isinstance(trends, list)):
        return
    seg.EXACT_TIES = kw["solver"] == "cp"
    refs = M.references(N, c, ns, trends, fx)
    label = kw["solver"] + ":" + (
        "list" if isinstance(trends, list) else str(trends))
    info = lambda: "{} cuts={} ref={} N={}".format(tag, cuts, refs[:6],
                                                   N.tolist())
    if optb.status == "INFEASIBLE":
        mon.check(not all(r[2] > 0 for r in refs),
                  "infeasible_but_feasible:" + label, info)
        return
    if optb.status != "OPTIMAL":
        return
    if len(refs) == 1 and refs[0][3] == 0:
        mon.fail("optimal_but_infeasible:" + label, info)
        return
    v = M.objective(got)
    gap = min((r[0] - v if r[2] else 0.) for r in refs)
    mon.check(gap <= 2e-6 * d["k"] * (n + 2), "suboptimal:" + label, info)
    mon.seen("optimal_compared")
    if len(cuts) < n - 1:
        mon.seen("merged")


def brute(rng, mon):
    one(rng, mon, *setup(rng, 6, 4), True)


def tight(rng, mon):
    """Constraints placed exactly at what the best merging attains (or one
    short of it)."""
    d, c, kw, trends, fx = setup(rng, 6, 4)
    kw.pop("user_splits_fixed", None)
    if not isinstance(trends, list) or any(t and "heuristic" in t or
                                           t and "auto" in t for t in trends):
        kw["monotonic_trend"] = trends = None
    seg.EXACT_TIES = kw["solver"] == "cp"
    refs = M.references(d["N"], {}, len(d["x"]), trends, [])
    if refs[0][1] is None:
        return
    off = int(rng.random() < .35)
    c = B.tight(rng, seg.merge(d["N"], refs[0][1]).sum(axis=1), len(d["x"]),
                off=off)
    mon.seen("tight_" + ("missed" if off else "met"))
    one(rng, mon, d, c, kw, trends, [], True)


def large(rng, mon):
    d, c, kw, trends, fx = setup(rng, 12, 6)
    one(rng, mon, d, c, kw, trends, fx, trends is None and d["n"] <= 9)


def solvers(rng, mon):
    d, c, kw, trends, fx = setup(rng, 6, 4)
    if isinstance(trends, list) and any(t and "heuristic" in t
                                        for t in trends):
        return
    res = []
    for s in ("cp", "mip"):
        kw["solver"] = s
        o = M.fit(d["x"], d["y"], **kw, **c)
        cuts = B.cuts_of(o.splits, d["splits"])
        res.append((o.status, cuts, M.objective(seg.merge(d["N"], cuts))))
    tag = "{} c={} {} N={}".format(kw, c, res, d["N"].tolist())
    seg.EXACT_TIES = False
    if all(r[0] == "OPTIMAL" for r in res):
        gap = abs(res[0][2] - res[1][2])
        if gap > 2e-6 * d["k"] * (d["n"] + 2):
            # tolerate a tie of the constraints within the truncation
            w = res[int(res[1][2] > res[0][2])]
            m = seg.merge(d["N"], w[1])
            ok = any(not M.violated(m, c, w[1], len(d["x"]), True, [
                M.ENUM.get(t, t) for t in co], fx) for co in M.combos(trends, d["k"]))
            mon.check(not ok, "solvers_disagree", tag)
        mon.seen("solver_pairs")


def auto_prebins(rng, mon):
    m, k = int(rng.integers(60, 600)), int(rng.integers(3, 5))
    x = {0: lambda: rng.normal(0, 10, m), 1: lambda: rng.exponential(5, m),
         2: lambda: rng.integers(0, 25, m).astype(float)}[
             int(rng.integers(3))]()
    z = (x - x.mean()) / (x.std() + 1e-9)
    lg = np.stack([np.sin(z * rng.uniform(.2, 2) + i) * rng.uniform(0, 2)
                   for i in range(k)], axis=1) + rng.gumbel(size=(m, k))
    y = lg.argmax(axis=1)
    codes = None
    if rng.random() < .4:
        x[rng.random(m) < .05] = np.nan
    if rng.random() < .3:
        codes = [-777.0]
        x[rng.random(m) < .05] = -777.0
    cl = ~np.isnan(x)
    if codes:
        cl &= ~np.isin(x, codes)
    if len(np.unique(y[cl])) < len(np.unique(y)) or len(np.unique(y)) < 3:
        return
    trends = ([None, "auto", "auto_asc_desc", "auto_heuristic"][
        rng.integers(4)] if rng.random() < .6 else
        [M.LIST_TRENDS[i] for i in rng.integers(0, len(M.LIST_TRENDS),
                                                len(np.unique(y)))])
    kw = dict(monotonic_trend=trends, max_n_prebins=int(rng.integers(2, 11)),
              prebinning_method=str(rng.choice(["cart", "quantile",
                                                "uniform"])),
              min_prebin_size=float(rng.choice([.02, .05, .1])),
              solver=str(rng.choice(["cp", "mip"])))
    if codes:
        kw["special_codes"] = codes
    c = {}
    if rng.random() < .3:
        c["max_n_bins"] = int(rng.integers(1, 6))
    if rng.random() < .3:
        c["min_bin_size"] = float(rng.choice([.05, .1, .2]))
    if rng.random() < .3:
        c["min_event_rate_diff"] = .05
    if rng.random() < .3:
        c["max_pvalue"] = .05
    if rng.random() < .3:
        kw["split_digits"] = int(rng.integers(0, 4))
    tag = "auto {} c={}".format(kw, c)
    optb = M.fit(x, y, **kw, **c)
    idx = np.searchsorted(optb.splits, x[cl], side="right")
    labs = np.unique(y)
    N = np.array([[((idx == i) & (y[cl] == q)).sum() for q in labs]
                  for i in range(len(optb.splits) + 1)])
    mon.check((N.sum(axis=1) > 0).all(), "empty_bin", tag)
    if len(N) > 1:
        feasible(mon, optb, N, c, m, trends, (), [], tag)
    mon.sig("auto", trends, sorted(c), len(N), optb.status)


FAMILIES = {"brute": (brute, 3200, 30000), "large": (large, 600, 6000),
            "tight": (tight, 1600, 12000),
            "solvers": (solvers, 1000, 8000), "auto": (auto_prebins, 1000, 8000),
            "hurried": (core.hurried(large), 600, 6000),
            "hurried_auto": (core.hurried(auto_prebins), 240, 3000)}
REQUIRED = {"optimal_compared": 200, "infeasible": 20, "multi_bin": 300,
            "solver_pairs": 60, "active:min_bin_size": 50, "merged": 80,
            "trend:concave": 20, "trend:peak_heuristic": 20,
            "tight_met": 120, "tight_missed": 60,
            "hurried:FEASIBLE": 80, "hurried:UNKNOWN": 20}
