"""B01: whatever a fit returns with status OPTIMAL/FEASIBLE satisfies every
requested constraint, recomputed from the raw data; INFEASIBLE means one bin."""
import numpy as np
import pandas as pd

from vlib import binary as B
from vlib import core, gen, seg

PROP = "B01"
RULE = ("a case counts as non-trivial when a constrained fit returned two or "
        "more bins (or fell back to one) with at least one active constraint; "
        "distinct = (solver, divergence, trend, active constraints, #bins)")
ASSUMPTIONS = ["event rates closer than 3e-6 are treated as equal (the CP "
               "model truncates rates to 1e-6)",
               "bin-size fractions refer to the total number of samples "
               "including missing and special ones"]


def judge(mon, optb, ne, e, c, n_samples, trend, cuts, fx, tag, sig):
    status = optb.status
    k = len(e)
    none = core.hasty(mon, status)
    mon.check(status in ("OPTIMAL", "FEASIBLE", "INFEASIBLE") or none,
              "status:" + str(status), tag)
    if status in ("OPTIMAL", "FEASIBLE"):
        if k == 1 and not fx and sig.get("prebins") == 1:
            return
        bad = seg.binary_constraints(ne, e, cuts, c, n_samples, False, None,
                                     fx)
        rate = e / (ne + e)
        if not any(seg.ok_margin(seg.trend_margin(rate, t), False)
                   for t in B.shapes(trend)):
            bad.append("monotonic:" + str(trend))
        for b in bad:
            mon.fail("constraint:" + b.split(":")[0],
                     "{} {} trend={} ne={} e={} n_samples={} fixed={}".format(
                         tag, c, trend, ne, e, n_samples, fx))
        mon.evals += 1
        mon.seen("feasible_fits")
        if k >= 2:
            mon.seen("multi_bin_fits")
            if trend:
                mon.seen("trend:" + trend)
            for name in c:
                mon.seen("active:" + name)
    else:
        mon.seen("infeasible_fits")
        mon.check(k == 1 and len(optb.splits) == 0, "infeasible_not_single",
                  "{} splits={}".format(tag, optb.splits))
    mon.sig(sig.get("solver"), sig.get("div"), trend, sorted(c), k, status)


def pinned(rng, mon):
    d, c, kw, trend, fx = B.setup(rng, nmax=14, nmin=2)
    tag = "pinned {} c={}".format({k: v for k, v in kw.items()
                                   if k != "user_splits"}, c)
    optb = B.fit(d["x"], d["y"], **kw, **c)
    ne, e = B.counts_by_splits(d["x"], d["y"], optb.splits, d["codes"])
    cuts = B.cuts_of(optb.splits, d["splits"])
    if not mon.check(cuts is not None, "split_not_in_user_splits",
                     "{} {}".format(optb.splits, d["splits"])):
        return
    mon.sample(tag)
    judge(mon, optb, ne, e, c, len(d["x"]), trend, cuts, fx, tag,
          dict(solver=kw["solver"], div=kw["divergence"]))


def pure(rng, mon):
    """Some user pre-bins are pure: they have to be merged away."""
    d, c, kw, trend, fx = B.setup(rng, nmax=10, nmin=3, fixed=False, pure=.3)
    clean_y = np.r_[d["e"].sum(), d["ne"].sum()]
    if not clean_y.all():
        return
    if rng.random() < .5:
        c = {}
    optb = B.fit(d["x"], d["y"], **kw, **c)
    ne, e = B.counts_by_splits(d["x"], d["y"], optb.splits, d["codes"])
    cuts = B.cuts_of(optb.splits, d["splits"])
    tag = "pure {} c={}".format({k: v for k, v in kw.items()
                                 if k != "user_splits"}, c)
    if not mon.check(cuts is not None, "split_not_in_user_splits", tag):
        return
    mon.check((ne > 0).all() and (e > 0).all(), "pure_bin",
              "{} ne={} e={}".format(tag, ne, e))
    mon.seen("pure_fits")
    if len(e) > 1:
        judge(mon, optb, ne, e, c, len(d["x"]), trend, cuts, fx, tag,
              dict(solver=kw["solver"], div=kw["divergence"]))


def tight(rng, mon):
    """Fit without constraints, then ask for limits that the solution just
    misses: the second fit may not return it."""
    d, c, kw, trend, fx = B.setup(rng, nmax=14, nmin=3, fixed=False)
    optb = B.fit(d["x"], d["y"], **kw)
    ne, e = B.counts_by_splits(d["x"], d["y"], optb.splits, d["codes"])
    c = B.tight(rng, ne + e, len(d["x"]), e, ne, 1)
    tag = "tight {} c={}".format({k: v for k, v in kw.items()
                                  if k != "user_splits"}, c)
    optb = B.fit(d["x"], d["y"], **kw, **c)
    ne, e = B.counts_by_splits(d["x"], d["y"], optb.splits, d["codes"])
    cuts = B.cuts_of(optb.splits, d["splits"])
    if mon.check(cuts is not None, "split_not_in_user_splits", tag):
        mon.seen("tight")
        judge(mon, optb, ne, e, c, len(d["x"]), trend, cuts, [], tag,
              dict(solver=kw["solver"], div=kw["divergence"]))


def auto_prebins(rng, mon):
    """Pre-binning by cart/quantile/uniform on unstructured data."""
    m = int(rng.integers(60, 700))
    style = rng.choice(["normal", "exp", "int", "ties"])
    x = {"normal": lambda: rng.normal(0, 10, m),
         "exp": lambda: rng.exponential(5, m),
         "int": lambda: rng.integers(0, 25, m).astype(float),
         "ties": lambda: rng.choice([1., 2, 3, 5, 8, 13, 21], m)}[style]()
    z = (x - x.mean()) / (x.std() + 1e-9)
    f = {0: z, 1: -z, 2: -z ** 2, 3: z ** 2, 4: np.sin(2 * z)}[
        int(rng.integers(5))]
    y = (rng.random(m) < 1 / (1 + np.exp(-rng.choice([.3, 1, 3]) * f -
                                         rng.normal()))).astype(int)
    y[:2] = [0, 1]
    codes = None
    if rng.random() < .4:
        x[rng.random(m) < .05] = np.nan
    if rng.random() < .3:
        codes = [-777.0]
        x[rng.random(m) < .05] = -777.0
    if not (0 < np.nansum(y[~np.isnan(x)]) < (~np.isnan(x)).sum()):
        return
    trend = B.TRENDS[rng.integers(len(B.TRENDS))]
    kw = dict(solver=str(rng.choice(["cp", "mip"])), monotonic_trend=trend,
              divergence=str(rng.choice(["iv", "js", "hellinger",
                                         "triangular"])),
              prebinning_method=str(rng.choice(["cart", "quantile",
                                                "uniform"])),
              max_n_prebins=int(rng.integers(3, 13)),
              min_prebin_size=float(rng.choice([0.02, 0.05, 0.1])))
    if codes:
        kw["special_codes"] = codes
    q = np.quantile(x[~np.isnan(x)], np.linspace(0, 1, 7)[1:-1])
    ne0, e0 = B.counts_by_splits(x, y, np.unique(q), codes)
    c = B.constraints(rng, ne0, e0, m)
    if c.get("min_n_bins", 0) > 4:
        c["min_n_bins"] = 2
    if "max_n_bins" in c:
        c["max_n_bins"] = max(c["max_n_bins"], c.get("min_n_bins", 1))
    optb = B.fit(x, y, **kw, **c)
    ne, e = B.counts_by_splits(x, y, optb.splits, codes)
    prebins = 1 if len(optb.splits) == 0 else 2
    # with a single pre-bin no optimisation takes place
    judge(mon, optb, ne, e, c, m, trend, tuple(range(1, len(e))), [],
          "auto {} c={}".format(kw, c),
          dict(solver=kw["solver"], div=kw["divergence"], prebins=prebins))


def categorical(rng, mon):
    k = int(rng.integers(3, 10))
    ne, e, kind = gen.bin_counts(rng, k, 6, 60)
    x = np.repeat(np.array(["c%02d" % i for i in range(k)], dtype=object),
                  ne + e)
    y = np.concatenate([np.r_[np.zeros(a), np.ones(b)]
                        for a, b in zip(ne, e)]).astype(int)
    p = rng.permutation(len(x))
    x, y = x[p], y[p]
    trend = [None, "ascending", "auto", "descending", "peak"][
        rng.integers(5)]
    kw = dict(dtype="categorical", solver=str(rng.choice(["cp", "mip"])),
              monotonic_trend=trend,
              divergence=str(rng.choice(["iv", "js"])))
    o = np.argsort(e / (ne + e))
    c = B.constraints(rng, ne[o], e[o], len(x))
    if c.get("min_n_bins", 0) > 4:
        c["min_n_bins"] = 2
        c["max_n_bins"] = max(c.get("max_n_bins", 2), 2)
    mode = int(rng.integers(2))
    if mode:
        groups = [[str(g) for g in np.array(["c%02d" % i for i in range(k)])[
            np.arange(i, k, max(2, k // 2))]] for i in range(max(2, k // 2))]
        kw["user_splits"] = np.array([np.array(g, dtype=object)
                                      for g in groups] + [None],
                                     dtype=object)[:-1]
    optb = B.fit(x, y, **kw, **c)
    tb = optb.binning_table.build(show_digits=6)
    rows = tb.iloc[:-3]
    cnt = []
    for cats in rows["Bin"]:
        m = np.isin(x.astype(str), [str(v) for v in cats])
        cnt.append([(m & (y == 0)).sum(), (m & (y == 1)).sum()])
    cnt = np.array(cnt)
    status = optb.status
    none = core.hasty(mon, status)
    if status == "INFEASIBLE" or none or len(cnt) == 1:
        mon.seen("categorical_single")
        if status == "INFEASIBLE" or none:
            mon.check(len(cnt) == 1, "infeasible_not_single", str(tb))
        return
    ne_, e_ = cnt[:, 0], cnt[:, 1]
    for b in seg.binary_constraints(ne_, e_, (), c, len(x), False,
                                    "ascending" if trend else None):
        mon.fail("constraint:" + b.split(":")[0] + ":categorical",
                 "{} {} {}".format(kw, c, cnt.tolist()))
    mon.evals += 1
    mon.seen("categorical_multi")
    mon.sig("cat", trend, sorted(c), len(cnt), mode)


FAMILIES = {"pinned": (pinned, 1920, 60000),
            "pure": (pure, 480, 8000), "tight": (tight, 640, 15000),
            "auto": (auto_prebins, 800, 20000),
            "categorical": (categorical, 400, 8000),
            "hurried": (core.hurried(pinned), 400, 8000),
            "hurried_auto": (core.hurried(auto_prebins), 160, 4000),
            "hurried_cat": (core.hurried(categorical), 160, 3000)}
REQUIRED = {"multi_bin_fits": 200, "infeasible_fits": 20,
            "active:max_pvalue": 10, "active:min_event_rate_diff": 10,
            "active:max_bin_size": 10, "active:min_bin_size": 20,
            "categorical_multi": 20, "trend:peak": 5, "trend:concave": 5, "tight": 300,
            "hurried:FEASIBLE": 120, "hurried:UNKNOWN": 20}
