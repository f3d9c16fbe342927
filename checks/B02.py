"""B02: optimality against exhaustive enumeration of all mergings."""
import numpy as np

from vlib import binary as B
from vlib import seg

PROP = "B02"
RULE = ("distinct = (solver, divergence, trend, active constraints, #pre-bins,"
        " #feasible mergings bucket); non-trivial when the optimum is not "
        "simply the finest feasible partition or constraints exclude mergings")
ASSUMPTIONS = [
    "mergings whose feasibility hinges on rate differences below 3e-6 are "
    "excluded from the optimum the solver is compared with",
    "CBC is run with its default relative gap (1e-4)",
    "concave/convex optimality is judged against the set in which every "
    "triple of bins (not only neighbours) is concave/convex, as in the "
    "documented formulation",
    "the peak/valley heuristics fix the change point and are only checked "
    "for feasibility (B01)"]

TRENDS = [None, None, "ascending", "descending", "ascending", "descending",
          "peak", "valley", "concave", "convex", "auto", "auto_asc_desc"]


def tol_for(kw, n, total, mx):
    t = 1e-6 * (n + 2) + 1e-7
    if kw["solver"] == "mip":
        t += 2e-4 * abs(mx) + 1e-6
    if kw.get("gamma"):
        t += 1e-6 * total
    return t


def pooled(c, kw, trend):
    """Fixed splits with nothing else but an ascending/descending trend."""
    return not c and not kw.get("gamma") and any(
        t in ("ascending", "descending") for t in B.shapes(trend))


def reference(d, c, kw, trend, fx):
    res = {}
    seg.EXACT_TIES = kw.get("solver") == "cp"
    for t in B.shapes(trend):
        tt = {"concave": "concave_all", "convex": "convex_all"}.get(t, t)
        res[t] = seg.best_binary(d["ne"], d["e"], c, len(d["x"]),
                                 kw["divergence"], kw.get("gamma", 0), tt, fx)
    return res


def judge(mon, d, c, kw, trend, fx, optb, ref, tag):
    n, total = d["n"], int((d["ne"] + d["e"]).sum())
    cuts = B.cuts_of(optb.splits, d["splits"])
    if not mon.check(cuts is not None, "split_not_in_user_splits", tag):
        return None
    any_strict = [v for v in ref.values() if v[2] > 0]
    label = str(trend) + (":" + kw["solver"])
    if fx and pooled(c, kw, trend):
        label += ":fixed-pooled"
    if optb.status == "INFEASIBLE":
        # auto picks one trend: infeasible is right if one of them is
        if len(any_strict) == len(ref):
            mon.fail("infeasible_but_feasible:" + label,
                     lambda: "{} ne={} e={} fixed={} ref={}".format(
                         tag, d["ne"].tolist(), d["e"].tolist(), fx, ref))
        mon.evals += 1
        mon.seen("infeasible")
        return None
    if optb.status != "OPTIMAL":
        mon.seen("status:" + optb.status)
        return None
    ne, e = seg.merge(d["ne"], cuts), seg.merge(d["e"], cuts)
    v = seg.objective(ne, e, kw["divergence"], kw.get("gamma", 0), total)
    gaps = []
    for t, (best, arg, cnt, loose) in ref.items():
        if cnt == 0:
            gaps.append((0.0, t))      # nothing strictly feasible to beat
        else:
            gaps.append((best - v, t))
    gap, t = min(gaps)
    if len(ref) == 1 and any_strict and any_strict[0][3] == 0:
        gap = np.inf
    best = max([x[0] for x in ref.values() if x[2]] + [0])
    mon.check(gap <= tol_for(kw, n, total, best),
              "suboptimal:" + label,
              lambda: "{} gap={} cuts={} ref={} ne={} e={} fixed={}".format(
                  tag, gap, cuts, ref, d["ne"].tolist(), d["e"].tolist(),
                  fx))
    if len(ref) == 1 and list(ref.values())[0][3] == 0:
        mon.fail("optimal_but_infeasible:" + label, tag)
    mon.seen("optimal")
    if trend:
        mon.seen("trend:" + trend)
    for name in c:
        mon.seen("active:" + name)
    if best > v - 1e-9 and len(cuts) < n - 1:
        mon.seen("nontrivial")
    cnts = sum(x[2] for x in ref.values())
    mon.sig(kw["solver"], kw["divergence"], trend, sorted(c), n,
            int(np.log2(cnts + 1)))
    return v


def brute(rng, mon):
    d, c, kw, trend, fx = B.setup(rng, nmax=8, trends=TRENDS)
    tag = "{} c={}".format({k: v for k, v in kw.items()
                            if k != "user_splits"}, c)
    ref = reference(d, c, kw, trend, fx)
    optb = B.fit(d["x"], d["y"], **kw, **c)
    judge(mon, d, c, kw, trend, fx, optb, ref, tag)
    mon.sample(tag)


def simple(rng, mon):
    """Few constraints, more pre-bins."""
    d, c, kw, trend, fx = B.setup(rng, nmax=11, nmin=6, trends=TRENDS,
                                  fixed=False)
    keep = list(c)[:1]
    c = {k: c[k] for k in keep if k not in ("max_pvalue_policy",)}
    if "max_n_bins" in c and "min_n_bins" in c:
        c.pop("min_n_bins")
    tag = "{} c={}".format({k: v for k, v in kw.items()
                            if k != "user_splits"}, c)
    ref = reference(d, c, kw, trend, [])
    optb = B.fit(d["x"], d["y"], **kw, **c)
    judge(mon, d, c, kw, trend, [], optb, ref, tag)


def pure(rng, mon):
    """Pure pre-bins: kept by hellinger/triangular, which then require one
    event and one non-event per final bin."""
    d, c, kw, trend, fx = B.setup(rng, nmax=8, nmin=2, trends=TRENDS,
                                  fixed=False, pure=.3)
    if not d["e"].sum() or not d["ne"].sum():
        return
    kw["divergence"] = str(rng.choice(["hellinger", "triangular"]))
    c2 = dict(c)
    if (d["e"] == 0).any() or (d["ne"] == 0).any():
        for k in ("min_bin_n_event", "min_bin_n_nonevent"):
            c2[k] = max(c2.get(k, 1), 1)
        mon.seen("pure_prebins")
    if rng.random() < .5:           # drop the constraints, keep the trend
        c = {}
        c2 = {k: 1 for k in c2 if k.startswith("min_bin_n_")}
        if (d["e"] > 0).all() and (d["ne"] > 0).all():
            c2 = {}
    tag = "pure {} c={}".format({k: v for k, v in kw.items()
                                 if k != "user_splits"}, c)
    ref = reference(d, c2, kw, trend, [])
    optb = B.fit(d["x"], d["y"], **kw, **c)
    if trend in ("concave", "convex") or trend is None or \
            "auto" not in trend:
        judge(mon, d, c2, kw, trend, [], optb, ref, tag)


def tight(rng, mon):
    """Constraints placed exactly at what the best merging attains (or one
    short of it)."""
    d, c, kw, trend, fx = B.setup(rng, nmax=9, nmin=3, trends=TRENDS,
                                  fixed=False)
    keep = {k: c[k] for k in list(c)[:1] if "pvalue" not in k and
            "diff" not in k} if rng.random() < .2 else {}
    ref = reference(d, keep, kw, trend, [])
    arg = [r[1] for r in ref.values() if r[2] and r[1] is not None]
    if not arg or trend and "auto" in trend:
        return
    cuts = arg[0]
    ne, e = seg.merge(d["ne"], cuts), seg.merge(d["e"], cuts)
    off = int(rng.random() < .35)
    c = dict(keep)
    c.update(B.tight(rng, ne + e, len(d["x"]), e, ne, off))
    if not all(c.get("min_" + a, 0) <= c.get("max_" + a, np.inf) for a in
               ("n_bins", "bin_size", "bin_n_event", "bin_n_nonevent")):
        return
    tag = "tight {} c={}".format({k: v for k, v in kw.items()
                                  if k != "user_splits"}, c)
    ref = reference(d, c, kw, trend, [])
    optb = B.fit(d["x"], d["y"], **kw, **c)
    judge(mon, d, c, kw, trend, [], optb, ref, tag)
    mon.seen("tight_" + ("missed" if off else "met"))


def agree(rng, mon):
    """CP and MIP on the same problem (also beyond enumeration size)."""
    d, c, kw, trend, fx = B.setup(rng, nmax=14, nmin=3,
                                  trends=TRENDS + ["peak_heuristic",
                                                   "valley_heuristic"])
    kw.pop("mip_solver", None)
    kw.pop("solver")
    a = B.fit(d["x"], d["y"], solver="cp", **kw, **c)
    b = B.fit(d["x"], d["y"], solver="mip",
              mip_solver=str(rng.choice(["bop", "cbc"])), **kw, **c)
    tag = "{} c={}".format({k: v for k, v in kw.items()
                            if k != "user_splits"}, c)
    mon.seen("agree_pairs")
    total = int((d["ne"] + d["e"]).sum())
    vals = []
    for o in (a, b):
        cuts = B.cuts_of(o.splits, d["splits"])
        ne, e = seg.merge(d["ne"], cuts), seg.merge(d["e"], cuts)
        vals.append((seg.objective(ne, e, kw["divergence"],
                                   kw.get("gamma", 0), total), ne, e, cuts))
    # a solution of one solver that is strictly feasible bounds the other
    for (i, j) in ((0, 1), (1, 0)):
        o, po = (a, b)[i], (a, b)[j]
        seg.EXACT_TIES = j == 0
        if o.status != "OPTIMAL":
            continue
        v, ne, e, cuts = vals[i]
        ok = not seg.binary_constraints(ne, e, cuts, c, len(d["x"]), True,
                                        None, fx)
        t = {"concave": "concave_all", "convex": "convex_all"}.get(
            trend, trend)
        if t and len(B.shapes(trend)) == 1 and "heur" not in t:
            ok = ok and seg.ok_margin(seg.trend_margin(e / (ne + e), t), True)
        elif t:
            ok = ok and (len(e) == 1 or
                         np.abs(np.diff(e / (ne + e))).min() > seg.EPS)
        if not ok:
            continue
        if po.status != "OPTIMAL":
            mon.fail("solvers_disagree_status:" + str(trend),
                     "{} {} {}".format(tag, a.status, b.status))
            continue
        tol = tol_for(dict(solver="mip", gamma=kw.get("gamma")), d["n"],
                      total, v)
        mon.check(vals[j][0] >= v - tol, "solvers_disagree:" + str(trend),
                  "{} cp={} mip={} fixed={}".format(tag, vals[0], vals[1],
                                                    fx))
        mon.seen("agree_compared")


FAMILIES = {"brute": (brute, 3600, 60000), "simple": (simple, 750, 6000),
            "pure": (pure, 900, 8000),
            "tight": (tight, 2100, 20000),
            "agree": (agree, 900, 12000)}
REQUIRED = {"optimal": 200, "infeasible": 10, "agree_compared": 40,
            "nontrivial": 60, "tight_met": 200, "tight_missed": 80}
