"""K02: scaling calibration, rounding and intercept-based tables."""
import numpy as np
from ortools.linear_solver import pywraplp

from vlib import score

PROP = "K02"
RULE = ("a scorecard counts when its estimator has a non-zero coefficient; "
        "distinct situations are (target, scaling method and parameters, "
        "options)")
ASSUMPTIONS = [
    "attainable scores are those of the displayed rows (one row per "
    "variable)",
    "odds are P(0)/P(1) for a normal and P(1)/P(0) for a reversed scorecard",
    "scorecards whose rows all have the same points have no min/max scale "
    "and are not judged; options do not change the fitted binning and "
    "estimator (deterministic solvers)"]
REQUIRED = {"pdo_odds": 50, "min_max": 60, "rounding": 100, "intercept": 110,
            "reverse": 60, "odds records": 1000, "none": 20,
            "rounding needed": 60, "rushed solution": 15,
            "rushed none": 30}


def attain(tab):
    g = tab.groupby("Variable")["Points"]
    return float(g.min().sum()), float(g.max().sum())


def base(rng, mon):
    d = score.make(rng)
    kw = score.scaling(rng, d["ttype"])
    for k in ("rounding", "intercept_based"):
        kw.pop(k, None)
    method = kw.get("scaling_method")
    sc = score.fit(d, **kw)
    tab = sc.table("detailed")
    coef = np.ravel(sc.estimator_.coef_)
    X = score.query(rng, d)
    pts = tab["Points"].values.astype(float)
    spread = tab.groupby("Variable")["Points"].agg(lambda p: p.max() - p.min())
    col = "WoE" if d["ttype"] == "binary" else "Mean"
    raw = sum(float(np.abs(g["Coefficient"]).max() * np.ptp(g[col]))
              for _, g in tab.groupby("Variable"))
    if not np.isfinite(pts).all() or raw < 1e-9 or spread.sum() < 1e-6 * (
            1 + np.abs(pts).max()):
        mon.seen("degenerate")
        return
    rev = bool(kw.get("reverse_scorecard"))
    mon.seen("reverse", rev)
    mon.seen(method or "none")
    mon.sig(d["ttype"], method, str(kw.get("scaling_method_params")), rev,
            len(coef))
    mon.sample("{} {}".format(d["ttype"], kw))
    s = np.asarray(sc.score(X), float)
    unit = 1e-7 * (1 + np.abs(s).max())
    if method == "pdo_odds":
        P = kw["scaling_method_params"]
        p = np.clip(sc.predict_proba(X), 1e-300, 1)
        odds = p[:, 1] / p[:, 0] if rev else p[:, 0] / p[:, 1]
        ok = (odds > 1e-12) & (odds < 1e12)
        exp = P["scorecard_points"] + P["pdo"] * np.log2(odds / P["odds"])
        bad = ok & (np.abs(exp - s) > 1e-5 * (1 + np.abs(exp)))
        mon.check(not bad.any(), "odds", lambda: "{}: odds {} score {} "
                  "expected {} (intercept {})".format(
                      kw, odds[bad][:3], s[bad][:3], exp[bad][:3],
                      sc.estimator_.intercept_))
        mon.seen("odds records", int(ok.sum()))
    elif method == "min_max":
        P = kw["scaling_method_params"]
        lo, hi = attain(tab)
        mon.close([lo, hi], [P["min"], P["max"]], "min-max", kw, rtol=1e-7,
                  atol=1e-6)
        s0 = np.asarray(sc.score(d["df"]), float)
        mon.check((s0 >= P["min"] - 1e-6 - unit).all() and
                  (s0 <= P["max"] + 1e-6 + unit).all(),
                  "score-range", lambda: (kw, s0.min(), s0.max()))
    else:
        mon.check((np.abs(tab["Coefficient"].values.astype(float)) >= 0).all()
                  and np.isfinite(s).all(), "unscaled", "")
    # intercept-based: same scores, lowest point of each variable is zero
    ib = score.fit(d, intercept_based=True, **kw)
    ti = ib.table()
    mon.seen("intercept")
    mon.check(
        np.abs(ti.groupby("Variable")["Points"].min().values).max() <= unit,
        "intercept-min-zero", lambda: ti.groupby("Variable")["Points"].min())
    mon.check((ti["Points"].values >= -unit).all(), "intercept-nonnegative",
              "")
    mon.check(np.abs(ib.score(X) - s).max() <= unit, "intercept-scores",
              lambda: "{} {} vs {}".format(kw, ib.score(X)[:4], s[:4]))
    mon.check(np.abs(pts - ti["Points"].values - np.repeat(
        tab.groupby("Variable", sort=False)["Points"].min().values,
        tab.groupby("Variable", sort=False).size().values)).max() <= unit,
        "intercept-shift", kw)
    if method is None:
        return
    # rounding
    for b in (False, True):
        if b and rng.random() < .5:
            continue
        r = score.fit(d, rounding=True, intercept_based=b, **kw)
        raw = (ti if b else tab)["Points"].values.astype(float)
        tr = r.table()
        q = tr["Points"].values.astype(float)
        mon.seen("rounding")
        mon.seen("rounding needed", bool(np.abs(raw - np.rint(raw)).max() >
                                         1e-6))
        key = ":intercept" if b else ""
        if not mon.check(len(q) == len(raw), "rounded-rows", ""):
            return
        mon.check(np.abs(q - np.rint(q)).max() <= 1e-6, "rounded-integers" +
                  key, lambda: q)
        mon.check(float(r.intercept_) == np.rint(float(r.intercept_)),
                  "rounded-intercept" + key, lambda: r.intercept_)
        if b:
            mon.check(abs(float(r.intercept_) - float(ib.intercept_)) <= .5 +
                      unit, "rounded-intercept-distance", lambda:
                      (r.intercept_, ib.intercept_))
            mon.check(q.min() >= -1e-6, "rounded-nonnegative", "")
        tol = .5 if method == "pdo_odds" else 1.
        mon.check(np.abs(q - raw).max() <= tol + unit, "rounding-distance" +
                  key, lambda: "{} {}".format(kw, list(zip(raw, q))[:10]))
        order = []
        for v in tr["Variable"].unique():
            m = (tr["Variable"] == v).values
            i = np.argsort(raw[m], kind="stable")
            if method == "pdo_odds":
                order.append(bool((np.diff(q[m][i]) >= -1e-6).all()))
        mon.check(all(order), "rounding-order", kw)
        if method == "min_max":
            P = kw["scaling_method_params"]
            lo, hi = attain(tr)
            lo, hi = lo + float(r.intercept_) * b, hi + float(
                r.intercept_) * b
            mon.check(abs(lo - P["min"]) < 1e-5 and abs(hi - P["max"]) < 1e-5,
                      "rounded-min-max" + key, lambda: "{}: attainable "
                      "[{}, {}]; unrounded points {} rounded {}".format(
                          kw, lo, hi, raw.tolist(), q.tolist()))
        sr = np.asarray(r.score(X), float)
        nv = tr["Variable"].nunique()
        mon.check(np.abs(sr - s).max() <= tol * nv + .5 * b + unit,
                  "rounded-score-distance" + key, lambda: (kw, sr[:4], s[:4]))


def rushed(rng, mon):
    """The rounding model stopped early: the first solution must still be
    exact at both ends; without solution the nearest integers are used."""
    d = score.make(rng, nvar=int(rng.integers(2, 5)))
    for p in d["kw"].get("binning_fit_params", {}).values():
        p.pop("solver", None)
    kw = score.scaling(rng, d["ttype"])
    a = int(rng.choice([0, 300, -50, 7]))
    P = dict(min=a, max=a + int(rng.choice([10, 100, 550, 41])))
    kw.update(scaling_method="min_max", scaling_method_params=P,
              rounding=False)
    b = bool(kw.get("intercept_based"))
    raw = score.fit(d, **kw)
    pts = raw.table()["Points"].values.astype(float)
    if not np.isfinite(pts).all() or np.ptp(pts) < 1e-6:
        mon.seen("degenerate")
        return
    kw["rounding"] = True
    state = {}

    def fit(stop):
        orig = pywraplp.Solver.Solve

        def Solve(self, *args, **k):
            q = pywraplp.MPSolverParameters()
            q.SetDoubleParam(q.RELATIVE_MIP_GAP, 1e6)
            st = orig(self, q)
            if stop == "none" or st != self.OPTIMAL or \
                    not self.VerifySolution(1e-6, False):
                state["found"] = False
                self.Clear()
                return self.NOT_SOLVED
            state["found"] = True
            return self.FEASIBLE
        pywraplp.Solver.Solve = Solve
        try:
            return score.fit(d, **kw)
        finally:
            pywraplp.Solver.Solve = orig
    for stop in ("first", "none"):
        r = fit(stop)
        if not mon.check("found" in state, "solver-not-run", kw):
            return
        tr = r.table()
        q = tr["Points"].values.astype(float)
        found = state["found"]
        mon.seen("rushed " + ("solution" if found else "none"))
        mon.check(np.abs(q - np.rint(q)).max() <= 1e-6, "rushed-integers",
                  lambda: q)
        mon.check(float(r.intercept_) == np.rint(float(r.intercept_)),
                  "rushed-intercept", lambda: r.intercept_)
        if found:
            lo, hi = attain(tr)
            lo, hi = lo + float(r.intercept_) * b, hi + float(
                r.intercept_) * b
            mon.check(abs(lo - P["min"]) < 1e-5 and abs(hi - P["max"]) < 1e-5,
                      "rushed-min-max", lambda: (kw, lo, hi, q.tolist()))
        else:
            mon.check(np.abs(q - np.rint(pts)).max() <= 1e-6 or
                      np.abs(q - pts).max() <= .5 + 1e-6, "rushed-nearest",
                      lambda: (pts.tolist(), q.tolist()))
        # the score is still the sum of the displayed points
        X = d["df"]
        sc = np.asarray(r.score(X), float)
        s0 = np.asarray(raw.score(X), float)
        nv = tr["Variable"].nunique()
        if not found:
            mon.check(np.abs(sc - s0).max() <= .5 * (nv + b) + 1e-6,
                      "rushed-score", lambda: (sc[:5], s0[:5]))
        mon.check(np.abs(sc - np.rint(sc)).max() <= 1e-6, "rushed-score-int",
                  lambda: sc[:5])


FAMILIES = {"rushed": (rushed, 60, 500), "base": (base, 600, 4000)}
