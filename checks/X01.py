"""X01: counterfactuals against exhaustive enumeration of bin assignments."""
import contextlib
import copy
import io
import itertools
import re

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator

from vlib import core, mipcheck, score

PROP = "X01"
RULE = ("a generated problem counts when at least one feature has an "
        "alternative bin; distinct situations are (target, outcome type, "
        "method, objectives, constraints, number of counterfactuals)")
ASSUMPTIONS = [
    "a feature keeps its value or takes one of its displayed bins (special "
    "and missing only with special_missing); bins with the value of the "
    "query are no change",
    "objectives: proximity = sum of |x - x'| / range of the variable's "
    "points, closeness = l1 norm of the whitened difference to the mean of "
    "the fitted sample, diff_outcome = |outcome - y|, diversity counts "
    "differing features or values over all pairs",
    "probabilities are approximated piecewise linearly by the solver model: "
    "tolerance .05; scorecards with singular covariance of the transformed "
    "variables are not judged; proximity of variables with constant points "
    "has no specified weight",
    "a wrong answer of the third-party MIP solver is not judged: when the "
    "enumeration disagrees, the model the code built is solved again with "
    "SCIP, and only a model error is reported",
    "solver time limit never reached; solver feasibility tolerance 1e-5"]
REQUIRED = {"optimal": 160, "infeasible": 25, "null coefficient": 2, "multi": 40, "binary": 60,
            "probability": 40, "continuous": 40, "hierarchical": 60,
            "assignments": 8000, "closeness only": 20, "actionable": 40,
            "special_missing": 60, "min_outcome": 25, "max_outcome": 25,
            "diff_outcome": 40, "diversity_features": 15,
            "diversity_values": 15, "query special or missing": 10,
            "max_changes": 60, "query dict": 40,
            "hurried:FEASIBLE": 20, "hurried:UNKNOWN": 3,
            "negligible coefficient": 40}
TOL = 1e-5


class Problem:
    pass


def problem(rng, mon):
    ttype = str(rng.choice(["binary", "continuous"], p=[.62, .38]))
    for _ in range(4):
        d = score.make(rng, ttype=ttype, nvar=int(rng.integers(2, 5)))
        d["kw"].pop("selection_criteria", None)
        d["kw"]["max_n_bins"] = int(rng.integers(2, 5))
        d["fit"]["show_digits"] = 8
        kw = score.scaling(rng, ttype)
        sc = score.fit(d, **kw)
        tab = sc.table()
        if not np.isfinite(tab["Points"].values.astype(float)).all():
            continue
        P = Problem()
        P.d, P.kw, P.sc, P.ttype = d, kw, sc, ttype
        P.names = [str(v) for v in dict.fromkeys(tab["Variable"])]
        P.coef = np.ravel(sc.estimator_.coef_)
        P.icpt = float(np.ravel(getattr(sc.estimator_, "intercept_", 0.))[0])
        ref = {n: o for n, o in score.singles(d).items()}
        P.rows, P.find, P.unseen, P.nclean, P.labels = [], [], [], [], []
        Z = np.zeros((len(d["df"]), len(P.names)))
        for i, n in enumerate(P.names):
            v, find, unseen = score.rows_values(d, n, ref[n])
            P.rows.append(v)
            P.find.append(find)
            P.unseen.append(unseen)
            P.nclean.append(len(v) - 1 - len(score.special_rows(ref[n])))
            P.labels.append([str(b) for b in
                             tab[tab["Variable"] == n]["Bin"]])
            r = find(d["df"][n].values)
            Z[:, i] = np.where(r >= 0, v[np.maximum(r, 0)], unseen)
        if any(len(set(l)) < len(l) for l in P.labels):
            continue
        rngs = np.array([np.ptp(c * v) for c, v in zip(P.coef, P.rows)])
        cov = np.atleast_2d(np.cov(Z.T))
        if (rngs < 1e-7).all() or len(P.names) < 2 or \
                not np.linalg.cond(cov) < 1e8:
            continue
        # the weight of a variable with constant points is not specified
        P.null = (rngs < 1e-7).any()
        if ((rngs < 1e-7) & (rngs > 0)).any():
            continue
        P.w = 1. / np.where(rngs > 0, rngs, 1)
        P.F = np.linalg.cholesky(np.linalg.inv(cov))
        P.mu = Z.mean(axis=0)
        return P
    mon.seen("degenerate")
    return None


def spec(rng, P, mon):
    s = Problem()
    s.outcome = "continuous" if P.ttype == "continuous" else str(
        rng.choice(["binary", "probability"], p=[.6, .4]))
    s.n_cf = int(rng.choice([1, 1, 1, 2, 2, 3]))
    s.method = str(rng.choice(["weighted", "hierarchical"], p=[.6, .4]))
    r = rng.random()
    wt = lambda: float(rng.choice([1, 2, .5, 3.3]))
    if r < .2:
        s.obj = None
    elif r < .4:
        s.obj = {"closeness": wt()}
    elif r < .6:
        s.obj = {"proximity": wt()}
    else:
        s.obj = {"proximity": wt(), "closeness": wt()}
        if rng.random() < .5:
            s.obj = dict(reversed(list(s.obj.items())))
    s.hard, s.soft = [], {}
    if s.outcome != "binary":
        k = rng.integers(4)
        if k == 0:
            s.hard.append("min_outcome")
        elif k == 1:
            s.hard.append("max_outcome")
        elif k == 2:
            s.soft["diff_outcome"] = wt()
        else:
            s.hard.append(str(rng.choice(["min_outcome", "max_outcome"])))
            s.soft["diff_outcome"] = wt() * 1.37
    if s.n_cf > 1 or rng.random() < .15:
        for c in ("diversity_features", "diversity_values"):
            q = rng.random()
            if q < .3:
                s.hard.append(c)
            elif q < .6:
                s.soft[c] = wt() * .81
    s.max_changes = None if rng.random() < .35 else int(
        rng.integers(1, len(P.names) + 1))
    s.actionable = None
    if rng.random() < .3:
        s.actionable = [n for n in P.names if rng.random() < .6] or [
            P.names[0]]
    s.special_missing = bool(rng.random() < .4)
    s.tol = .1 if rng.random() < .6 else float(rng.choice([0, .05, .5, 1]))
    return s


def outcome(P, s, lp):
    return 1 / (1 + np.exp(-lp)) if s.outcome == "probability" else lp


def base(rng, mon):
    from optbinning.scorecard import Counterfactual
    P = problem(rng, mon)
    if P is None:
        return
    keep = P.sc.table("detailed").copy(deep=True)
    cf = None
    for _ in range(3):
        s = spec(rng, P, mon)
        if cf is None or cf.special_missing != s.special_missing:
            jobs = int(rng.choice([1, 1, 2, 4]))
            cf = Counterfactual(P.sc, special_missing=s.special_missing,
                                n_jobs=jobs)
            mon.seen("n_jobs" if jobs > 1 else "one_job")
            score.quiet(cf.fit, P.d["df"])
        one(rng, mon, P, s, cf)
    tab = P.sc.table("detailed")
    mon.check(tab.equals(keep) and list(tab.columns) == list(keep.columns),
              "scorecard-modified", "")


def one(rng, mon, P, s, cf):
    q = score.query(rng, P.d).iloc[[0]].reset_index(drop=True)
    for n, k in zip(P.d["names"], P.d["kinds"]):
        if k != "num" and rng.random() < .7:
            q[n] = P.d["df"][n].iloc[[int(rng.integers(len(P.d["df"])))]
                                     ].values
    x = np.zeros(len(P.names))
    special = False
    for i, n in enumerate(P.names):
        r = int(P.find[i](q[n].values)[0])
        x[i] = P.rows[i][r] if r >= 0 else P.unseen[i]
        special |= r >= P.nclean[i]
    mon.seen("query special or missing", bool(special))
    # ---------------------------------------------------- all assignments
    cand = []
    for i, n in enumerate(P.names):
        rows = range(len(P.rows[i]) if s.special_missing else P.nclean[i])
        c = [-1]
        if s.actionable is None or n in s.actionable:
            c += [j for j in rows if abs(P.rows[i][j] - x[i]) > 1e-9]
        cand.append(c)
    mc = len(P.names) // 2 if s.max_changes is None else s.max_changes
    A = np.array([c for c in itertools.product(*cand)
                  if sum(j >= 0 for j in c) <= mc])
    V = np.array([[x[i] if j < 0 else P.rows[i][j] for i, j in enumerate(a)]
                  for a in A], float).reshape(len(A), -1)
    lp = P.icpt + V @ P.coef
    out = outcome(P, s, lp)
    if s.outcome == "binary":
        y = int(rng.integers(2))
    elif s.outcome == "probability":
        y = float(np.clip(rng.choice(out) + rng.normal(0, .15), 0, 1))
    else:
        y = float(rng.choice(out) + rng.normal(0, .3) * (out.std() + 1e-3))
    slack = .05 if s.outcome == "probability" else TOL * (1 + abs(y))

    def ok(o, l, m):
        """feasible with margin m"""
        f = np.ones(len(l), bool)
        if s.outcome == "binary":
            f &= (l >= 1e-6 + m) if y == 1 else (l <= -m)
        if "min_outcome" in s.hard:
            f &= o >= y + m
        if "max_outcome" in s.hard:
            f &= o <= y - m
        return f
    loose, strict = ok(out, lp, -slack), ok(out, lp, slack)
    D = V - P.mu
    names = s.obj or {"proximity": 1 if s.method == "weighted" else 2,
                      "closeness": 1}
    part = {"proximity": np.abs(V - x) @ P.w, "closeness": np.abs(
        D @ P.F).sum(1), "diff_outcome": np.abs(out - y)}
    soft = {k: v for k, v in s.soft.items() if s.n_cf > 1 or
            not k.startswith("diversity")}
    hard = [h for h in s.hard if s.n_cf > 1 or not h.startswith("diversity")]
    terms = {**names, **soft}
    etol = slack * 2 if "diff_outcome" in soft else 0.
    # ------------------------------------------------------------ generate
    query = q
    if rng.random() < .3:
        query = {n: q[n].iloc[0] for n in q.columns}
        mon.seen("query dict")
    info = ("{} target, outcome {} y={} n_cf={} {} objectives {} hard {} soft "
            "{} max_changes {} actionable {} special_missing {} tol {}; "
            "scorecard {} fit {} per {}; query {}".format(
                P.ttype, s.outcome, y, s.n_cf, s.method, s.obj, s.hard,
                s.soft, s.max_changes, s.actionable, s.special_missing, s.tol,
                P.kw, P.d["fit"], P.d["per"], q.iloc[0].to_dict()))
    ref_q = copy.deepcopy(query)
    status = None
    try:
        with mipcheck.watching() as solves:
            score.quiet(
                cf.generate, query, y=y, outcome_type=s.outcome, n_cf=s.n_cf,
                method=s.method, objectives=copy.deepcopy(s.obj),
                max_changes=s.max_changes, actionable_features=s.actionable,
                hard_constraints=list(s.hard) or None,
                soft_constraints=dict(s.soft) or None, priority_tol=s.tol,
                time_limit=60)
        status = cf.status
    except Exception as e:
        if "problem in hierarchical model" not in str(e):
            raise
        status = str(e).split()[0]
    mon.check(ref_q.equals(query) if s is None or isinstance(
        query, pd.DataFrame) else str(ref_q) == str(query), "query-modified",
        "")
    mon.seen(s.outcome)
    mon.seen("hierarchical", s.method == "hierarchical")
    mon.seen("multi", s.n_cf > 1)
    mon.seen("closeness only", list(names) == ["closeness"])
    mon.seen("actionable", s.actionable is not None)
    mon.seen("max_changes", s.max_changes is not None)
    mon.seen("special_missing", s.special_missing)
    for c in list(hard) + list(soft):
        mon.seen(c)
    mon.seen("assignments", len(A))
    mon.sig(P.ttype, s.outcome, s.method, sorted(names), sorted(hard),
            sorted(soft), s.n_cf, s.special_missing)
    mon.sample(info)

    def judge(good, key, info):
        if good or not mipcheck.solver_fault(solves):
            mon.check(good, key, info)
        else:
            mon.seen("solver fault")
    # ------------------------------------------------- joint enumeration
    K = s.n_cf

    def joint(feas, cap=400000):
        idx = np.flatnonzero(feas)
        if len(idx) == 0:
            return np.zeros((0, K), int)
        if K == 1:
            return idx[:, None]
        if len(idx) ** K > cap * (3 if K == 2 else 1):
            return None
        J = np.array(list(itertools.product(idx, repeat=K)))
        # counterfactuals are exchangeable
        return J[(np.diff(J, axis=1) >= 0).all(1)]

    def pairs(J):
        div = {"diversity_features": np.zeros(len(J)),
               "diversity_values": np.zeros(len(J))}
        good = np.ones(len(J), bool)
        for k in range(K):
            for l in range(k + 1, K):
                a, b = A[J[:, k]], A[J[:, l]]
                ch = (a >= 0) != (b >= 0)
                div["diversity_features"] += ch.sum(1)
                both = (a >= 0) & (b >= 0)
                div["diversity_values"] += ch.sum(1) + 2 * (
                    both & (a != b)).sum(1)
                if "diversity_features" in hard:
                    good &= ch.any(1)
                if "diversity_values" in hard:
                    good &= ~(both & (a == b)).any(1)
        return div, good

    def objective(name, J, div):
        if name in div:
            return -div[name]
        return part[name][J].sum(1)
    Js = joint(strict)
    if core.hasty(mon, status):
        return
    if status not in ("OPTIMAL", "FEASIBLE"):
        if not mon.check(status == "INFEASIBLE", "status", lambda:
                         "{}: {}".format(status, info)):
            return
        mon.seen("infeasible")
        if Js is None:
            return
        div, good = pairs(Js) if len(Js) else ({}, np.zeros(0, bool))
        judge(not good.any(), "false-infeasible", lambda: "{}: for "
                  "instance changes {} -> outcome {}".format(
                      info, A[Js[good][0]].tolist(), out[Js[good][0]]))
        return
    mon.seen("optimal")
    # ------------------------------------------------------------- decode
    full = score.quiet(cf.display, show_outcome=True)
    only = score.quiet(cf.display, show_only_changes=True)
    if not mon.check(len(full) == K and len(only) == K, "display-rows", lambda:
                     (info, len(full), len(only))):
        return
    got = np.full((K, len(P.names)), -1)
    for k in range(K):
        for i, n in enumerate(P.names):
            cell = only[n].iloc[k]
            whole = full[n].iloc[k]
            if isinstance(cell, str) and cell == "-":
                mon.check(same(whole, q[n].iloc[0]), "display-unchanged",
                          lambda: (whole, q[n].iloc[0]))
                continue
            if not mon.check(str(cell) in P.labels[i] and str(cell) == str(
                    whole), "display-bin", lambda: "{}: {!r} {!r} {}".format(
                        n, cell, whole, P.labels[i])):
                return
            got[k, i] = P.labels[i].index(str(cell))
            mon.check(got[k, i] in cand[i], "not-allowed", lambda:
                      "{}: {} changed to {}".format(info, n, cell))
    mon.check(((got >= 0).sum(1) <= mc).all(), "max-changes", lambda:
              (info, got))
    Vg = np.where(got >= 0, 0., x[None, :])
    for k in range(K):
        for i in range(len(P.names)):
            if got[k, i] >= 0:
                Vg[k, i] = P.rows[i][got[k, i]]
    lg = P.icpt + Vg @ P.coef
    og = outcome(P, s, lg)
    if not mon.check(ok(og, lg, -slack).all(), "outcome", lambda: "{}: "
                     "changes {} have outcome {}".format(
                         info, got.tolist(), og)):
        return
    shown = full["outcome"].values.astype(float)
    mon.close(shown, lg if s.outcome == "continuous" else 1 / (
        1 + np.exp(-lg)), "display-outcome", lambda: info, atol=1e-7)
    # -------------------------------------------------------- optimality
    if P.null and "proximity" in names:
        mon.seen("null coefficient")
        return
    index = {tuple(a): t for t, a in enumerate(A.tolist())}
    try:
        G = np.array([sorted(index[tuple(g)] for g in got.tolist())])
    except KeyError:
        return      # already reported
    gdiv, ggood = pairs(G)
    if not mon.check(bool(ggood.all()), "diversity", lambda: (info, got)):
        return
    if status == "FEASIBLE" and core.HURRY:
        return
    if Js is None:
        mon.seen("too many assignments")
        return
    if len(Js) == 0:
        return
    div, good = pairs(Js)
    Js = Js[good]
    div = {k: v[good] for k, v in div.items()}
    if len(Js) == 0:
        return
    if s.method == "weighted":
        vg = sum(w * objective(n, G, gdiv)[0] for n, w in terms.items())
        vb = sum(w * objective(n, Js, div) for n, w in terms.items())
        b = int(np.argmin(vb))
        tol = TOL * (1 + abs(vb[b])) + K * etol * soft.get("diff_outcome", 0)
        judge(vg <= vb[b] + tol, "optimality", lambda: "{}: changes {} "
                  "objective {} but {} has {}".format(
                      info, got.tolist(), vg, A[Js[b]].tolist(), vb[b]))
        return
    order = [k for k, v in sorted(terms.items(), key=lambda t: -t[1])]
    sel = np.ones(len(Js), bool)
    for t, n in enumerate(order):
        vb, vg = objective(n, Js, div), objective(n, G, gdiv)[0]
        e = TOL + K * (etol if n == "diff_outcome" else 0)
        if t == 0:
            lo = vb.min()
            last = t == len(order) - 1
            lim = lo if last else lo + s.tol * abs(lo)
            judge(vg <= lim + e * (1 + abs(lo)), "hierarchy-first",
                      lambda: "{}: {} of changes {} is {}, minimum {}".format(
                          info, n, got.tolist(), vg, lo))
            Jl = joint(loose)
            if Jl is None:
                return
            dl, gl = pairs(Jl)
            if lo - objective(n, Jl, dl)[gl].min() > 1e-9 * (1 + abs(lo)):
                return      # the first optimum is not certain
            sel &= np.abs(vb - lo) <= s.tol * abs(lo) * (1 - 1e-6)
        elif t == 1:
            # best second objective given the first
            if not sel.any() or etol:
                return
            lo2 = vb[sel].min()
            lim = lo2 if len(order) == 2 else lo2 + s.tol * abs(lo2)
            judge(vg <= lim + TOL * (1 + abs(lo2)), "hierarchy-second",
                      lambda: "{}: {} of changes {} is {}, attainable {}"
                      .format(info, n, got.tolist(), vg, lo2))


def same(a, b):
    try:
        if pd.isna(a) and pd.isna(b):
            return True
    except (TypeError, ValueError):
        pass
    return str(a) == str(b) or a == b


class Given(BaseEstimator):
    """linear model with the coefficients it was given"""

    def __init__(self, coef, intercept):
        self.coef = coef
        self.intercept = intercept

    def fit(self, X, y, sample_weight=None):
        self.coef_ = np.array(self.coef, float)
        self.intercept_ = float(self.intercept)
        if len(np.unique(y)) == 2:
            self.classes_ = np.unique(y)
            self.coef_ = self.coef_[None, :]
            self.intercept_ = np.array([self.intercept_])
        return self

    def decision_function(self, X):
        return np.asarray(X, float) @ self.coef_.ravel() + float(
            np.ravel(self.intercept_)[0])

    predict = decision_function

    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-self.decision_function(X)))
        return np.column_stack([1 - p, p])


def null(rng, mon):
    """A coefficient of rounding errors is as good as none: the nearest
    counterfactual is as near as with the coefficient 0."""
    from optbinning import BinningProcess, Scorecard
    from optbinning.scorecard import Counterfactual
    n, p = int(rng.integers(80, 200)), int(rng.integers(2, 5))
    X = pd.DataFrame({"f%d" % i: rng.normal(size=n) for i in range(p)})
    z = X.to_numpy() @ rng.normal(1, .3, p) + rng.normal(0, .5, n)
    binary = rng.random() < .6
    y = (z > np.median(z)).astype(int) if binary else z
    coef = rng.choice([-1, 1]) * rng.uniform(.3, 2, p) * 10. ** rng.integers(
        -2, 3)
    if not binary:
        coef *= .5 / np.abs(coef).max()
    dead = int(rng.integers(p))
    tiny = float(np.abs(coef).max() * 10. ** rng.uniform(-18, -14) *
                 rng.choice([-1, 1]))
    icpt = float(rng.normal(0, .3) * np.abs(coef).max())
    mx = int(rng.integers(2, 5))
    cards = []
    for c in (0., tiny):
        k = coef.copy()
        k[dead] = c
        sc = Scorecard(BinningProcess(list(X.columns), max_n_bins=mx),
                       Given(k, icpt))
        score.quiet(sc.fit, X, y)
        cards.append(sc)
    names = list(X.columns)
    tab = cards[0].table("detailed")
    col = "WoE" if binary else "Mean"
    bins, width = {}, {}
    for i, v in enumerate(names):
        t = tab[tab["Variable"] == v]
        bins[v] = dict(zip(t["Bin"].astype(str), t[col].astype(float)))
        if i != dead:
            width[v] = np.ptp(t["Points"].to_numpy(float)) / abs(coef[i])
            if width[v] < 1e-3:
                return
    q = X.iloc[[int(rng.integers(n))]].reset_index(drop=True)
    x = cards[0].binning_process_.transform(q)
    lp = np.array([sc.estimator_.decision_function(
        sc.binning_process_.transform(X)) for sc in cards])
    if binary:
        # the opposite outcome
        goal = dict(y=int(lp[0][0] * 0 + (cards[0].estimator_
                                          .decision_function(x)[0] < 0)),
                    outcome_type="binary")
    else:
        goal = dict(y=float(rng.choice(lp[0])), outcome_type="continuous",
                    hard_constraints=[str(rng.choice(["min_outcome",
                                                      "max_outcome"]))])
    got, shown = [], []
    objectives = {"proximity": 1.}
    if rng.random() < .5:
        objectives["closeness"] = float(rng.choice([.5, 1, 3]))
    changes = int(rng.integers(1, p + 1))
    for sc in cards:
        cf = Counterfactual(sc)
        try:
            score.quiet(cf.fit, X)
        except np.linalg.LinAlgError:
            return
        score.quiet(cf.generate, q, n_cf=1, objectives=dict(objectives),
                    max_changes=changes, time_limit=60, **goal)
        if cf.status != "OPTIMAL":
            got.append((cf.status, None))
            continue
        d = score.quiet(cf.display, show_only_changes=True).iloc[0]
        got.append((cf.status, sum(
            abs(bins[v][str(d[v])] - x[v].iloc[0]) / width[v] for i, v in
            enumerate(names) if i != dead and str(d[v]) != "-")))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            cf.information(1)
        shown.append(float(re.search(r"Objective value +(\S+)",
                                     out.getvalue()).group(1)))
    mon.seen("negligible coefficient")
    mon.sig("null", p, binary, dead, got[0][0])
    info = lambda: "coefficients {} with {} for {}: {}, with 0: {}; {}".format(
        coef.tolist(), tiny, names[dead], got[1], got[0], goal)
    mon.check(got[0][0] == got[1][0], "null-status", info)
    if None not in (got[0][1], got[1][1]):
        mon.close(shown[1], shown[0], "null-objective", lambda: "objectives "
                  "{}; {}".format(shown, info()), atol=2e-3)
        if len(objectives) == 1:
            mon.close(got[1][1], got[0][1], "null-distance", info, atol=1e-4)


FAMILIES = {"base": (base, 260, 2500), "null": (null, 80, 800),
            "hurried": (core.hurried(base), 80, 800)}
