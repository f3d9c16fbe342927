"""W01: piecewise binnings: pointwise function, bounds, shape, recount."""
import contextlib
import io
import re

import numpy as np
from ropwr import RobustPWRegression
from scipy import stats
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.tree import DecisionTreeClassifier
from optbinning import ContinuousOptimalPWBinning, OptimalPWBinning

from vlib import anyfit as A

PROP = "W01"
RULE = ("distinct = (class, objective, degree, continuity, trend, bounds, "
        "#bins, x style, special style); non-trivial when at least two bins")
ASSUMPTIONS = [
    "shape, continuity and bounds hold up to the tolerance of the convex "
    "solver (2e-3 of the range of the function)",
    "shape and bounds are judged on the training records; bounds only "
    "without a peak or valley trend (ropwr bounds the change point then) and "
    "trends only up to degree 1",
    "fits that the convex solver does not report as optimal are not judged "
    "for shape, bounds or least squares"]


def sigmoid(z):
    return 1 / (1 + np.exp(-z))


def draw(rng, k):
    m = int(rng.integers(60, 300))
    style = str(rng.choice(["normal", "exp", "int", "ties", "lattice"]))
    x, _ = A.numeric_x(rng, m, style)
    x = x.astype(np.float32).astype(float) + .25
    z = np.clip((x - np.median(x)) / (np.std(x) + 1e-9), -3, 3)
    f = A.link(rng, z)
    if k == 0:
        y = (rng.random(m) < sigmoid(f)).astype(int)
    else:
        y = f * float(rng.choice([1, 20])) + rng.normal(0, .3, m)
    codes, rows, kw = [], [("Special", [])], {}
    r = rng.random()
    if r < .25:
        codes = [-999., 888.][:int(rng.integers(1, 3))]
        kw["special_codes"] = codes
        rows = [("Special", codes)]
    elif r < .5:
        codes = [-999., 888., 777.]
        kw["special_codes"] = {"a": [-999., 777.], "b": 888.}
        rows = [("a", [-999., 777.]), ("b", [888.])]
    if codes:
        s = rng.random(m) < .15
        x[s] = rng.choice(codes, s.sum())
    if rng.random() < .6:
        x[rng.random(m) < .1] = np.nan
    return x, y, style, codes, rows, kw


def options(rng, k):
    kw = dict(degree=int(rng.choice([0, 1, 1, 1, 2, 3])),
              continuous=bool(rng.random() < .65),
              monotonic_trend=[None, None, "auto", "ascending", "descending",
                               "peak", "valley", "convex", "concave"][
                                   rng.integers(9)],
              max_n_prebins=int(rng.integers(2, 12)),
              min_prebin_size=float(rng.choice([.05, .1])))
    if kw["degree"] == 0:
        kw["continuous"] = True         # ropwr: degree 0 needs continuity
    if kw["monotonic_trend"] in ("convex", "concave", "peak", "valley") and \
            (kw["degree"] > 1 and kw["monotonic_trend"][0] == "c" or
             not kw["continuous"]):
        kw["monotonic_trend"] = None    # documented as invalid
    if rng.random() < .3:
        kw["continuous_deriv"] = False
    if rng.random() < .25:
        kw["objective"] = str(rng.choice(["l1", "huber", "quantile"]))
    if rng.random() < .2:
        kw["max_n_bins"] = int(rng.integers(1, 5))
    if rng.random() < .2:
        kw["outlier_detector"] = str(rng.choice(["range", "zscore"] +
                                                ["yquantile"]))
    # settings of the regression itself
    if kw.get("objective") == "quantile" and rng.random() < .6:
        kw["quantile"] = float(rng.choice([.1, .3, .8]))
    if kw.get("objective") == "huber" and rng.random() < .6:
        kw["h_epsilon"] = float(rng.choice([1., 1.1, 3.]))
    if rng.random() < .15:
        kw["regularization"] = str(rng.choice(["l1", "l2"]))
        if rng.random() < .7:
            kw["reg_" + kw["regularization"]] = float(
                rng.choice([.01, .2, 3.]))
    return kw


def poly(c, v):
    return sum(cj * v ** j for j, cj in enumerate(c))


def dpoly(c, v):
    return sum(j * cj * v ** (j - 1) for j, cj in enumerate(c) if j)


def shape_ok(v, trend, tol, splits_idx):
    d = np.diff(v)
    if not len(d):
        return True
    if trend == "ascending":
        return d.min() >= -tol
    if trend == "descending":
        return d.max() <= tol
    s = 1 if trend == "peak" else -1
    best = False
    for t in range(len(v)):
        if (t == 0 or (s * d[:t]).min() >= -tol) and \
                (t == len(v) - 1 or (s * d[t:]).max() <= tol):
            best = True
            break
    return best


def curve_metrics(y, p, te, tne, e_rows, ne_rows):
    """Textbook performance of the predictions p on the clean records."""
    a, b = np.sort(p[y == 1]), np.sort(p[y == 0])
    less = np.searchsorted(b, a, "left").sum()
    leq = np.searchsorted(b, a, "right").sum()
    n1, n0 = len(a), len(b)
    u = np.unique(p)
    ks = (np.searchsorted(b, u, "right") / n0 -
          np.searchsorted(a, u, "right") / n1).max()
    # average precision: step integral over decreasing thresholds
    ap = rec = 0.
    for t in u[::-1]:
        tp, fp = (p[y == 1] >= t).sum(), (p[y == 0] >= t).sum()
        ap += (tp / n1 - rec) * tp / (tp + fp)
        rec = tp / n1
    r = dict([("Gini index", (less + leq) / (n1 * n0) - 1), ("KS", ks),
              ("Avg precision", ap),
              ("Brier score", ((p - y) ** 2).mean())])
    # each clean record weighs one unit, the other rows their counts
    f = [(1 - p) / tne, p / te]
    d = dict.fromkeys(["IV (Jeffrey)", "JS (Jensen-Shannon)", "Hellinger",
                       "Triangular"], 0.)
    for u, v in [(f[0], f[1])] + [
            (np.array([x0 / tne]), np.array([x1 / te]))
            for x0, x1 in zip(ne_rows, e_rows) if x0 > 0 and x1 > 0]:
        m = (u + v) / 2
        d["IV (Jeffrey)"] += ((u - v) * np.log(u / v)).sum()
        d["JS (Jensen-Shannon)"] += .5 * (u * np.log(u / m) +
                                          v * np.log(v / m)).sum()
        d["Hellinger"] += .5 * ((np.sqrt(u) - np.sqrt(v)) ** 2).sum()
        d["Triangular"] += ((u - v) ** 2 / (u + v)).sum()
    return dict(r, **d)


def target_metrics(y, p):
    e = y - p
    with np.errstate(all="ignore"):
        a, sa = np.abs(e / y), np.abs(e) / (np.abs(y) + np.abs(p))
        return {"Mean absolute error": np.abs(e).mean(),
                "Mean squared error": (e ** 2).mean(),
                "Median absolute error": np.median(np.abs(e)),
                "Explained variance": 1 - e.var() / y.var(),
                "R^2": 1 - (e ** 2).mean() / y.var(),
                "MPE": (e / y).mean(), "MAPE": a.mean(), "SMAPE": sa.mean(),
                "MdAPE": np.median(a), "SMdAPE": np.median(sa)}


def report(rng, mon, o, k, t, n, nr, groups, cx, cy, lb, ub, tag):
    """The printed analysis: performance of the fitted function on the clean
    records, concentration, and the tests between consecutive bins."""
    bt = o.binning_table
    test, ns = str(rng.choice(["chi2", "fisher"])), 300
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        bt.analysis(**(dict(pvalue_test=test, n_samples=ns)
                       if k == 0 else {}))
    text = out.getvalue()
    mon.check(bt.build().equals(t), "analysis:table_changed", tag)
    cnt = np.array([len(g) for g in groups], float)
    h = ((cnt / cnt.sum()) ** 2).sum()
    hn = (h - 1 / len(cnt)) / (1 - 1 / len(cnt))
    want = {"HHI": h, "HHI (normalized)": hn}
    tests = []
    if k == 0:
        e = np.array([g.sum() for g in groups], float)
        ne = cnt - e
        p = o.transform(cx, metric="event_rate", lb=1e-8, ub=1 - 1e-8)
        want.update(curve_metrics(cy, p, e.sum(), ne.sum(), e[n:], ne[n:]))
        for lab, attr in (("Gini index", "gini"), ("IV (Jeffrey)", "iv"),
                          ("JS (Jensen-Shannon)", "js"), ("KS", "ks"),
                          ("Hellinger", "hellinger"),
                          ("Triangular", "triangular")):
            mon.close(getattr(bt, attr), want[lab], "property:" + attr, tag,
                      rtol=1e-6, atol=1e-8)
        from checks.B04 import bayes, chi2, fisher
        for i in range(n - 1):
            ob = np.array([ne[i:i + 2], e[i:i + 2]]) + .5
            if test == "chi2":
                s = chi2(ob)
                r = (s, stats.chi2.sf(s, 1))
            else:
                r = fisher(ob)
            tests.append((i, i + 1) + tuple(r) +
                         (bayes(ob[0, 0], ob[1, 0], ob[0, 1], ob[1, 1]),))
        if n >= 2:
            want["Cramer's V"] = None if (e[:n].sum() * ne[:n].sum() == 0) \
                else np.sqrt(chi2([ne[:n], e[:n]]) / cnt[:n].sum()) \
                if (cnt[:n] > 0).all() else None
        else:
            want["Cramer's V"] = 0.
        c = .39573882184806863
        iv = want["IV (Jeffrey)"] / c
        q = iv * np.exp(.5 * (1 - iv ** 2)) * np.prod(
            [1 - r[3] for r in tests]) * (1 - hn)
    else:
        p = o.transform(cx, lb=lb, ub=ub)
        want.update(target_metrics(cy, p))
        if (np.abs(cy) < 1e-9).any():
            for lab in ("MPE", "MAPE", "MdAPE"):
                want.pop(lab)
        mean = np.array([g.mean() if len(g) else 0. for g in groups])
        tm = np.concatenate(groups).mean()
        mon.close(bt.woe, np.abs(mean - tm).sum(), "property:woe", tag,
                  rtol=1e-7, atol=1e-9)
        for i in range(n - 1):
            a, b = groups[i], groups[i + 1]
            with np.errstate(all="ignore"):
                tests.append((i, i + 1) + tuple(stats.ttest_ind_from_stats(
                    a.mean(), a.std(), len(a), b.mean(), b.std(), len(b),
                    False)))
        q = (1 - 1e-6) * np.prod([1 - r[3] for r in tests]) * (1 - hn)
    want["Quality score"] = q
    for lab, v in want.items():
        m = re.search(r"^    {}\s+(\S+)$".format(re.escape(lab)), text, re.M)
        if not mon.check(m is not None, "report_line_missing:" + lab, text):
            continue
        if v is not None and np.isfinite(v):
            mon.close(float(m.group(1)), v, "report:" + lab, lambda: tag +
                      "\n" + text, rtol=1e-5, atol=2e-8)
            mon.seen("metrics")
    if np.isfinite(q):
        mon.close(bt.quality_score, q, "quality_score", tag, rtol=1e-5,
                  atol=1e-8)
    pat = r"^\s+(\d+)\s+(\d+)\s+(\S+)\s+(\S+)" + (
        r"\s+(\S+)\s+(\S+)$" if k == 0 else "$")
    rows = re.findall(pat, text.split("Significance tests")[-1], re.M)
    mon.check(len(rows) == len(tests), "report:tests_rows", text)
    for r, x in zip(rows, tests):
        r = [float(v) for v in r]
        mon.check(tuple(r[:2]) == x[:2], "report:test_bins", text)
        if np.isfinite(x[2:4]).all():
            mon.close(r[2:4], x[2:4], "report:test", lambda: tag + "\n" +
                      text, rtol=1e-3, atol=1e-5)
            mon.seen("tests")
        if k == 0:
            mon.check(abs(r[4] - x[4]) <= .51 / ns + 2e-3 and
                      abs(r[4] + r[5] - 1) < 2e-5, "report:bayesian",
                      lambda: "{} got {} expected {}".format(tag, r, x))


def run(rng, mon, k):
    x, y, style, codes, rows, skw = draw(rng, k)
    kw = dict(options(rng, k), **skw)
    lb = ub = None
    r = rng.random()
    if k == 0:
        if r < .4:
            lb, ub = float(rng.choice([.001, .05])), float(
                rng.choice([.999, .9]))
        elif r < .5:
            lb = .01
    else:
        if r < .3:
            lb, ub = np.quantile(y, [.05, .95]).tolist()
        elif r < .45:
            lb = float(y.min())
    miss = np.isnan(x)
    spec = np.isin(x, codes)
    clean = ~miss & ~spec
    if k == 0 and len(np.unique(y[clean])) < 2:
        return
    out = np.zeros(len(x), bool)
    if kw.get("outlier_detector"):
        from checks.R02 import reference
        ref = reference(kw["outlier_detector"], {}, x[clean], y[clean])
        if ref is None or ref[1].any():
            return
        out[clean] = ref[0]
        if k == 0 and len(np.unique(y[clean & ~out])) < 2:
            return
    cls = [OptimalPWBinning, ContinuousOptimalPWBinning][k]
    est = None
    if k == 0 and rng.random() < .3:
        est = DecisionTreeClassifier(max_depth=3, min_samples_leaf=5)
        kw["estimator"] = est
    nc = int((clean & ~out).sum())
    sub = False
    if rng.random() < .25:
        kw["n_subsamples"] = ns = [nc, nc + 1, nc - 1, nc + 500, nc // 2,
                                   3 * nc // 4][rng.integers(6)]
        sub = ns < nc
        if rng.random() < .8:
            kw["random_state"] = int(rng.integers(1000))
        mon.seen("subsamples" if sub else "all samples")
        if ns <= 0:
            return
    o = cls(**kw)
    tag = "{} {} lb={} ub={} {} m={}".format(cls.__name__, kw, lb, ub, style,
                                             len(x))
    x0, y0 = x.copy(), y.copy()
    try:
        o.fit(x, y, lb, ub)
    except Exception as e:
        if "require" in str(e) and "splits" in str(e):
            mon.seen("peak_without_splits")
            return
        # limits of the third-party convex solver
        if type(e).__module__.startswith("cvxpy") or \
                type(e).__name__ == "LinAlgError" or \
                "Invalid dimensions (0," in str(e):
            mon.seen("solver_error")
            return
        raise
    mon.check(np.array_equal(x, x0, equal_nan=True) and
              np.array_equal(y, y0), "input_changed", tag)
    mon.check(o.get_params().get("estimator") is est if k == 0 else True,
              "estimator_changed", tag)
    st = o.status
    st = st if isinstance(st, list) else [st]
    optimal = all(s == "OPTIMAL" for s in st)
    t = o.binning_table.build()
    s = np.asarray(o.splits, float)
    n = len(s) + 1
    nr = len(rows) + 1
    if not mon.check(len(t) == n + nr + 1, "rows", lambda: "{}\n{}".format(
            tag, t)):
        return
    deg = kw["degree"]
    C = t[["c%d" % j for j in range(deg + 1)]].iloc[:n].values.astype(float)
    if not np.isfinite(C).all():
        mon.seen("no_solution")
        return
    # --- recount
    row, _ = A.row_of(x, "numerical", s, None, rows)
    keep = ~out
    cnt = np.array([np.sum(row[keep] == i) for i in range(n + nr)])
    got = t["Count"].iloc[:n + nr].astype(int).tolist()
    mon.check(got == cnt.tolist() and t["Count"].iloc[-1] == cnt.sum(),
              "count", lambda: "{} {} {}".format(tag, got, cnt))
    mon.close(t["Count (%)"].iloc[:n + nr].astype(float), cnt / cnt.sum(),
              "count_pct", tag)
    groups = [y[keep & (row == i)] for i in range(n + nr)]
    if k == 0:
        mon.check(t["Event"].iloc[:n + nr].tolist() ==
                  [int(g.sum()) for g in groups] and
                  t["Non-event"].iloc[:n + nr].tolist() ==
                  [int((1 - g).sum()) for g in groups], "events",
                  lambda: "{}\n{}".format(tag, t))
        tot = [g.sum() for g in groups]
        emp = [g.mean() if 0 < g.sum() < len(g) else 0. for g in groups[n:]]
        te = sum(tot)
        tne = cnt.sum() - te
    else:
        mon.close(t["Sum"].iloc[:n + nr].astype(float),
                  [g.sum() for g in groups], "sum", tag)
        f = [g for g in groups]
        mon.close([v for v, g in zip(t["Std"].iloc[:n + nr], f) if len(g)],
                  [g.std() for g in f if len(g)], "std", tag, atol=1e-6)
        mon.close([v for v, g in zip(t["Min"].iloc[:n + nr], f) if len(g)],
                  [g.min() for g in f if len(g)], "min", tag)
        mon.close([v for v, g in zip(t["Max"].iloc[:n + nr], f) if len(g)],
                  [g.max() for g in f if len(g)], "max", tag)
        mon.check(t["Zeros count"].iloc[:n + nr].tolist() ==
                  [int((g == 0).sum()) for g in groups], "zeros", tag)
        emp = [g.mean() if len(g) else 0. for g in groups[n:]]
    mon.close(t["c0"].iloc[n:n + nr].astype(float), emp, "empirical_row",
              lambda: "{}\n{}".format(tag, t))
    report(rng, mon, o, k, t, n, nr, groups, x[clean & ~out],
           y[clean & ~out], lb, ub, tag)
    # --- transform
    v = np.r_[x, x[clean][:20] + rng.normal(0, 1, len(x[clean][:20])),
              s, [x[clean].min() - 3, x[clean].max() + 3], codes, np.nan]
    vr, _ = A.row_of(v, "numerical", s, None, rows)
    tl, tu = [(None, None), (lb, ub),
              (.02, .8) if k == 0 else (float(np.mean(y)), None)][
                  rng.integers(3)]
    ms = ["empirical", "empirical", 0, -1.5, .25, np.nan][rng.integers(6)]
    mm = ["empirical", "empirical", 0, 2, .6, np.nan][rng.integers(6)]
    exp = np.empty(len(v))
    for i in range(n):
        exp[vr == i] = np.clip(poly(C[i], v[vr == i]),
                               -np.inf if tl is None else tl,
                               np.inf if tu is None else tu)
    for j in range(nr):
        mt = mm if j == nr - 1 else ms
        exp[vr == n + j] = emp[j] if mt == "empirical" else mt
    a = dict(metric_special=ms, metric_missing=mm, lb=tl, ub=tu)
    if k == 0:
        a["metric"] = "event_rate"
    v0 = v.copy()
    g = o.transform(v, **a)
    sc = np.nanmax(np.abs(np.r_[exp, 1e-9]))
    mon.close(g, exp, "transform", lambda: "{} {} v={}".format(
        tag, a, v[~np.isclose(g, exp, atol=1e-7 * sc)][:5]), atol=1e-8 * sc,
        rtol=1e-7)
    mon.check(np.array_equal(v, v0, equal_nan=True), "transform:input", tag)
    if k == 0:
        w = o.transform(v, **dict(a, metric="woe"))
        ok = (vr >= n) | ((exp > 1e-5) & (exp < 1 - 1e-5))
        ew = exp.copy()
        c = vr < n
        with np.errstate(all="ignore"):
            lg = np.log((1 / exp - 1) * te / tne)
        ew[c] = lg[c]
        for j in range(nr):
            if (mm if j == nr - 1 else ms) == "empirical":
                ew[vr == n + j] = np.log((1 / emp[j] - 1) * te / tne) \
                    if 0 < emp[j] < 1 else 0.
        mon.close(w[ok], ew[ok], "transform_woe", tag, atol=1e-6, rtol=1e-6)
        mon.seen("woe")
    # --- shape
    if not optimal:
        mon.seen("not_optimal")
        return
    xs = np.unique(x[clean & ~out])
    f = np.array([poly(C[int(np.sum(q >= s))], q) for q in xs])
    rg = max(np.ptp(f), np.ptp(y) if k else 1.)
    tol = 2e-3 * rg
    shaped = kw["monotonic_trend"] not in (None, "ascending", "descending")
    judged = not sub and not shaped and (deg <= 1 or kw["monotonic_trend"] is None)
    if lb is not None and judged:
        mon.check(f.min() >= lb - tol, "bound:lb", lambda: "{} {}".format(
            tag, f.min()))
    if ub is not None and judged:
        mon.check(f.max() <= ub + tol, "bound:ub", lambda: "{} {}".format(
            tag, f.max()))
    if kw["continuous"] and deg >= 1:
        for i, q in enumerate(s):
            if abs(q) > 1e-9:
                mon.check(abs(poly(C[i], q) - poly(C[i + 1], q)) <= tol,
                          "continuity", lambda: "{} {} {} {}".format(
                              tag, q, poly(C[i], q), poly(C[i + 1], q)))
                mon.seen("continuity")
        if deg >= 2 and kw.get("continuous_deriv", True):
            for i, q in enumerate(s):
                dd = abs(dpoly(C[i], q) - dpoly(C[i + 1], q))
                mon.check(dd <= 2e-2 * rg / np.ptp(xs) * n, "derivative",
                          lambda: "{} {} {}".format(tag, q, dd))
                mon.seen("derivative")
    tr = kw["monotonic_trend"]
    if tr in ("ascending", "descending", "peak", "valley") and \
            kw["continuous"] and deg <= 1:
        mon.check(shape_ok(f, tr, tol, s), "trend:" + tr,
                  lambda: "{} {}".format(tag, f))
        mon.seen("trend_" + tr)
    # --- least squares oracle: separate, unconstrained polynomials
    if tr is None and not kw["continuous"] and lb is None and ub is None and \
            deg <= 1 and not sub and "regularization" not in kw and \
            "objective" not in kw:
        cx, cy = x[clean & ~out], y[clean & ~out]
        if k == 0:
            e = est or LogisticRegression()
            if est is None:
                cy = e.fit(cx.reshape(-1, 1), cy).predict_proba(
                    cx.reshape(-1, 1))[:, 1]
            else:
                cy = None
        if cy is not None:
            rr = np.array([int(np.sum(q >= s)) for q in cx])
            for i in range(n):
                xi, yi = cx[rr == i], cy[rr == i]
                if len(np.unique(xi)) > deg:
                    c = np.polyfit(xi, yi, deg)[::-1]
                    mon.close(poly(C[i], xi), poly(c, xi), "least_squares",
                              tag, atol=1e-4 * rg)
                    mon.seen("least_squares")
    # --- the regression asked for: same problem given to the solver
    if not sub and tr != "auto" and (k or est is None or rng.random() < .5):
        cx, cy = x[clean & ~out], y[clean & ~out]
        if k == 0:
            cy = (clone(est) if est is not None else LogisticRegression()).fit(
                cx.reshape(-1, 1), cy).predict_proba(cx.reshape(-1, 1))[:, 1]
        ref = RobustPWRegression(monotonic_trend=tr, **dict(
            dict(objective="l2", degree=deg, continuous=kw["continuous"],
                 extrapolation="continue"),
            **{a: kw[a] for a in ("objective", "continuous_deriv", "quantile",
                                  "h_epsilon", "regularization", "reg_l1",
                                  "reg_l2") if a in kw}))
        try:
            ref.fit(cx, cy, s, lb=lb, ub=ub)
        except Exception:
            ref = None
        if ref is not None:
            g = np.array([poly(ref.coef_[int(np.sum(q >= s))], q)
                          for q in xs])
            mon.close(f, g, "regression", lambda: "{} {}".format(tag, C),
                      atol=1e-3 * rg, rtol=1e-4)
            mon.seen("regression")
    mon.seen("pw%d" % k)
    if n > 1:
        mon.sig(k, kw.get("objective"), deg, kw["continuous"], tr,
                lb is None, ub is None, n, style, nr)
    mon.sample(tag[:200])


def binary(rng, mon):
    run(rng, mon, 0)


def continuous(rng, mon):
    run(rng, mon, 1)


FAMILIES = {"binary": (binary, 2000, 20000),
            "continuous": (continuous, 2000, 20000)}
REQUIRED = {"pw0": 120, "pw1": 120, "continuity": 100, "derivative": 30,
            "trend_ascending": 10, "trend_descending": 10, "trend_peak": 5,
            "trend_valley": 5, "woe": 150, "metrics": 3000,
            "tests": 500, "least_squares": 30, "regression": 500,
            "subsamples": 60, "all samples": 60}
