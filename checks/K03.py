"""K03: the monitoring report equals the drift recomputed from both samples."""
import contextlib
import copy
import io
import re

import numpy as np
import pandas as pd
from scipy import stats
from sklearn import metrics as skm

from vlib import score

PROP = "K03"
RULE = ("a fitted monitoring counts when both samples are non-empty; distinct "
        "situations are (target, PSI method, drift, kinds, sizes)")
ASSUMPTIONS = [
    "records with an unseen category have no row in a variable's table and "
    "count in no row",
    "rows are located with binnings fitted independently with the individual "
    "classes; the PSI bins of the score are read from psi_splits with the "
    "displayed convention [a, b)",
    "the displayed Std is the population standard deviation, the test uses "
    "the displayed Mean, Std and Count; a test without defined statistic (no "
    "records, no events, no non-events in both samples) is not judged",
    "both samples have both classes (binary target)"]
REQUIRED = {"monitoring": 120, "system rows": 700, "variable rows": 1000,
            "special row used": 60, "missing row used": 120, "identical": 8,
            "cart": 35, "quantile": 25, "uniform": 25, "continuous": 30,
            "binary": 60, "tied with split": 15, "tests": 400,
            "metric indices": 40, "unseen": 20, "rounded": 15,
            "target container": 40, "empty system row": 10, "report": 20}


def psi_of(a, e):
    a, e = np.asarray(a, float), np.asarray(e, float)
    with np.errstate(divide="ignore", invalid="ignore"):
        v = (a - e) * np.log(a / e)
    return np.where((a == 0) & (e == 0), 0., np.where(
        a == e, 0., v))


def check_psi(mon, key, got, a, e, info):
    exp = psi_of(a, e)
    mon.check(np.allclose(got, exp, rtol=1e-7, atol=1e-12), key, lambda:
              "{}: counts-proportions A {} E {} PSI {} expected {}".format(
                  info, list(a), list(e), list(got), list(exp)))
    mon.check((np.asarray(got, float) >= -1e-12).all(), key + "-negative",
              lambda: (info, list(got)))


def sample(rng, d, sc):
    """Actual sample with some drift."""
    kind = str(rng.choice(["same", "resample", "drift", "query", "query",
                           "small"], p=[.1, .2, .2, .2, .2, .1]))
    n = len(d["y"])
    y = np.asarray(d["y"])
    if kind == "same":
        return kind, d["df"].copy(), y.copy()
    if kind == "small":
        idx = rng.integers(0, n, int(rng.integers(4, 12)))
    elif kind == "drift":
        s = np.argsort(np.asarray(sc.score(d["df"]), float), kind="stable")
        idx = s[np.minimum((n * rng.random(n) ** 2).astype(int), n - 1)]
    else:
        idx = rng.integers(0, n, int(rng.integers(n // 2, n * 2)))
    X = d["df"].iloc[idx].copy()
    if kind == "query":
        X = score.query(rng, d)
        ya = rng.permutation(y)[:len(X)] if len(X) <= n else rng.choice(
            y, len(X))
    else:
        ya = y[idx].copy()
        X.index = range(len(X))
    if d["ttype"] == "binary":
        ya[0], ya[1] = 0, 1
    return kind, X, ya


def interval(label):
    a, b = re.fullmatch(r"[\[(](.*), (.*)\)", label).groups()
    return float(a), float(b)


def base(rng, mon):
    from optbinning.scorecard import ScorecardMonitoring
    d = score.make(rng, nmax=200)
    kw = score.scaling(rng, d["ttype"])
    sc = score.fit(d, **kw)
    if not np.isfinite(np.asarray(sc.score(d["df"]), float)).all():
        # constant scorecard: the scaling is undefined
        mon.seen("degenerate")
        return
    binary = d["ttype"] == "binary"
    kind, Xa, ya = sample(rng, d, sc)
    Xe, ye = d["df"].copy(), np.asarray(d["y"]).copy()
    mkw = {"psi_method": str(rng.choice(["cart", "quantile", "uniform"]))}
    if rng.random() < .6:
        mkw["psi_n_bins"] = int(rng.integers(2, 12))
    if rng.random() < .4:
        mkw["psi_min_bin_size"] = float(rng.choice([.01, .1, .3, .5]))
    if rng.random() < .3:
        mkw["show_digits"] = int(rng.integers(0, 7))
    conv = rng.integers(4)
    ca, ce = ya, ye
    if conv == 1:
        ca, ce = list(ya), list(ye)
    elif conv == 2:
        ca = pd.Series(ya, index=rng.permutation(len(ya)))
        ce = pd.Series(ye, index=rng.permutation(len(ye)))
    mon.seen("target container", bool(conv in (1, 2)))
    info = "{} {} {} {}".format(d["ttype"], kind, mkw, kw)
    keep = copy.deepcopy((Xa, Xe, ya, ye))
    m = ScorecardMonitoring(scorecard=sc, **mkw)
    score.quiet(m.fit, Xa, ca, Xe, ce)
    mon.check(keep[0].equals(Xa) and keep[1].equals(Xe) and np.array_equal(
        keep[2], ya) and np.array_equal(keep[3], ye), "input-modified", "")
    mon.seen("monitoring")
    mon.seen(mkw["psi_method"])
    mon.seen(d["ttype"])
    mon.seen("rounded", bool(kw.get("rounding")))
    mon.sig(d["ttype"], mkw["psi_method"], kind, sorted(set(d["kinds"])),
            mkw.get("psi_n_bins"), int(conv))
    mon.sample(info)
    # ---------------------------------------------------------- system PSI
    sa, se = np.asarray(sc.score(Xa), float), np.asarray(sc.score(Xe), float)
    sp = np.asarray(m.psi_splits, float)
    if not mon.check(bool((np.diff(sp) > 0).all()), "psi-splits", lambda: sp):
        return
    mon.check(len(sp) < mkw.get("psi_n_bins", 20), "psi-n-bins", lambda:
              (info, sp))
    nb = len(sp) + 1
    mon.seen("tied with split", bool(np.isin(sp, np.r_[sa, se]).any()))
    ra = np.searchsorted(sp, sa, side="right")
    re_ = np.searchsorted(sp, se, side="right")
    # scores within rounding distance of a split are not judged
    near = bool(any((np.abs(np.r_[sa, se] - v)[np.r_[sa, se] != v] <
                     1e-9 * (1 + abs(v))).any() for v in sp))
    t = m.psi_table()
    body = t.iloc[:-1]
    if not mon.check(len(body) == nb, "psi-rows", lambda: (info, len(body))):
        return
    cA, cE = (np.bincount(r, minlength=nb) for r in (ra, re_))
    if near:
        mon.seen("near split")
        return
    mon.seen("system rows", nb)
    mon.seen("empty system row", int(((cA == 0) | (cE == 0)).sum()))
    mon.check(np.array_equal(body["Count A"].values.astype(int), cA) and
              np.array_equal(body["Count E"].values.astype(int), cE),
              "psi-counts", lambda: "{} splits {}: displayed {} / {} "
              "recomputed {} / {}".format(
                  info, sp, body["Count A"].tolist(),
                  body["Count E"].tolist(), cA, cE))
    pA, pE = cA / len(sa), cE / len(se)
    mon.close(body["Count A (%)"].values.astype(float), pA, "psi-pct", info)
    mon.close(body["Count E (%)"].values.astype(float), pE, "psi-pct", info)
    check_psi(mon, "psi", body["PSI"].values.astype(float), pA, pE, info)
    tot = t.iloc[-1]
    mon.check(int(tot["Count A"]) == len(sa) and int(tot["Count E"]) ==
              len(se) and tot["Count A (%)"] == 1 and tot["Count E (%)"] == 1,
              "psi-totals", lambda: tot)
    exp = float(psi_of(pA, pE).sum())
    mon.check(np.isclose(float(tot["PSI"]), exp, rtol=1e-7, atol=1e-12) or
              float(tot["PSI"]) == exp, "psi-total", lambda:
              "{}: {} expected {}".format(info, tot["PSI"], exp))
    if kind == "same":
        mon.seen("identical")
        mon.check(abs(float(tot["PSI"])) < 1e-12, "psi-identical", lambda:
                  (info, tot["PSI"]))
    dg = mkw.get("show_digits", 2)
    edges = np.r_[-np.inf, sp, np.inf]
    labels = [interval(b) for b in body["Bin"]]
    mon.check(all(abs(x - y) <= .5000001 * 10 ** -dg or x == y
                  for (x, _), y in zip(labels, edges[:-1])) and
              all(abs(x - y) <= .5000001 * 10 ** -dg or x == y
                  for (_, x), y in zip(labels, edges[1:])), "psi-labels",
              lambda: (body["Bin"].tolist(), sp))
    # --------------------------------------------------------------- tests
    tt = m.tests_table()
    if not mon.check(len(tt) == nb and list(tt["Bin"]) == list(body["Bin"])
                     and np.array_equal(tt["Count A"], cA)
                     and np.array_equal(tt["Count E"], cE), "tests-rows",
                     lambda: tt):
        return
    for i in range(nb):
        yA, yE = ya[ra == i], ye[re_ == i]
        mon.seen("tests")
        row = tt.iloc[i]
        if binary:
            for c, v in (("Event rate A", yA), ("Event rate E", yE)):
                mon.check(len(v) == 0 or np.isclose(row[c], v.mean()),
                          "tests-event-rate", lambda: (info, i, row[c]))
            obs = np.array([[(yA == 0).sum(), (yE == 0).sum()],
                            [(yA == 1).sum(), (yE == 1).sum()]], float)
            r, c, n = obs.sum(1), obs.sum(0), obs.sum()
            if (r == 0).any() or (c == 0).any():
                continue
            ex = np.outer(r, c) / n
            st = float(((obs - ex) ** 2 / ex).sum())
            pv = float(stats.chi2.sf(st, 1))
        else:
            for c, v in (("A", yA), ("E", yE)):
                mon.check(len(v) == 0 or (np.isclose(
                    row["Mean " + c], v.mean()) and np.isclose(
                        row["Std " + c], v.std(), atol=1e-9 * (
                            1 + np.abs(v).max()))),
                    "tests-mean-std", lambda: "{} row {}: mean {} std {} "
                    "expected {} {}".format(info, i, row["Mean " + c],
                                            row["Std " + c], v.mean(),
                                            v.std()))
            if min(len(yA), len(yE)) < 2:
                continue
            va, ve = yA.var() / len(yA), yE.var() / len(yE)
            if va + ve < 1e-12 * (1 + np.abs(ye).max() ** 2):
                continue
            st = (yA.mean() - yE.mean()) / np.sqrt(va + ve)
            df = (va + ve) ** 2 / (va ** 2 / (len(yA) - 1) + ve ** 2 / (
                len(yE) - 1))
            pv = 2 * stats.t.sf(abs(st), df)
        mon.check(np.isclose(row["statistic"], st, rtol=1e-6, atol=1e-9) and
                  np.isclose(row["p-value"], pv, rtol=1e-6, atol=1e-9),
                  "tests-statistic", lambda: "{} row {}: {} {} expected {} {}"
                  .format(info, i, row["statistic"], row["p-value"], st, pv))
    # ---------------------------------------------------------- variables
    ref = score.singles(d)
    tab = sc.table()
    names = [str(v) for v in dict.fromkeys(tab["Variable"])]
    det = m.psi_variable_table(style="detailed")
    summ = m.psi_variable_table(style="summary")
    mon.check(sorted(summ["Variable"]) == sorted(names) and len(summ) == len(
        names), "variable-summary-rows", lambda: summ)
    for n in names:
        o = ref[n]
        v, find, _ = score.rows_values(d, n, o)
        nr = len(v)
        fa, fe = find(Xa[n].values), find(Xe[n].values)
        a = np.bincount(fa[fa >= 0], minlength=nr)
        e = np.bincount(fe[fe >= 0], minlength=nr)
        mon.seen("unseen", int((fa < 0).sum()))
        ns = len(score.special_rows(o))
        mon.seen("special row used", int((a + e)[nr - 1 - ns:-1].sum() > 0))
        mon.seen("missing row used", int((a + e)[-1] > 0))
        mon.seen("metric indices", bool((d["per"] or {}).get(n)))
        mon.seen("variable rows", nr)
        part = det[det["Variable"] == n]
        mon.check(m.psi_variable_table(n, "detailed").equals(part),
                  "variable-detailed-name", n)
        own = [str(b) for b in tab[tab["Variable"] == n]["Bin"]]
        # rows without record in either sample may be left out
        if not mon.check([str(b) for b in part["Bin"]] == own,
                         "variable-rows", lambda: "{} {}: rows {} of the "
                         "variable {}".format(info, n, part["Bin"].tolist(),
                                              own)):
            return
        mon.check(np.array_equal(part["Count A"], a) and np.array_equal(
            part["Count E"], e), "variable-counts", lambda: "{} {} fit {} per "
            "{}: displayed {} / {} recomputed {} / {}".format(
                info, n, d["fit"], d["per"], part["Count A"].tolist(),
                part["Count E"].tolist(), a, e))
        if a.sum() == 0:
            continue
        pa, pe = a / a.sum(), e / e.sum()
        mon.close(part["Count A (%)"].values, pa, "variable-pct", info)
        mon.close(part["Count E (%)"].values, pe, "variable-pct", info)
        check_psi(mon, "variable-psi", part["PSI"].values.astype(float), pa,
                  pe, info + " " + n)
        exp = float(psi_of(pa, pe).sum())
        for got in (float(summ[summ["Variable"] == n]["PSI"].values[0]),
                    float(m.psi_variable_table(n).values[0])):
            mon.check(got == exp or np.isclose(got, exp, rtol=1e-7,
                                               atol=1e-12),
                      "variable-psi-total", lambda: (info, n, got, exp))
        if kind == "same":
            mon.check(abs(exp) < 1e-12, "variable-psi-identical", "")
    # ------------------------------------------------- report: target, perf.
    if rng.random() < .35:
        report(rng, mon, m, sc, d, Xa, ya, Xe, ye, info)


def numbers_of(text, label):
    for line in text.splitlines():
        if line.strip().startswith(label) or re.match(
                r"\s*\d*\s*" + re.escape(label), line):
            return [float(x) for x in re.findall(
                r"(?<![\w.])-?(?:\d+\.\d*(?:e[-+]\d+)?|\d+|inf|nan)(?!\w)",
                line.split(label, 1)[1])]
    return None


def report(rng, mon, m, sc, d, Xa, ya, Xe, ye, info):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), pd.option_context(
            "display.precision", 6):
        score.quiet(m.system_stability_report)
    text = buf.getvalue()
    mon.seen("report")

    def line(label, want, tol=2e-3):
        got = numbers_of(text, label)
        if not mon.check(got is not None and len(got) >= len(want),
                         "report-line", lambda: "{!r} in {}".format(
                             label, text[:1500])):
            return
        ok = all((not np.isfinite(w)) or abs(g - w) <= tol * (1 + abs(w))
                 for g, w in zip(got, want))
        mon.check(ok, "report:" + label, lambda: "{}: printed {} recomputed "
                  "{}".format(info, got, want))
    if d["ttype"] == "binary":
        line("Number of records", [len(ya)])
        line("Non-event records", [(ya == 0).sum(), (ya == 0).mean()])
        P = []
        for X, y in ((Xa, ya), (Xe, ye)):
            p = sc.predict(X)
            with np.errstate(all="ignore"):
                P.append(((p[y == 1] == 1).mean(), (p[y == 0] == 0).mean(),
                          2 * skm.roc_auc_score(
                              y, sc.predict_proba(X)[:, 1]) - 1))
        line("True positive rate", [P[0][0], P[1][0], P[0][0] - P[1][0]])
        line("True negative rate", [P[0][1], P[1][1], P[0][1] - P[1][1]])
        line("False positive rate", [1 - P[0][1], 1 - P[1][1]])
        line("False negative rate", [1 - P[0][0], 1 - P[1][0]])
        line("Balanced accuracy", [np.mean(P[0][:2]), np.mean(P[1][:2])])
        line("Gini", [P[0][2], P[1][2], P[0][2] - P[1][2]])
    else:
        for lab, f in (("Mean", np.mean), ("Std", np.std),
                       ("Median", np.median),
                       ("p25", lambda v: np.percentile(v, 25)),
                       ("p75", lambda v: np.percentile(v, 75))):
            line(lab, [f(ya), f(ye)])
        pa, pe = sc.predict(Xa), sc.predict(Xe)
        for lab, f in (("Mean absolute error", skm.mean_absolute_error),
                       ("Mean squared error", skm.mean_squared_error),
                       ("Median absolute error", skm.median_absolute_error),
                       ("Explained variance", skm.explained_variance_score),
                       ("R^2", skm.r2_score)):
            line(lab, [f(ya, pa), f(ye, pe), f(ya, pa) - f(ye, pe)])
    t = numbers_of(text, "PSI total:")
    want = float(m.psi_table()["PSI"].iloc[-1])
    mon.check(bool(t) and (not np.isfinite(want) or abs(t[0] - want) < 6e-5),
              "report-psi-total", lambda: (t, want))
    verdict = re.search(r"PSI total:.*\((.*)\)", text).group(1).lower()
    mon.check(("no" in verdict.split()[0]) == (want < .1) or abs(
        want - .1) < 1e-9, "report-verdict", lambda: (want, verdict))


FAMILIES = {"base": (base, 600, 4000)}
