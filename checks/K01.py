"""K01: the score of every record is the sum of the displayed points of its
rows; predictions are the estimator's predictions of the binned record; scores
are an affine function of the linear predictor."""
import copy

import numpy as np

from vlib import score, table

PROP = "K01"
RULE = ("a record counts when its score was compared with the displayed "
        "points of the rows found independently; distinct situations are "
        "(target, scaling, options, variable kinds)")
ASSUMPTIONS = [
    "rows are located with the splits/categories of binnings fitted "
    "independently with the individual classes",
    "an unseen category has no row: its score is checked only through the "
    "affine relation with the linear predictor (unrounded scorecards)"]
REQUIRED = {"records": 6000, "special record": 150, "missing record": 300,
            "unseen record": 60, "pdo_odds": 60, "min_max": 80, "none": 25,
            "rounding": 50, "reverse": 60, "intercept_based": 60,
            "own params": 40, "continuous": 50, "detailed": 200}


def degenerate(sc, d, ref, sel):
    coef = np.ravel(sc.estimator_.coef_)
    return sum(abs(c) * np.ptp(score.rows_values(d, n, ref[n])[0])
               for c, n in zip(coef, sel)) < 1e-9


def base(rng, mon):
    d = score.make(rng)
    kw = score.scaling(rng, d["ttype"])
    keep = copy.deepcopy((d["df"], d["y"], kw))
    if rng.random() < .15:
        # same object fitted on something else before
        from optbinning import BinningProcess
        d0 = score.make(rng, ttype=d["ttype"])
        sc = score.fit(d0, **score.scaling(rng, d["ttype"]))
        full = dict(scaling_method=None, scaling_method_params=None,
                    intercept_based=False, reverse_scorecard=False,
                    rounding=False)
        full.update(copy.deepcopy(kw))
        sc.set_params(binning_process=BinningProcess(**d["kw"]),
                      estimator=d["est"], **full)
        f = dict(d["fit"])
        if d["weights"] is not None:
            f["sample_weight"] = d["weights"]
        score.quiet(sc.fit, d["df"], d["y"], **f)
        mon.seen("refit")
    else:
        sc = score.fit(d, **kw)
    mon.check(keep[0].equals(d["df"]) and np.array_equal(keep[1], d["y"]),
              "input-modified", "")
    ref = score.singles(d)
    tab = sc.table()
    det = sc.table("detailed")
    sel = [n for n in d["names"] if n in set(tab["Variable"])]
    sup = list(sc.binning_process_.get_support(names=True))
    if not mon.check(list(dict.fromkeys(tab["Variable"])) == sup, "variables",
                     lambda: (list(dict.fromkeys(tab["Variable"])), sup)):
        return
    if not mon.check(list(tab.columns) == ["Variable", "Bin", "Points"] and
                     len(det) == len(tab) and np.array_equal(
                         det["Points"].values.astype(float),
                         tab["Points"].values.astype(float), equal_nan=True),
                     "styles", lambda: list(tab.columns)):
        return
    if degenerate(sc, d, ref, sel):
        # constant score: the scaling is undefined
        mon.seen("constant score")
        return
    mon.seen("detailed")
    coef = np.ravel(sc.estimator_.coef_)
    icpt = float(np.ravel(getattr(sc.estimator_, "intercept_", 0.))[0])
    for k in ("pdo_odds", "min_max"):
        mon.seen(k, kw.get("scaling_method") == k)
    mon.seen("none", "scaling_method" not in kw)
    mon.seen("rounding", bool(kw.get("rounding")))
    mon.seen("reverse", bool(kw.get("reverse_scorecard")))
    mon.seen("intercept_based", bool(kw.get("intercept_based")))
    mon.seen("own params", bool(d["per"]))
    mon.seen("continuous", d["ttype"] == "continuous")
    mon.sig(d["ttype"], kw.get("scaling_method"), sorted(kw), sorted(
        set(d["kinds"])), d["fit"].get("metric_special"),
        d["fit"].get("metric_missing"), bool(d["per"]))
    for X in (score.query(rng, d), d["df"]):
        m = len(X)
        total = np.full(m, float(sc.intercept_) if kw.get("intercept_based")
                        else 0.)
        lp = np.full(m, icpt)
        rowless = np.zeros(m, bool)
        Z = np.zeros((m, len(sel)))
        for i, n in enumerate(sel):
            o = ref[n]
            v, find, unseen = score.rows_values(d, n, o)
            part = tab[tab["Variable"] == n]
            if not mon.check(len(part) == len(v), "rows", lambda:
                             "{}: {} rows displayed, {} expected".format(
                                 n, len(part), len(v))):
                return
            bins = [str(b) for b in part["Bin"]]
            want = [str(b) for b in o.binning_table.build(
                show_digits=d["fit"].get("show_digits", 2),
                add_totals=False)["Bin"]]
            mon.check(bins == want, "bin-labels", lambda: (n, bins, want))
            r = find(X[n].values)
            pts = part["Points"].values.astype(float)
            total += np.where(r >= 0, pts[np.maximum(r, 0)], 0.)
            rowless |= r < 0
            mon.seen("unseen with own value", int(
                (r < 0).sum() if o.cat_unknown is not None else 0))
            Z[:, i] = np.where(r >= 0, v[np.maximum(r, 0)], unseen)
            lp += coef[i] * Z[:, i]
            ns = len(score.special_rows(o))
            mon.seen("special record", int((
                (r >= len(v) - 1 - ns) & (r < len(v) - 1)).sum()))
            mon.seen("missing record", int((r == len(v) - 1).sum()))
        got = np.asarray(sc.score(X), float)
        if not mon.check(got.shape == (m,), "score-shape", got.shape):
            return
        ok = np.isclose(got, total, rtol=1e-9, atol=1e-7) | rowless
        mon.check(ok.all(), "score", lambda: "{} params {} fit {} per {}: "
                  "score {} displayed points {} record {}".format(
                      d["ttype"], kw, d["fit"], d["per"], got[~ok][:3],
                      total[~ok][:3], X[~ok].iloc[0].to_dict()))
        mon.seen("records", m)
        mon.seen("unseen record", int(rowless.sum()))
        # affine in the linear predictor, with the documented sense
        if not kw.get("rounding"):
            a, b = np.argmin(lp), np.argmax(lp)
            if lp[b] - lp[a] > 1e-6 * (1 + np.abs(lp).max()):
                slope = (got[b] - got[a]) / (lp[b] - lp[a])
                fitv = got[a] + slope * (lp - lp[a])
                tol = 1e-7 * (1 + np.abs(got).max())
                bad = np.abs(fitv - got) > tol
                mon.check(not bad.any(), "affine", lambda: "{} fit {} per {}: "
                          "record {} score {} expected {} ({} of them with "
                          "unseen category)".format(
                              kw, d["fit"], d["per"],
                              X[bad].iloc[0].to_dict(), got[bad][:3],
                              fitv[bad][:3], rowless[bad].sum()))
                if "scaling_method" in kw:
                    up = bool(kw.get("reverse_scorecard"))
                    mon.check((slope > 0) == up, "sense", lambda:
                              (slope, kw))
                else:
                    mon.close(slope, 1., "slope-unscaled", kw, rtol=1e-6)
        # predictions
        e = sc.estimator_
        Zf = score.quiet(type(X), Z, columns=sel, index=X.index)
        sharp = np.abs(lp) > 1e-9 if d["ttype"] == "binary" else slice(None)
        mon.close(sc.predict(X)[sharp], e.predict(Zf)[sharp], "predict", "",
                  atol=1e-6)
        if d["ttype"] == "binary":
            p = np.asarray(sc.predict_proba(X))
            mon.close(p, e.predict_proba(Zf), "predict_proba", "")
            mon.close(sc.decision_function(X), lp, "decision_function", "",
                      atol=1e-8)
            mon.close(p[:, 1], 1 / (1 + np.exp(-lp)), "probability", "")
        else:
            mon.close(sc.predict(X), lp, "predict-linear", "", rtol=1e-7,
                      atol=1e-6)
    # the same record scores the same in any company
    k = int(rng.integers(1, m + 1))
    idx = rng.permutation(m)[:k]
    mon.close(sc.score(X.iloc[idx]), got[idx], "score-batch", "")
    mon.sample("{} target, {} variables, {}".format(d["ttype"], len(sel), kw))


FAMILIES = {"base": (base, 720, 6000)}
