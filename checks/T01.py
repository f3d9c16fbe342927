"""T01: metric functions against first-principles definitions."""
import itertools
import os
import re
import tempfile

import numpy as np
from scipy import stats
from optbinning.binning import metrics as bm
from optbinning.metrics import classification as mc
from optbinning.metrics import regression as mr

PROP = "T01"
RULE = ("distinct = (function, size, tie style, class balance); non-trivial "
        "when the value lies strictly inside its range")
ASSUMPTIONS = ["KS is the maximum over thresholds of F_nonevent - F_event "
               "(one-sided, as documented for probabilities of the event)"]


def scores(rng, m):
    style = str(rng.choice(["cont", "ties", "const", "sorted", "rev",
                            "perfect"]))
    y = (rng.random(m) < rng.choice([.05, .3, .5, .9])).astype(int)
    i = rng.permutation(m)[:2]
    y[i] = [0, 1]
    p = 1 / (1 + np.exp(-(rng.choice([-2, 0, 1, 3]) * (y - .5) +
                          rng.normal(0, 1, m))))
    if style == "ties":
        p = np.round(p, int(rng.integers(0, 2)))
    elif style == "const":
        p = np.full(m, .3)
    elif style == "perfect":
        p = np.where(y == 1, .5 + p / 2, p / 2)
    elif style in ("sorted", "rev"):
        o = np.argsort(p)
        o = o if style == "sorted" else o[::-1]
        p, y = p[o], y[o]
    return y, p, style


def ref_gini(y, p):
    a, b = p[y == 1], p[y == 0]
    d = np.sign(a[:, None] - b[None, :])
    return d.mean()


def ref_ks(y, p):
    best, arg = -np.inf, None
    for t in np.unique(p):
        v = (p[y == 0] <= t).mean() - (p[y == 1] <= t).mean()
        if v > best + 1e-12:
            best, arg = v, t
    return best, arg


def classification(rng, mon):
    m = int(rng.choice([2, 3, 5, 17, 60, 300]))
    y, p, style = scores(rng, m)
    y0, p0 = y.copy(), p.copy()
    tag = "{} m={} y={} p={}".format(style, m, y.tolist()[:20],
                                     p.tolist()[:20])
    g, (k, pos) = mc.gini(y, p), mc.ks(y, p)
    rg, (rk, rt) = ref_gini(y, p), ref_ks(y, p)
    mon.close(g, rg, "gini:definition", tag)
    mon.close(k, rk, "ks:definition", tag)
    mon.check(-1 - 1e-12 <= g <= 1 + 1e-12, "gini:range", tag)
    mon.check(-1e-12 <= k <= 1 + 1e-12, "ks:range", tag)
    t = np.sort(p)[pos]
    mon.close((p[y == 0] <= t).mean() - (p[y == 1] <= t).mean(), rk,
              "ks:position", tag)
    o = rng.permutation(m)
    mon.close(mc.gini(y[o], p[o]), g, "gini:order", tag)
    mon.close(mc.ks(y[o], p[o])[0], k, "ks:order", tag)
    mon.check(np.array_equal(y, y0) and np.array_equal(p, p0),
              "input_changed", tag)
    if k > .999999:
        mon.check(g > 1 - 1e-9, "ks:perfect", tag)
    yp = (p > np.median(p)).astype(int)
    tp = sum(1 for a, b in zip(y, yp) if a == 1 and b == 1)
    tn = sum(1 for a, b in zip(y, yp) if a == 0 and b == 0)
    ne, nn = int(y.sum()), int(m - y.sum())
    d = mc.imbalanced_classification_metrics(y, yp)
    mon.close([d["True positive rate"], d["True negative rate"],
               d["False positive rate"], d["False negative rate"],
               d["Balanced accuracy"]],
              [tp / ne, tn / nn, 1 - tn / nn, 1 - tp / ne,
               (tp / ne + tn / nn) / 2], "imbalanced", tag)
    if 0 < tp < ne and 0 < tn < nn:
        se, sp = tp / ne, tn / nn
        mon.close(d["Discriminant power"], np.sqrt(3) / np.pi * (
            np.log(se / (1 - se)) + np.log(sp / (1 - sp))), "dp", tag)
        mon.seen("dp")
    mon.seen("cls_" + style)
    if 0 < abs(g) < 1:
        mon.sig("cls", m, style, ne)
    mon.sample(tag[:200])


def regression(rng, mon):
    m = int(rng.choice([2, 3, 5, 40, 200]))
    y = rng.normal(0, 10, m) + rng.choice([0, 30])
    if rng.random() < .3:
        y = np.round(y)
        y[y == 0] = 1.
    f = y + rng.normal(0, rng.choice([0.01, 1, 20]), m)
    if rng.random() < .2:
        f = np.full(m, y.mean())
    d = mr.regression_metrics(y, f)
    e = y - f
    n = float(m)
    s = lambda v: float(np.sort(v)[(m - 1) // 2] + np.sort(v)[m // 2]) / 2
    sst = sum((v - sum(y) / n) ** 2 for v in y)
    if sst == 0:
        return
    sym = np.abs(e) / (np.abs(y) + np.abs(f))
    ref = {"Mean absolute error": sum(abs(e)) / n,
           "Mean squared error": sum(e ** 2) / n,
           "Median absolute error": s(np.abs(e)),
           "Explained variance": 1 - sum((e - e.mean()) ** 2) / sst,
           "R^2": 1 - sum(e ** 2) / sst,
           "MPE": sum(e / y) / n, "MAPE": sum(np.abs(e / y)) / n,
           "SMAPE": sum(sym) / n, "MdAPE": s(np.abs(e / y)),
           "SMdAPE": s(sym)}
    tag = "m={} y={} f={}".format(m, y.tolist()[:5], f.tolist()[:5])
    mon.check(set(d) == set(ref), "reg:keys", list(d))
    for k, v in ref.items():
        mon.close(d.get(k, np.nan), v, "reg:" + k, tag, rtol=1e-7)
    mon.check(d["MAPE"] >= abs(d["MPE"]) - 1e-12 and
              0 <= d["SMAPE"] <= 1 + 1e-12, "reg:range", tag)
    mon.seen("regression")
    mon.sig("reg", m, round(float(d["R^2"]), 3))


def functions(rng, mon):
    n = int(rng.integers(1, 9))
    e = rng.integers(1, 50, n)
    ne = rng.integers(1, 50, n)
    if rng.random() < .3:
        e = rng.permutation(e * (rng.random(n) < .7))
    if rng.random() < .3:
        ne = rng.permutation(ne * (rng.random(n) < .7))
    p, q = rng.dirichlet(np.ones(n) * .8), rng.dirichlet(np.ones(n) * .8)
    if p.min() < 1e-12 or q.min() < 1e-12:
        return
    tag = "e={} ne={} p={} q={}".format(e, ne, p, q)
    st = np.random.get_state()[1].copy(), np.random.get_state()[2]
    if e.sum() and ne.sum() and n > 1:
        # concordance of events and non-events ranked by the bin rates
        c = 0.
        for i, j in itertools.product(range(n), range(n)):
            if e[i] + ne[i] and e[j] + ne[j]:
                c += e[i] * ne[j] * np.sign(e[i] * (e[j] + ne[j]) -
                                            e[j] * (e[i] + ne[i]))
        mon.close(bm.gini(e, ne), c / (e.sum() * ne.sum()), "bin_gini", tag)
        o = rng.permutation(n)
        mon.close(bm.gini(e[o], ne[o]), bm.gini(e, ne), "bin_gini:order",
                  tag)
    terms = dict(
        jeffrey=[(a - b) * np.log(a / b) for a, b in zip(p, q)],
        kullback_leibler=[a * np.log(a / b) for a, b in zip(p, q)],
        hellinger=[(np.sqrt(a) - np.sqrt(b)) ** 2 / 2 for a, b in zip(p, q)],
        triangular=[(a - b) ** 2 / (a + b) for a, b in zip(p, q)],
        jensen_shannon=[(a * np.log(2 * a / (a + b)) +
                         b * np.log(2 * b / (a + b))) / 2
                        for a, b in zip(p, q)])
    for k, v in terms.items():
        f = getattr(bm, k)
        mon.close(f(p, q), v, k + ":terms", tag)
        mon.close(f(p, q, return_sum=True), sum(v), k + ":sum", tag)
        mon.check(f(p, q, return_sum=True) >= -1e-12, k + ":negative", tag)
        mon.close(f(p, p, return_sum=True), 0, k + ":self", tag)
        if k != "kullback_leibler":
            mon.close(f(q, p, return_sum=True), sum(v), k + ":symmetric",
                      tag)
    mon.close(bm.entropy(p), -sum(a * np.log(a) for a in p), "entropy", tag)
    X = rng.dirichlet(np.ones(n), int(rng.integers(2, 4))).T
    k = X.shape[1]
    mid = X.mean(axis=1)
    ref = sum(sum(X[i, j] * np.log(X[i, j] / mid[i]) for i in range(n)
                  if X[i, j] > 0) for j in range(k)) / k
    mon.close(bm.jensen_shannon_multivariate(X), ref, "js_multi", tag,
              atol=1e-9)
    # any number of weighted distributions
    k = int(rng.integers(1, 12))
    X = rng.dirichlet(np.ones(n), k).T
    w = np.full(k, 1 / k) if rng.random() < .3 else rng.dirichlet(np.ones(k))
    mid = X @ w
    ref = sum(w[j] * X[i, j] * np.log(X[i, j] / mid[i]) for i in range(n)
              for j in range(k) if X[i, j] > 0)
    as_list = rng.random() < .3
    try:
        js = bm.jensen_shannon_multivariate(
            X.tolist() if as_list else X, list(w) if as_list else w)
        mon.close(js, ref, "js_weighted", lambda: "{} {}".format(X, w),
                  atol=1e-9)
    except Exception as err:
        mon.fail("js_weighted-rejected", "{!r} X={} w={}".format(err, X, w))
    for bad in (w * 1.01, np.append(w, 0.)):
        try:
            bm.jensen_shannon_multivariate(X, bad)
            mon.fail("js_weights-accepted", "X={} w={}".format(X, bad))
        except ValueError:
            mon.seen("invalid weights")
    if rng.random() < .3 and e.sum() and ne.sum():
        mon.close(bm.gini(e.tolist(), ne.tolist()), bm.gini(e, ne),
                  "bin_gini:list", tag)
        mon.close(bm.hhi(p.tolist()), bm.hhi(p), "hhi:list", tag)
        mon.close(bm.entropy(p.tolist()), bm.entropy(p), "entropy:list", tag)
    s = p
    mon.close(bm.hhi(s), sum(a * a for a in s), "hhi", tag)
    h = 1. if n == 1 else (sum(a * a for a in s) - 1 / n) / (1 - 1 / n)
    mon.close(bm.hhi(s, normalized=True), h, "hhi_norm", tag)
    a = rng.integers(1, 60, (2, 2))
    (e1, n1), (e2, n2) = a
    r1, r2 = e1 / (e1 + n1), e2 / (e2 + n2)
    pp = (e1 + e2) / a.sum()
    z = abs(r1 - r2) / np.sqrt(pp * (1 - pp) * (1 / (e1 + n1) +
                                                1 / (e2 + n2)))
    t, pv = bm.frequentist_pvalue(a, "chi2")
    mon.close([t, pv], [z ** 2, 2 * (1 - stats.norm.cdf(z))], "chi2", str(a),
              rtol=1e-6, atol=1e-12)
    mon.close(bm.test_proportions(e1, n1, e2, n2),
              [z, 2 * (1 - stats.norm.cdf(z))], "proportions", str(a),
              atol=1e-12)
    pa, pb = bm.bayesian_probability(a, 2000)
    ref = bayes(a)
    mon.check(abs(pa - ref) < 2e-2 and abs(pa + pb - 1) < 1e-9,
              "bayesian", lambda: "{} {} {}".format(a, pa, ref))
    tab = np.array([np.maximum(ne, 1), np.maximum(e, 1)])
    if n > 1:
        exp = tab.sum(0) * tab.sum(1)[:, None] / tab.sum()
        chi = ((tab - exp) ** 2 / exp).sum()
        mon.close(bm.chi2_cramer_v(tab[0], tab[1]),
                  [chi, np.sqrt(chi / tab.sum())], "cramer", tag)
    now = np.random.get_state()[1], np.random.get_state()[2]
    mon.check(np.array_equal(st[0], now[0]) and st[1] == now[1],
              "random_state", tag)
    mon.seen("functions")
    mon.sig("fun", n, e.sum(), ne.sum())


def bayes(a):
    """P(X > Y), X ~ Beta(bA.. as used for the table: row 0 vs row 1)."""
    (aA, aB), (bA, bB) = a
    u = (np.arange(4000) + .5) / 4000
    x = stats.beta(aB, bB).ppf(u)
    # P(A <= B's quantile) averaged over B
    return stats.beta(aA, bA).cdf(x).mean()


def plots(rng, mon):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    from optbinning.scorecard import plots as P
    m = int(rng.choice([4, 20, 80]))
    y, p, style = scores(rng, m)
    tag = "{} m={}".format(style, m)
    show = plt.show
    plt.show = lambda *a, **k: None
    try:
        plt.close("all")
        P.plot_ks(y, p)
        ax = plt.gca()
        texts = [t.get_text() for t in ax.texts]
        v = [float(re.search(r"KS: ([-\d.]+)%", t).group(1)) for t in texts
             if "KS:" in t]
        mon.check(len(v) == 1 and abs(v[0] / 100 - ref_ks(y, p)[0]) < 6e-5,
                  "plot:ks", lambda: "{} {}".format(tag, texts))
        lines = {str(l.get_label()): np.transpose(l.get_data())
                 for l in ax.lines}
        for name, k in (("Cumulative events", 1),
                        ("Cumulative non-events", 0)):
            xy = lines[name]
            # at the last point of every score: the share of its class
            for t in np.unique(p):
                j = np.flatnonzero(xy[:, 0] == t)
                mon.check(len(j) == np.sum(p == t) and abs(
                    xy[j[-1], 1] - (p[y == k] <= t).mean()) < 1e-9,
                    "plot:ks-lines", lambda: "{} {} {}".format(tag, name, t))
        seg = [np.asarray(c.get_segments()[0]) for c in ax.collections]
        at = float(seg[0][0][0])
        mon.check(len(seg) == 1 and abs(
            abs((p[y == 1] <= at).mean() - (p[y == 0] <= at).mean())
            - abs(seg[0][1][1] - seg[0][0][1])) < 1e-9 and abs(
            abs(seg[0][1][1] - seg[0][0][1]) - abs(v[0] / 100)) < 6e-5
            and abs(float(re.search(r" at (-?[\d.]+)", texts[0]).group(1))
                    - at) < 6e-3, "plot:ks-at", lambda: "{} {} {}".format(
                        tag, seg, texts))
        plt.close("all")
        P.plot_auc_roc(y, p)
        lab = " ".join(str(l.get_label()) for l in plt.gca().lines)
        v = float(re.search(r"AUC: ([\d.]+)", lab).group(1))
        mon.check(abs(v - (ref_gini(y, p) + 1) / 2) < 6e-6, "plot:auc",
                  lambda: "{} {}".format(tag, lab))
        xy = [np.transpose(l.get_data()) for l in plt.gca().lines
              if "AUC" in str(l.get_label())][0]
        a = np.array([[(p[y == 0] >= t).mean(), (p[y == 1] >= t).mean()]
                      for t in np.unique(p)])
        # every point drawn belongs to a threshold, the area is the AUC
        mon.check(all((np.abs(a - q).max(axis=1) < 1e-9).any() or
                      not q.any() for q in xy) and abs(np.trapezoid(
                          xy[:, 1], xy[:, 0]) - (ref_gini(y, p) + 1) / 2)
                  < 1e-9, "plot:roc", lambda: "{} {}".format(tag, xy))
        plt.close("all")
        P.plot_cap(y, p)
        line = [l for l in plt.gca().lines if "Gini" in str(l.get_label())]
        v = float(re.search(r"Gini: (-?[\d.]+)",
                            str(line[0].get_label())).group(1))
        mon.check(abs(v - ref_gini(y, p)) < 6e-6, "plot:gini", tag)
        xs, ys = map(np.asarray, line[0].get_data())
        ok = True
        for t in np.unique(p):
            c = (p >= t).mean()
            j = np.argmin(np.abs(xs - c))
            ok &= abs(xs[j] - c) < 1e-9 and \
                abs(ys[j] - (p[y == 1] >= t).mean()) < 1e-9
        mon.check(ok, "plot:cap", tag)
        # own texts, files, rejected arguments
        plt.close("all")
        k = int(rng.integers(3))
        f = (P.plot_ks, P.plot_auc_roc, P.plot_cap)[k]
        own = {a: str(rng.choice(["a b", "100%", "", "\u00e9"])) for a in
               ("title", "xlabel", "ylabel") if rng.random() < .5}
        f(y, p, **own)
        ax = plt.gca()
        default = [("Kolmogorov-Smirnov", "Threshold",
                    "Cumulative probability"),
                   ("ROC curve", "False Positive Rate",
                    "True Positive Rate"),
                   ("Cumulative Accuracy Profile (CAP)",
                    "Fraction of all population",
                    "Fraction of event population")][k]
        got = (ax.get_title(), ax.get_xlabel(), ax.get_ylabel())
        exp = tuple(own.get(a, d) for a, d in zip(
            ("title", "xlabel", "ylabel"), default))
        mon.check(got == exp, "plot:texts", lambda: (got, exp))
        plt.close("all")
        with tempfile.TemporaryDirectory() as d:
            fmt, magic = [("png", b"\x89PNG"), ("svg", b"<?xml"),
                          ("pdf", b"%PDF")][rng.integers(3)]
            name = os.path.join(d, "f" + ("." + fmt if rng.random() < .5
                                          else ""))
            f(y, p, savefig=True, fname=name, format=fmt)
            mon.check(os.listdir(d) == [os.path.basename(name)] and open(
                name, "rb").read(5).startswith(magic), "plot:file",
                lambda: (os.listdir(d), fmt))
            mon.check(not plt.get_fignums(), "plot:left-open", f.__name__)
            bad = [dict(title=3), dict(xlabel=[]), dict(ylabel=1.5),
                   dict(savefig="yes", fname=os.path.join(d, "g")),
                   dict(savefig=True), dict(fname=5),
                   dict(savefig=1, fname=os.path.join(d, "g"))]
            b = bad[rng.integers(len(bad))]
            try:
                f(y, p, **b)
                ok = False
            except (TypeError, ValueError):
                ok = True
            mon.check(ok and not os.path.exists(os.path.join(d, "g")),
                      "plot:rejects", lambda: (f.__name__, list(b)))
            for u in ((y[:-1], p), (y, p[:-1])):
                try:
                    f(*u)
                    ok = False
                except ValueError:
                    ok = True
                mon.check(ok, "plot:rejects", f.__name__)
        mon.seen("plot files")
    finally:
        plt.close("all")
        plt.show = show
    mon.seen("plots")
    mon.sig("plots", m, style)


FAMILIES = {"classification": (classification, 15000, 100000),
            "regression": (regression, 6000, 40000),
            "functions": (functions, 6000, 40000), "plots": (plots, 180, 800)}
REQUIRED = {"cls_ties": 200, "cls_perfect": 200, "regression": 500,
            "functions": 500, "plots": 30, "plot files": 30, "dp": 200}
