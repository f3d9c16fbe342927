"""B04: table statistics recomputed from the counts the table itself shows."""
import contextlib
import io
import re

import numpy as np
from optbinning import OptimalBinning
from scipy import stats, special

from vlib import anyfit as A

PROP = "B04"
RULE = ("distinct = (dtype, #rows, zero-count pattern of the rows, special "
        "form, test, trend reported); non-trivial when the table has at "
        "least two rows with both classes or a row with a zero count")
ASSUMPTIONS = ["both classes occur in the data",
               "Bayesian A/B probability: deterministic midpoint rule, error "
               "bound 1/(2 n_samples)"]


def xlogy_ratio(a, b):
    return a * np.log(a / b) if a > 0 else 0.0


def reference(ne, e):
    """Textbook statistics from the row counts."""
    n = ne + e
    T, TE, TN = n.sum(), e.sum(), ne.sum()
    er, woe, iv, js = (np.zeros(len(n)) for _ in range(4))
    hel = tri = 0.
    for i in range(len(n)):
        if e[i] == 0 or ne[i] == 0:
            continue
        p, q = e[i] / TE, ne[i] / TN
        m = (p + q) / 2
        er[i] = e[i] / n[i]
        woe[i] = np.log(q / p)
        iv[i] = (p - q) * np.log(p / q)
        js[i] = .5 * xlogy_ratio(p, m) + .5 * xlogy_ratio(q, m)
        hel += .5 * (np.sqrt(p) - np.sqrt(q)) ** 2
        tri += (p - q) ** 2 / (p + q)
    # Gini: probability that a random event row ranks above a random
    # non-event row (by event rate), minus the opposite
    g = 0.
    r = np.array([e[i] / n[i] if n[i] else -1. for i in range(len(n))])
    for i in range(len(n)):
        for j in range(len(n)):
            if r[i] > r[j]:
                g += e[i] * ne[j]
            elif r[i] < r[j]:
                g -= e[i] * ne[j]
    gini = g / (TE * TN)
    ks, ce, cn = 0., 0., 0.
    for i in range(len(n)):
        ce += e[i] / TE
        cn += ne[i] / TN
        ks = max(ks, abs(ce - cn))
    h = ((n / T) ** 2).sum()
    k = len(n)
    hn = (h - 1 / k) / (1 - 1 / k) if k > 1 else 1.
    return dict(count=n, pct=n / T, er=er, woe=woe, iv=iv, js=js,
                t_iv=iv.sum(), t_js=js.sum(), hel=hel, tri=tri, gini=gini,
                ks=ks, hhi=h, hhin=hn, T=T, TE=TE, TN=TN)


def chi2(obs):
    obs = np.asarray(obs, float)
    exp = obs.sum(1, keepdims=True) * obs.sum(0, keepdims=True) / obs.sum()
    return ((obs - exp) ** 2 / exp).sum()


def fisher(obs):
    (a, b), (c, d) = [[int(v) for v in r] for r in obs]
    n = a + b + c + d
    lo, hi = max(0, (a + b) - (b + d)), min(a + b, a + c)
    k = np.arange(lo, hi + 1)
    pm = stats.hypergeom.pmf(k, n, a + c, a + b)
    p0 = stats.hypergeom.pmf(a, n, a + c, a + b)
    p = min(1., pm[pm <= p0 * (1 + 1e-7)].sum())
    odds = (a * d) / (b * c) if b * c > 0 else np.inf
    return odds, p


def bayes(a1, b1, a2, b2, n=4000):
    """P[X1 < X2], X1~Beta(a1, b1), X2~Beta(a2, b2) (event rate order)."""
    v = (np.arange(1, n + 1) - .5) / n
    return special.betainc(a1, b1, stats.beta(a2, b2).ppf(v)).mean()


def trend_ok(label, er):
    d = np.diff(er)
    if label == "undefined":
        return len(er) <= 1
    if label == "ascending":
        return (d >= 0).all()
    if label == "descending":
        return (d <= 0).all()
    k = int(np.argmax(er)), int(np.argmin(er))
    if label.startswith("peak"):
        return (d[:k[0]] >= 0).all() and (d[k[0]:] <= 0).all()
    if label.startswith("valley"):
        return (d[:k[1]] <= 0).all() and (d[k[1]:] >= 0).all()
    if label == "no monotonic":
        if (d == 0).any():
            return True
        s = np.sign(d)
        return (np.diff(s) != 0).sum() >= 2
    return False


def compare_table(mon, tab, ref, k, add_totals, tag, when):
    body = tab.iloc[:k]
    for col, name in (("Count", "count"), ("Count (%)", "pct"),
                      ("Event rate", "er"), ("WoE", "woe"), ("IV", "iv"),
                      ("JS", "js")):
        mon.close(body[col].to_numpy(float), ref[name], when + ":" + col,
                  tag, rtol=1e-8, atol=1e-10)
    if add_totals:
        t = tab.loc["Totals"]
        mon.close([t["Count"], t["Count (%)"], t["Non-event"], t["Event"],
                   t["Event rate"], t["IV"], t["JS"]],
                  [ref["T"], 1, ref["TN"], ref["TE"], ref["TE"] / ref["T"],
                   ref["t_iv"], ref["t_js"]], when + ":totals", tag,
                  rtol=1e-8, atol=1e-10)
    else:
        mon.check(len(tab) == k, when + ":no_totals", tag)


def props(bt):
    return [bt.gini, bt.iv, bt.js, bt.hellinger, bt.triangular, bt.ks]


def one(rng, mon, d):
    if d is None:
        return
    tag = "{} {}".format(d["style"], d["kw"])
    optb = OptimalBinning(name="v", time_limit=60, **d["kw"])
    optb.fit(d["x"], d["y"])
    bt = optb.binning_table
    k = None
    first = bt.build()
    ne = first["Non-event"].to_numpy(float)[:-1]
    e = first["Event"].to_numpy(float)[:-1]
    k = len(e)
    mon.check((ne >= 0).all() and (e >= 0).all() and
              ne.sum() == (d["y"] == 0).sum() and
              e.sum() == (d["y"] == 1).sum(), "counts", tag)
    ref = reference(ne, e)
    compare_table(mon, first, ref, k, True, tag, "build")
    exp = [ref["gini"], ref["t_iv"], ref["t_js"], ref["hel"], ref["tri"],
           ref["ks"]]
    for name, g, x in zip(("gini", "iv", "js", "hellinger", "triangular",
                           "ks"), props(bt), exp):
        mon.close(g, x, "property:" + name, tag, rtol=1e-8, atol=1e-10)
    snap = first.copy(deep=True)
    # rebuild with other options, analyse, rebuild
    dig = int(rng.integers(0, 9))
    tot = bool(rng.random() < .5)
    compare_table(mon, bt.build(show_digits=dig, add_totals=tot), ref, k, tot,
                  tag, "rebuild")
    test = str(rng.choice(["chi2", "fisher"]))
    ns = int(rng.choice([100, 37, 500]))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        bt.analysis(pvalue_test=test, n_samples=ns)
    text = out.getvalue()
    mon.check(bt.build().equals(snap), "table_changed_by_analysis", tag)
    mon.close(props(bt), exp, "property_after_analysis", tag, rtol=1e-8,
              atol=1e-10)
    n_metric = k - 1 - len(d["rows"])
    if d["dtype"] == "categorical" and len(optb._cat_others):
        n_metric -= 1
    pv = []
    want = []
    for i in range(n_metric - 1):
        obs = np.array([ne[i:i + 2], e[i:i + 2]])
        if test == "chi2":
            s = chi2(obs)
            p = stats.chi2.sf(s, 1)
        else:
            s, p = fisher(obs)
        pv.append(p)
        # bin A has the greater event rate
        want.append((i, i + 1, s, p,
                     bayes(ne[i], e[i], ne[i + 1], e[i + 1])))
    c = .39573882184806863
    iv = ref["t_iv"]
    q = iv / c * np.exp(.5 * (1 - (iv / c) ** 2)) * np.prod(
        1 - np.array(pv)) * (1 - ref["hhin"])
    mon.close(bt.quality_score, q, "quality_score", tag, rtol=1e-6,
              atol=1e-9)
    cr = np.sqrt(chi2([ne[:n_metric], e[:n_metric]]) /
                 (ne[:n_metric].sum() + e[:n_metric].sum())) \
        if n_metric >= 2 else 0.
    for lab, x in (("Gini index", ref["gini"]), ("IV (Jeffrey)", iv),
                   ("JS (Jensen-Shannon)", ref["t_js"]),
                   ("Hellinger", ref["hel"]), ("Triangular", ref["tri"]),
                   ("KS", ref["ks"]), ("HHI", ref["hhi"]),
                   ("HHI (normalized)", ref["hhin"]), ("Cramer's V", cr),
                   ("Quality score", q)):
        m = re.search(r"^    {}\s+(\S+)$".format(re.escape(lab)), text, re.M)
        mon.check(m is not None, "report_line_missing:" + lab, text)
        if m:
            mon.close(float(m.group(1)), x, "report:" + lab, tag, rtol=0,
                      atol=1.1e-8)
    m = re.search(r"Monotonic trend\s+(.*)$", text, re.M)
    label = m.group(1).strip() if m else ""
    mon.check(trend_ok(label, ref["er"][:n_metric]), "report:trend",
              lambda: "{} {} {}".format(tag, label, ref["er"][:n_metric]))
    rows = re.findall(r"^\s+(\d+)\s+(\d+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)$",
                      text.split("Significance tests")[-1], re.M)
    mon.check(len(rows) == len(want), "report:tests_rows", text)
    for r, x in zip(rows, want):
        r = [float(v) for v in r]
        mon.check(tuple(r[:2]) == x[:2], "report:test_bins", text)
        mon.close(r[2:4], x[2:4], "report:" + test, tag, rtol=1e-4,
                  atol=2e-6)
        mon.check(abs(r[4] - x[4]) <= .51 / ns + 1e-3 and
                  abs(r[4] + r[5] - 1) < 2e-5, "report:bayesian",
                  lambda: "{} got {} expected {}".format(tag, r, x))
        mon.seen("tests_checked")
    mon.seen("tables")
    both = ((e > 0) & (ne > 0)).sum()
    zero = ((e == 0) != (ne == 0)).sum()
    if both >= 2:
        mon.seen("tables_two_rows")
    if zero:
        mon.seen("tables_one_sided_row")
    if both >= 2 or zero:
        mon.sig(d["dtype"], k, both, zero, type(d["kw"].get(
            "special_codes")).__name__, test, label)
    mon.sample(tag)


def numeric(rng, mon):
    d = A.binary_numeric(rng)
    if d is not None and rng.random() < .3:
        # one-sided special/missing rows
        m, s, c = A.masks(d)
        d["y"][m] = rng.integers(0, 2)
        if rng.random() < .5:
            d["y"][s] = rng.integers(0, 2)
    one(rng, mon, d)


def categorical(rng, mon):
    one(rng, mon, A.binary_categorical(rng))


def separated(rng, mon):
    """Clean records of one class only, the other class in special/missing:
    no row shows both classes."""
    m = int(rng.integers(6, 60))
    x, style = A.numeric_x(rng, m)
    k = int(rng.integers(1, m - 1))
    cl = int(rng.integers(0, 2))
    y = np.full(m, cl)
    y[:k] = 1 - cl
    x[:k] = np.nan if rng.random() < .5 else -999999.0
    d = dict(x=x, y=y, kw=dict(
        special_codes=[-999999.0], divergence=str(rng.choice(
            ["iv", "js", "hellinger", "triangular"])),
        prebinning_method=str(rng.choice(
            ["cart", "quantile", "uniform"]))), codes=[-999999.0],
             rows=[("Special", [-999999.0])], style="sep-" + style,
             dtype="numerical")
    one(rng, mon, d)


FAMILIES = {"numeric": (numeric, 1350, 30000),
            "categorical": (categorical, 750, 15000),
            "separated": (separated, 38, 400)}
REQUIRED = {"tables": 900, "tables_two_rows": 400,
            "tables_one_sided_row": 60, "tests_checked": 500}
