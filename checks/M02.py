"""M02: multiclass table and transform against a raw recount."""
import contextlib
import io
import re

import numpy as np
import pandas as pd
from optbinning import MulticlassOptimalBinning
from scipy import stats

from checks import B05
from checks.B04 import trend_ok
from vlib import anyfit as A

PROP = "M02"
RULE = ("distinct = (x style, #classes, labels, special form, metric, "
        "pre-binning, #rows); non-trivial when the table has two bins or a "
        "populated special/missing row")
ASSUMPTIONS = ["at least three classes, each present among the clean records "
               "(a class that only occurs among special/missing records is "
               "the listed known finding)"]


def workload(rng):
    d = A.binary_numeric(rng, 500)
    if d is None:
        return None
    kw, x = d["kw"], d["x"]
    for k in ("divergence", "min_bin_n_event", "gamma"):
        kw.pop(k, None)
    if kw.get("prebinning_method") == "mdlp":
        kw["prebinning_method"] = "cart"
    if not (kw.get("monotonic_trend") or "auto").startswith("auto"):
        kw["monotonic_trend"] = "auto"
    k = int(rng.integers(3, 7))
    z = np.where(np.isnan(x) | np.isin(x, d["codes"]), 0., x)
    z = np.clip((z - np.median(z)) / (np.std(z) + 1e-12), -4, 4)
    lg = np.stack([np.sin(z * rng.uniform(.2, 2) + i) * rng.uniform(0, 3)
                   for i in range(k)], axis=1) + rng.gumbel(size=(len(x), k))
    lab = [np.arange(k), np.arange(k) * 2 - 3, np.array(list("abcdef"))[:k],
           np.arange(k) + 1.][rng.integers(4)]
    d["y"], d["labels"] = lab[lg.argmax(axis=1)], lab
    return d


def one(rng, mon):
    d = workload(rng)
    if d is None:
        return
    kw, x, y = dict(d["kw"]), d["x"], d["y"]
    cl = ~np.isnan(x) & ~np.isin(x, d["codes"])
    labs = np.unique(y[cl])
    if len(labs) < 3:
        return
    absent = len(labs) < len(np.unique(y))
    sfx = ":class-absent-from-clean" if absent else ""
    metric = str(rng.choice(["mean_woe", "weighted_mean_woe", "indices",
                             "bins"]))
    tag = "{} {} {}".format(d["style"], len(labs), kw)
    mon.sample(tag)
    optb = MulticlassOptimalBinning(name="v", time_limit=60, **kw)
    optb.fit(pd.Series(x.copy()) if rng.random() < .3 else x.copy(), y.copy())
    mon.check(list(optb.classes) == list(labs), "classes" + sfx, tag)
    dig = int(rng.integers(0, 6))
    bt = optb.binning_table
    tab = bt.build(show_digits=dig)
    row, n_bins = A.row_of(x, "numerical", optb.splits, None, d["rows"])
    n_spec = len(d["rows"])
    n = n_bins + n_spec + 1
    if not mon.check(len(tab) == n + 1, "row_count",
                     lambda: "{}\n{}".format(tag, tab)):
        return
    N = np.array([[((row == r) & (y == c)).sum() for c in labs]
                  for r in range(n)])
    body = tab.iloc[:n]
    size = N.sum(axis=1)
    for j, c in enumerate(labs):
        mon.close(body["Event_{}".format(c)].to_numpy(float), N[:, j],
                  "event", tag)
        mon.close(body["Event_rate_{}".format(c)].to_numpy(float),
                  N[:, j] / np.maximum(size, 1), "event_rate", tag)
    raw = np.array([(row == r).sum() for r in range(n)])
    mon.close(body["Count"].to_numpy(float), raw, "count" + sfx, tag)
    if absent:
        mon.seen("absent_class")
        return
    mon.close(body["Count (%)"].to_numpy(float), size / len(x), "pct", tag)
    t = tab.loc["Totals"]
    tot = N.sum(axis=0)
    mon.close([t["Count"], t["Count (%)"]] +
              [t["Event_{}".format(c)] for c in labs] +
              [t["Event_rate_{}".format(c)] for c in labs],
              [len(x), 1] + list(tot) + list(tot / len(x)), "totals", tag)
    labels = [str(v) for v in body["Bin"]]
    s = np.asarray(optb.splits, float)
    mon.check((np.diff(s) > 0).all(), "splits_not_increasing", tag)
    e = np.concatenate([[-np.inf], s, [np.inf]])
    exp = ["{}{:.{d}f}, {:.{d}f})".format("(" if i == 0 else "[", e[i],
                                          e[i + 1], d=dig)
           for i in range(len(s) + 1)] + [k for k, _ in d["rows"]] + [
               "Missing"]
    mon.check(labels == exp, "labels", "{} {}".format(labels, exp))
    mon.seen("tables")
    if n_bins > 1:
        mon.seen("multi_bin")
    analysis(mon, bt, N, n_bins, n_spec, tag)

    # transform
    v = B05.probe(rng, d, optb)
    vr, _ = A.row_of(v, "numerical", optb.splits, None, d["rows"])
    ms, mm = B05.treatment(rng), B05.treatment(rng)
    NE = size[:, None] - N
    ok = (N > 0) & (NE > 0)
    with np.errstate(all="ignore"):
        woe = np.where(ok, np.log((NE / NE.sum(axis=0)) / (N / tot)), 0.)
    col = woe.mean(axis=1) if metric == "mean_woe" else woe @ tot / tot.sum()
    exp = B05.expected(v, vr, n_bins, n_spec, metric, col, labels, ms, mm,
                       None)
    got = optb.transform(v, metric=metric, metric_special=ms,
                         metric_missing=mm, show_digits=dig)
    tag += " {} ms={} mm={}".format(metric, ms, mm)
    for kind, sel in (("clean", vr < n_bins),
                      ("special", (vr >= n_bins) & (vr < n_bins + n_spec)),
                      ("missing", vr == n_bins + n_spec)):
        if not sel.any():
            continue
        g = np.asarray(got)[sel]
        q = [exp[i] for i in np.flatnonzero(sel)]
        key = "transform:{}:{}".format(kind, metric)
        if metric == "bins":
            mon.check(list(g) == list(q), key,
                      lambda: "{} got {} expected {}".format(tag, g, q))
        else:
            mon.close(g, np.array(q, float), key, tag, rtol=1e-8)
        mon.seen("records_" + kind, int(sel.sum()))
    if n_bins > 1 or size[n_bins:].any():
        mon.sig(d["style"], len(labs), labs.dtype.kind, metric,
                kw.get("prebinning_method"), "user_splits" in kw,
                type(kw.get("special_codes")).__name__, len(tab))


def entropy(p):
    p = p[p > 0]
    return -(p * np.log(p)).sum()


def analysis(mon, bt, N, n_bins, n_spec, tag):
    before = bt.build()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        bt.analysis()
    text = out.getvalue()
    P = N / N.sum(axis=0)
    js = entropy(P.mean(axis=1)) - np.mean([entropy(P[:, j]) for j in
                                            range(P.shape[1])])
    size = N.sum(axis=1)
    h = ((size / size.sum()) ** 2).sum()
    hn = (h - 1 / len(size)) / (1 - 1 / len(size))
    M = N[:n_bins]
    cv, pv, rows = 0., [], []
    if len(M) > 1:
        chi = stats.chi2_contingency(M, correction=False)[0]
        cv = np.sqrt(chi / M.sum() / min(M.shape[0] - 1, M.shape[1] - 1))
        for i in range(len(M) - 1):
            c2, p = stats.chi2_contingency(M[i:i + 2], correction=False)[:2]
            rows.append((i, i + 1, c2, p))
            pv.append(p)
    for lab, e in (("JS (Jensen-Shannon)", js), ("HHI", h),
                   ("HHI (normalized)", hn), ("Cramer's V", cv)):
        m = re.search(r"^    {}\s+(\S+)$".format(re.escape(lab)), text, re.M)
        if mon.check(m is not None, "analysis:missing:" + lab, text):
            mon.close(float(m.group(1)), e, "analysis:" + lab, tag, rtol=1e-6,
                      atol=2e-8)
    mon.close(bt.js, js, "js", tag)
    c = 0.39573882184806863
    z = js / np.log(N.shape[1])
    q = z * np.exp((1 - (z / c) ** 2) / 2) / c * np.prod(
        1 - np.array(pv)) * (1 - hn)
    mon.close(bt.quality_score, q, "quality_score", tag, rtol=1e-6,
              atol=1e-9)
    got = re.findall(r"^\s+(\d+)\s+(\d+)\s+(\S+)\s+(\S+)$",
                     text.split("Significance tests")[-1], re.M)
    if mon.check(len(got) == len(rows), "analysis:rows", text):
        for g, e in zip(got, rows):
            mon.close([float(v) for v in g], e, "analysis:chi2", tag,
                      rtol=1e-4, atol=1e-5)
    for j in range(N.shape[1]):
        m = re.search(r"^    Class\s+{}\s+(.*)$".format(j), text, re.M)
        mon.check(m and trend_ok(m.group(1).strip(), (
            M[:, j] / np.maximum(M.sum(axis=1), 1))), "analysis:trend", tag)
    mon.check(bt.build().equals(before), "table_changed_by_analysis", tag)
    mon.seen("analyses")


FAMILIES = {"numeric": (one, 6500, 40000)}
REQUIRED = {"tables": 600, "multi_bin": 350, "records_special": 500,
            "records_missing": 500}
