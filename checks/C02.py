"""C02: continuous table and transform against a raw recount."""
import contextlib
import io
import re

import numpy as np
import pandas as pd
from optbinning import ContinuousOptimalBinning
from scipy import stats

from checks import B05
from vlib import anyfit as A

PROP = "C02"
RULE = ("distinct = (dtype, x style, y style, pre-binning, user splits, "
        "special form, cut-off, weights, metric, #rows); non-trivial when "
        "the table has two bins or a populated special/missing/others row")
ASSUMPTIONS = ["finite targets", "integer sample weights",
               "standard deviation is the population one (computed from sums "
               "of squares: compared up to cancellation, 1e-6 of the target "
               "magnitude)",
               "an empty row has mean 0, hence WoE -total mean"]


def groups_of(y, w, row, n):
    return [(y[row == r], w[row == r]) for r in range(n)]


def one(rng, mon, d):
    if d is None:
        return
    A.to_continuous(rng, d)
    kw = dict(d["kw"])
    metric = str(rng.choice(["mean", "indices", "bins"]))
    unk_kind = "default"
    if d["dtype"] == "categorical" and rng.random() < .4:
        kw["cat_unknown"] = {"mean": [3, -.77][rng.integers(2)],
                             "indices": 77, "bins": "UNK"}[metric]
        unk_kind = type(kw["cat_unknown"]).__name__
    x, y = d["x"], d["y"]
    w, fk = np.ones(len(x)), {}
    if rng.random() < .2 and kw.get("prebinning_method", "cart") == "cart":
        w = rng.integers(1, 4, len(x)).astype(float)
        fk["sample_weight"] = w.copy()
    weighted = bool(fk)
    key = d["dtype"] + (":user" if "user_splits" in kw else "") + (
        ":weighted" if weighted else "")
    tag = "{} {} {} {}".format(d["style"], d["ystyle"], weighted, kw)
    mon.sample(tag)
    optb = ContinuousOptimalBinning(name="v", time_limit=60, **kw)
    optb.fit(pd.Series(x.copy()) if rng.random() < .3 else x.copy(),
             y.copy(), **fk)
    dig = int(rng.integers(0, 6))
    bt = optb.binning_table
    tab = bt.build(show_digits=dig)
    n_spec = len(d["rows"])
    tail = n_spec + 2
    splits = optb.splits if d["dtype"] == "numerical" else None
    cats = A.cat_rows(tab, tail) if d["dtype"] == "categorical" else None
    row, n_bins = A.row_of(x, d["dtype"], splits, cats, d["rows"])
    n = n_bins + n_spec + 1
    if not mon.check(len(tab) == n + 1, "row_count:" + key,
                     lambda: "{}\n{}".format(tag, tab)):
        return
    if cats is not None:
        flat = [c for g in cats for c in g]
        mon.check(len(flat) == len(set(flat)), "category_in_two_rows:" + key,
                  tag)
    mon.check((row >= 0).all(), "record_in_no_row:" + key,
              lambda: "{}\n{}".format(tag, tab.to_string()))
    grp = groups_of(y, w, row, n)
    body = tab.iloc[:n]
    col = lambda c: body[c].to_numpy(float)
    mag = np.abs(y).max() + 1e-300
    cnt = np.array([g[1].sum() for g in grp])
    sm = np.array([(g[0] * g[1]).sum() for g in grp])
    tot_c, tot_s = w.sum(), (w * y).sum()
    mean = np.where(cnt > 0, sm / np.maximum(cnt, 1), 0.)
    mon.close(col("Count"), cnt, "count:" + key, tag, rtol=0, atol=0)
    mon.close(col("Count (%)"), cnt / tot_c, "pct:" + key, tag)
    at = 1e-9 * mag * len(y)
    mon.close(col("Sum"), sm, "sum:" + key, tag, atol=at)
    mon.close(col("Mean"), mean, "mean:" + key, tag, rtol=1e-8,
              atol=1e-9 * mag)
    t_mean = tot_s / tot_c
    mon.close(col("WoE"), mean - t_mean, "woe:" + key, tag, rtol=1e-7,
              atol=1e-8 * mag)
    iv = np.abs(mean - t_mean) * cnt / tot_c
    mon.close(col("IV"), iv, "iv:" + key, tag, rtol=1e-7, atol=1e-8 * mag)
    full = cnt > 0
    sd = np.array([np.sqrt(np.average((g[0] - np.average(
        g[0], weights=g[1])) ** 2, weights=g[1])) if len(g[0]) else 0.
        for g in grp])
    mn = np.array([g[0].min() if len(g[0]) else 0. for g in grp])
    mx = np.array([g[0].max() if len(g[0]) else 0. for g in grp])
    wk = "_weighted" if weighted else ""
    mon.close(col("Std")[full], sd[full], "std{}:{}".format(wk, key),
              lambda: tag, rtol=1e-5, atol=1e-6 * mag)
    mon.close(col("Min")[full], mn[full], "min{}:{}".format(wk, key), tag,
              rtol=1e-12)
    mon.close(col("Max")[full], mx[full], "max{}:{}".format(wk, key), tag,
              rtol=1e-12)
    z = np.array([(g[0] == 0).sum() for g in grp])
    mon.close(col("Zeros count"), z, "zeros:" + key, tag)
    t = tab.loc["Totals"]
    mon.close([t["Count"], t["Count (%)"], t["Sum"], t["Mean"],
               t["Zeros count"]], [tot_c, 1, tot_s, t_mean, (y == 0).sum()],
              "totals:" + key, tag, rtol=1e-8, atol=at)
    mon.close([t["WoE"], t["IV"]], [np.abs(mean - t_mean).sum(), iv.sum()],
              "totals_iv:" + key, tag, rtol=1e-7, atol=1e-7 * mag)
    mon.close([t["Min"], t["Max"]], [y.min(), y.max()],
              "totals_minmax{}:{}".format(wk, key), tag)
    labels = [str(v) for v in body["Bin"]]
    names = [k for k, _ in d["rows"]] + ["Missing"]
    mon.check(labels[n_bins:] == names, "row_labels:" + key, labels)
    if d["dtype"] == "numerical":
        s = np.asarray(splits, float)
        mon.check((np.diff(s) > 0).all(), "splits_not_increasing", tag)
        e = np.concatenate([[-np.inf], s, [np.inf]])
        exp = ["{}{:.{d}f}, {:.{d}f})".format(
            "(" if i == 0 else "[", e[i], e[i + 1], d=dig)
            for i in range(len(s) + 1)]
        mon.check(labels[:n_bins] == exp, "labels", "{} {}".format(
            labels, exp))
    mon.seen("tables")
    if weighted:
        mon.seen("weighted_tables")
    if n_bins > 1:
        mon.seen("multi_bin")
    analysis(rng, mon, bt, d, col, mean, iv, cnt, n_bins, n_spec, optb, tag,
             tab, weighted)

    # transform
    v = B05.probe(rng, d, optb)
    vr, _ = A.row_of(v, d["dtype"], splits, cats, d["rows"])
    ms, mm = B05.treatment(rng), B05.treatment(rng)
    unk = kw.get("cat_unknown")
    if unk is None:
        unk = {"mean": t_mean, "indices": -1, "bins": "unknown"}[metric]
    exp = B05.expected(v, vr, n_bins, n_spec, metric, mean, labels, ms, mm,
                       unk)
    got = optb.transform(v, metric=metric, metric_special=ms,
                         metric_missing=mm, show_digits=dig)
    tag += " {} ms={} mm={}".format(metric, ms, mm)
    for kind, sel in (("clean", (vr >= 0) & (vr < n_bins)),
                      ("special", (vr >= n_bins) & (vr < n_bins + n_spec)),
                      ("missing", vr == n_bins + n_spec),
                      ("unknown", vr == -1)):
        if not sel.any():
            continue
        g = np.asarray(got)[sel]
        e = [exp[i] for i in np.flatnonzero(sel)]
        k2 = "transform:{}:{}:{}".format(kind, metric, d["dtype"]) + (
            ":" + unk_kind if kind == "unknown" else "")
        if metric == "bins":
            mon.check(list(g) == list(e), k2,
                      lambda: "{} got {} expected {}".format(tag, g, e))
        else:
            mon.close(g, np.array(e, float), k2, tag, rtol=1e-8,
                      atol=1e-9 * mag)
        mon.seen("records_" + kind, int(sel.sum()))
    if n_bins > 1 or cnt[n_bins:].any():
        mon.sig(d["dtype"], d["style"], d["ystyle"],
                kw.get("prebinning_method"), "user_splits" in kw,
                type(kw.get("special_codes")).__name__, kw.get("cat_cutoff"),
                weighted, metric, len(tab))


def analysis(rng, mon, bt, d, col, mean, iv, cnt, n_bins, n_spec, optb, tag,
             tab, weighted):
    snap = tab.copy(deep=True)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        bt.analysis()
    text = out.getvalue()
    k = n_bins
    if d["dtype"] == "categorical" and len(optb._cat_others):
        k -= 1
    sd = col("Std")
    want = []
    for i in range(k - 1):
        want.append((i, i + 1) + tuple(stats.ttest_ind_from_stats(
            mean[i], sd[i], cnt[i], mean[i + 1], sd[i + 1], cnt[i + 1],
            False)))
    rows = re.findall(r"^\s+(\d+)\s+(\d+)\s+(\S+)\s+(\S+)$",
                      text.split("Significance tests")[-1], re.M)
    mon.check(len(rows) == len(want), "analysis:rows", text)
    for r, e in zip(rows, want):
        if not all(np.isfinite(e)):
            continue
        mon.close([float(q) for q in r], e, "analysis:ttest", tag, rtol=1e-3,
                  atol=1e-5)
    h = ((cnt / cnt.sum()) ** 2).sum()
    n = len(cnt)
    hn = (h - 1 / n) / (1 - 1 / n)
    for lab, e in (("IV", iv.sum()), ("HHI", h), ("HHI (normalized)", hn),
                   ("WoE", np.abs(mean - (mean * cnt).sum() / cnt.sum()
                                  ).sum())):
        m = re.search(r"^    {}\s+(\S+)$".format(re.escape(lab)), text, re.M)
        mon.check(m is not None, "analysis:missing:" + lab, text)
        if m:
            mon.close(float(m.group(1)), e, "analysis:" + lab, tag,
                      rtol=1e-7, atol=2e-8)
    tm = (mean * cnt).sum() / cnt.sum()
    if abs(tm) > 1e-9 and all(np.isfinite(e[3]) for e in want):
        rw = np.abs(mean - tm).sum() / abs(tm)
        q = (max(1 - 1 / rw, 0) if rw > 0 else 0) * np.prod(
            [1 - e[3] for e in want]) * (1 - hn)
        mon.close(bt.quality_score, q, "quality_score", tag, rtol=1e-5,
                  atol=1e-7)
    from checks.B04 import trend_ok
    m = re.search(r"Monotonic trend\s+(.*)$", text, re.M)
    mon.check(trend_ok(m.group(1).strip() if m else "", mean[:k]),
              "analysis:trend", lambda: "{} {} {}".format(
                  tag, m and m.group(1), mean[:k]))
    dig = 2
    again = bt.build()
    cols = [c for c in snap.columns if c != "Bin"]
    mon.check(again[cols].equals(snap[cols]), "table_changed_by_analysis",
              tag)
    mon.seen("analyses")


def numeric(rng, mon):
    one(rng, mon, A.binary_numeric(rng, 400))


def categorical(rng, mon):
    one(rng, mon, A.binary_categorical(rng, 400))


FAMILIES = {"numeric": (numeric, 3600, 30000),
            "categorical": (categorical, 2800, 20000)}
REQUIRED = {"tables": 900, "multi_bin": 400, "weighted_tables": 50,
            "records_special": 500, "records_missing": 300,
            "records_unknown": 200}
