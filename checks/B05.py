"""B05: every transformed value equals the value its table row shows."""
import numpy as np
import pandas as pd
from optbinning import OptimalBinning

from vlib import anyfit as A

PROP = "B05"
RULE = ("distinct = (dtype, style, metric, special form, treatment of "
        "special/missing/unknown, #rows); non-trivial when the table has at "
        "least two bins or the probe holds special, missing or unknown values")
ASSUMPTIONS = ["for metric 'indices' an integer metric_special/"
               "metric_missing is assigned literally; with any other "
               "non-'empirical' value and always for 'bins' the own row is "
               "used"]


def probe(rng, d, optb):
    """Values to transform: training values, edges, neighbours, specials,
    missing, unseen."""
    x = d["x"]
    k = min(len(x), 60)
    if d["dtype"] == "numerical":
        base = [rng.choice(x, k)]
        s = np.asarray(optb.splits, float)
        if len(s):
            base += [s, np.nextafter(s, -np.inf), np.nextafter(s, np.inf),
                     (s[1:] + s[:-1]) / 2]
        base.append(np.array([-1e300, 1e300, 0., -0., np.inf, -np.inf]))
        base.append(np.array(d["codes"], float))
        base.append(np.full(2, np.nan))
        v = np.concatenate(base)
    else:
        v = list(rng.choice(np.asarray(x, object), k)) + list(d["names"])
        v += list(d["codes"])
        if d["style"] == "str":
            v += ["new1", "", "zzz", None, np.nan]
            v = np.array(v, dtype=object)
        elif d["style"] == "float":
            v = np.array([float(a) for a in v] + [99.5, -77., np.nan])
        else:
            v = np.array([int(a) for a in v] + [99, -77])
    v = v[rng.permutation(len(v))]
    return v[:int(rng.integers(1, len(v) + 1))] if rng.random() < .2 else v


def treatment(rng):
    k = rng.integers(6)
    return [0, "empirical", "empirical", float(np.round(rng.normal(), 2)),
            int(rng.integers(-7, 40)),
            [.25, 1., np.nan][rng.integers(3)]][k]


def expected(v, row, n_bins, n_spec, metric, col, labels, ms, mm, unk):
    out = []
    for r in row:
        if r == -1:
            out.append(unk)
            continue
        if r < n_bins:
            t = "empirical"
        elif r < n_bins + n_spec:
            t = ms
        else:
            t = mm
        if metric == "bins":
            out.append(labels[r])
        elif metric == "indices":
            out.append(t if isinstance(t, int) else int(r))
        elif isinstance(t, str):
            out.append(col[r])
        else:
            out.append(t)
    return out


def one(rng, mon, d):
    if d is None:
        return
    unk_cfg = {}
    kw = dict(d["kw"])
    metric = str(rng.choice(["woe", "event_rate", "indices", "bins"]))
    unk_kind = "default"
    if d["dtype"] == "categorical" and rng.random() < .5:
        if metric == "bins":
            kw["cat_unknown"] = "UNK"
        elif metric == "indices":
            kw["cat_unknown"] = int(rng.integers(-5, 50))
        else:
            kw["cat_unknown"] = [int(rng.integers(-3, 9)),
                                 float(np.round(rng.normal(), 3))][
                                     rng.integers(2)]
        unk_kind = type(kw["cat_unknown"]).__name__
    tag = "{} {} {}".format(d["style"], metric, kw)
    optb = OptimalBinning(name="v", time_limit=60, **kw)
    optb.fit(d["x"], d["y"])
    dig = int(rng.integers(0, 5))
    tab = optb.binning_table.build(show_digits=dig)
    n_spec = len(d["rows"])
    tail = n_spec + 2
    groups = A.cat_rows(tab, tail) if d["dtype"] == "categorical" else None
    splits = optb.splits if d["dtype"] == "numerical" else None
    v = probe(rng, d, optb)
    row, n_bins = A.row_of(v, d["dtype"], splits, groups, d["rows"])
    ms, mm = treatment(rng), treatment(rng)
    tag += " ms={} mm={} dig={}".format(ms, mm, dig)
    tot = tab.loc["Totals"]
    er_mean = float(tot["Event"]) / float(tot["Count"])
    unk = kw.get("cat_unknown")
    if unk is None:
        unk = {"woe": 0., "event_rate": er_mean, "indices": -1,
               "bins": "unknown"}[metric]
    col = None
    labels = [str(b) for b in tab["Bin"].iloc[:-1]]
    if metric in ("woe", "event_rate"):
        col = tab["WoE" if metric == "woe" else "Event rate"].iloc[
            :-1].to_numpy(float)
        # the same value from the counts
        ne = tab["Non-event"].iloc[:-1].to_numpy(float)
        e = tab["Event"].iloc[:-1].to_numpy(float)
        m = (ne > 0) & (e > 0)
        own = np.zeros(len(ne))
        own[m] = (np.log((ne[m] / ne.sum()) / (e[m] / e.sum()))
                  if metric == "woe" else e[m] / (e + ne)[m])
        mon.close(col, own, "table_metric", tag, rtol=1e-8, atol=1e-9)
    exp = expected(v, row, n_bins, n_spec, metric, col, labels, ms, mm, unk)
    got = optb.transform(v, metric=metric, metric_special=ms,
                         metric_missing=mm, show_digits=dig)
    mon.check(len(got) == len(v), "length", tag)
    for kind, sel in (("clean", (row >= 0) & (row < n_bins)),
                      ("special", (row >= n_bins) & (row < n_bins + n_spec)),
                      ("missing", row == n_bins + n_spec),
                      ("unknown", row == -1)):
        if not sel.any():
            continue
        g = np.asarray(got)[sel]
        x = [exp[i] for i in np.flatnonzero(sel)]
        key = "{}:{}:{}".format(kind, metric, d["dtype"]) + (
            ":" + unk_kind if kind == "unknown" or unk_kind == "int" else "")
        if metric == "bins":
            mon.check(list(g) == list(x), key,
                      lambda: "{} got {} expected {}".format(tag, g, x))
        else:
            mon.close(g, np.array(x, float), key, tag, rtol=1e-8, atol=1e-9)
        mon.seen("records_" + kind, int(sel.sum()))
    mon.seen("transforms")
    if n_bins > 1:
        mon.seen("transforms_multi_bin")
    if n_bins > 1 or (row >= n_bins).any() or (row < 0).any():
        mon.sig(d["dtype"], d["style"], metric,
                type(kw.get("special_codes")).__name__, type(ms).__name__,
                type(mm).__name__, unk_kind, len(tab))
    mon.sample(tag)


def numeric(rng, mon):
    one(rng, mon, A.binary_numeric(rng, 300))


def categorical(rng, mon):
    one(rng, mon, A.binary_categorical(rng, 300))


FAMILIES = {"numeric": (numeric, 4500, 30000),
            "categorical": (categorical, 4500, 30000)}
REQUIRED = {"transforms": 1000, "transforms_multi_bin": 500,
            "records_special": 1000, "records_missing": 500,
            "records_unknown": 500}
