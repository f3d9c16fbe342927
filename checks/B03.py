"""B03: recount of the raw training data by the displayed rows."""
import numpy as np
import pandas as pd
from optbinning import OptimalBinning

from vlib import anyfit as A

PROP = "B03"
RULE = ("distinct = (data style, pre-binning method, user splits, special "
        "form, cut-off, weights, #rows); non-trivial when the table has at "
        "least two bins or a populated special/missing/others row")
ASSUMPTIONS = ["both classes occur among the clean records",
               "sample weights are integers (counts are integers)"]


def check_table(mon, optb, d, w, tag):
    tab = optb.binning_table.build()
    tail = len(d["rows"]) + 2
    splits = optb.splits if d["dtype"] == "numerical" else None
    groups = A.cat_rows(tab, tail) if d["dtype"] == "categorical" else None
    row, n_bins = A.row_of(d["x"], d["dtype"], splits, groups, d["rows"])
    key = d["dtype"] + (":user" if "user_splits" in d["kw"] else "")
    if not mon.check(len(tab) == n_bins + tail, "row_count:" + key,
                     lambda: "{}\n{}".format(tag, tab)):
        return
    if d["dtype"] == "categorical":
        flat = [c for g in groups for c in g]
        mon.check(len(flat) == len(set(flat)), "category_in_two_rows:" + key,
                  lambda: "{}\n{}".format(tag, tab))
        mon.seen("categorical_tables")
    mon.check((row >= 0).all(), "record_in_no_row:" + key,
              lambda: "{}\n{} {}".format(
                  tag, tab, set(np.asarray(d["x"])[row < 0].tolist())))
    n = n_bins + len(d["rows"]) + 1
    ok = row >= 0
    e = np.bincount(row[ok], weights=w[ok] * (d["y"][ok] == 1), minlength=n)
    ne = np.bincount(row[ok], weights=w[ok] * (d["y"][ok] == 0), minlength=n)
    body = tab.iloc[:n]
    got_e = body["Event"].to_numpy(float)
    got_ne = body["Non-event"].to_numpy(float)
    got_c = body["Count"].to_numpy(float)
    for name, got, exp in (("event", got_e, e), ("nonevent", got_ne, ne),
                           ("count", got_c, e + ne)):
        mon.check(np.array_equal(got, exp), "recount_{}:{}".format(name, key),
                  lambda: "{} got={} expected={}\n{}".format(
                      tag, got, exp, tab))
    names = [k for k, _ in d["rows"]] + ["Missing"]
    labels = [str(v) for v in body["Bin"].iloc[n_bins:]]
    mon.check(labels == names, "row_labels:" + key,
              lambda: "{} {}".format(labels, names))
    tot = tab.loc["Totals"]
    mon.check(float(tot["Count"]) == w.sum() and
              float(tot["Event"]) == (w * (d["y"] == 1)).sum() and
              float(tot["Non-event"]) == (w * (d["y"] == 0)).sum(),
              "totals:" + key, lambda: "{}\n{}".format(tag, tab))
    if d["dtype"] == "numerical":
        s = np.asarray(splits, float)
        mon.check((np.diff(s) > 0).all(), "splits_not_increasing",
                  "{} {}".format(tag, s))
        edges = np.concatenate([[-np.inf], s, [np.inf]])
        exp = ["{}{:.2f}, {:.2f})".format("(" if i == 0 else "[", edges[i],
                                          edges[i + 1])
               for i in range(len(s) + 1)]
        mon.check([str(v) for v in body["Bin"].iloc[:n_bins]] == exp,
                  "labels_numeric", "{} {}".format(tag, exp))
    if n_bins > 1:
        mon.seen("multi_bin_tables")
    mon.seen("tables")
    if len(d["rows"]) > 1:
        mon.seen("special_group_tables")
    sp = d["kw"].get("special_codes")
    mon.sig(d["dtype"], d["style"], d["kw"].get("prebinning_method"),
            "user_splits" in d["kw"], type(sp).__name__,
            d["kw"].get("cat_cutoff"), bool((w != 1).any()), len(tab))


def run(rng, mon, d):
    if d is None:
        return
    tag = "{} {}".format(d["style"], {k: v for k, v in d["kw"].items()})
    w = np.ones(len(d["x"]))
    fk = {}
    if rng.random() < .2 and d["kw"].get("prebinning_method",
                                         "cart") == "cart":
        w = rng.integers(1, 5, len(d["x"])).astype(float)
        fk["sample_weight"] = w.copy()
        tag += " weighted"
    kw = dict(d["kw"])
    if rng.random() < .12:
        # class weights multiply the sample weights
        cw = {0: int(rng.integers(1, 4)), 1: int(rng.integers(1, 4))}
        kw["class_weight"] = cw
        w = w * np.where(d["y"] == 1, cw[1], cw[0])
        tag += " class_weight={}".format(cw)
        mon.seen("class_weight")
    y = d["y"]
    x = d["x"].copy()
    if rng.random() < .3:
        x = pd.Series(x)
    optb = OptimalBinning(name="v", time_limit=60, **kw)
    optb.fit(x, y, **fk)
    mon.sample(tag)
    check_table(mon, optb, d, w, tag)


def numeric(rng, mon):
    run(rng, mon, A.binary_numeric(rng))


def categorical(rng, mon):
    run(rng, mon, A.binary_categorical(rng))


FAMILIES = {"numeric": (numeric, 2700, 40000),
            "categorical": (categorical, 1800, 25000)}
REQUIRED = {"tables": 700, "multi_bin_tables": 250,
            "special_group_tables": 60, "class_weight": 80, "categorical_tables": 200}
