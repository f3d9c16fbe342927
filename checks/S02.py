"""S02: sketch binning conserves records over adds, merges and solves."""
import contextlib
import io
import re
import warnings

import numpy as np
import pandas as pd

from optbinning import (BinningProcessSketch, OptimalBinning,
                        OptimalBinningSketch)
from optbinning.binning.distributed.gk import GK
from vlib import anyfit, seg, table
from vlib import binary as B

PROP = "S02"
RULE = ("a solve counts when it was judged against the whole stream seen so "
        "far; distinct = (dtype, regime, divergence, trend, kind of history, "
        "number of bins, special/missing present)")
ASSUMPTIONS = ["the pre-binning quantiles are those of a GK sketch of the "
               "whole stream (judged by S01)",
               "bins of numerical sketches may miss 2 eps n records per class "
               "(exact while 2 eps (n - 1) < 2); t-digest gives no bound",
               "as for OptimalBinning, min/max bin size count all records"]
REQUIRED = {"solves": 900, "exact": 300, "approx": 60, "merges": 300,
            "categorical": 300, "same as OptimalBinning": 200,
            "empty merge": 20, "merged-in judged": 100, "interleaved": 100,
            "constraints judged": 300, "special": 150, "missing": 200,
            "order": 60, "process": 30, "others": 40, "tdigest": 5,
            "single bin": 30, "transform": 300, "rejected": 10,
            "own transform settings": 40}

CODES = [-99.0, -88.0]
TRENDS = ["auto", "auto", None, "ascending", "descending", "peak", "valley",
          "concave", "convex", "auto_heuristic", "auto_asc_desc",
          "peak_heuristic", "valley_heuristic"]


def _quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def num_data(rng, n):
    x, style = anyfit.numeric_x(rng, n)
    z = np.clip((x - np.median(x)) / (np.std(x) + 1e-12), -4, 4)
    p = 1 / (1 + np.exp(-anyfit.link(rng, z) + rng.normal(0, .5)))
    y = (rng.random(n) < p).astype(int)
    return x + 0., y              # no negative zeros


def cat_data(rng, n, text=None):
    k = int(rng.integers(1, 13))
    if text is None:
        text = rng.random() < .7
    names = np.array(["c%d" % i for i in range(k)], dtype=object) \
        if text else np.arange(k) * 3 + 1
    idx = rng.choice(k, n, p=rng.dirichlet(np.full(k, 1.5)))
    r = rng.uniform(0, 1, k)
    if rng.random() < .4:
        r[rng.random(k) < .3] = rng.choice([0, 1])
    y = (rng.random(n) < r[idx]).astype(int)
    x = names[idx]
    return x, y


def dirty(rng, x, codes, cat):
    if cat:
        if rng.random() < .4:
            x = x.astype(object)
            x[rng.random(len(x)) < .1] = np.nan if rng.random() < .6 else None
        return x
    if rng.random() < .5:
        x[rng.random(len(x)) < .1] = np.nan
    if codes is not None:
        m = rng.random(len(x)) < .1
        x[m] = rng.choice(codes, m.sum())
    return x


def masks(x, codes, cat):
    miss = pd.isnull(x)
    spec = np.zeros(len(x), bool)
    if codes is not None:
        spec = pd.Series(x).isin(list(codes)).values
    return ~miss & ~spec, spec, miss


def params(rng, cat):
    n = int(rng.choice([2, 3, 5, 8, 12]))
    kw = dict(divergence=str(rng.choice(["iv", "iv", "js", "hellinger",
                                         "triangular"])),
              max_n_prebins=n)
    if rng.random() < .25:
        kw["solver"] = "mip"
        kw["mip_solver"] = str(rng.choice(["bop", "cbc"]))
    if cat:
        kw["dtype"] = "categorical"
        if rng.random() < .4:
            kw["cat_cutoff"] = float(rng.choice([.02, .05, .1, .3]))
        if rng.random() < .25:
            kw["cat_heuristic"] = True
        if rng.random() < .3:
            kw["monotonic_trend"] = None
    else:
        kw["monotonic_trend"] = TRENDS[rng.integers(len(TRENDS))]
        if rng.random() < .2:
            kw["split_digits"] = int(rng.integers(0, 3))
    if rng.random() < .15:
        kw["gamma"] = float(rng.choice([.1, 1.]))
    c = {}
    if rng.random() < .2:
        c["min_n_bins"] = int(rng.integers(1, 4))
    if rng.random() < .3:
        c["max_n_bins"] = int(rng.integers(c.get("min_n_bins", 1), 6))
    if rng.random() < .3:
        c["min_bin_size"] = float(rng.uniform(.01, .2))
    if rng.random() < .25:
        c["max_bin_size"] = float(rng.uniform(.25, .8))
    for nm in ("event", "nonevent"):
        if rng.random() < .2:
            c["min_bin_n_" + nm] = int(rng.integers(1, 30))
        if rng.random() < .1:
            c["max_bin_n_" + nm] = int(rng.integers(30, 300))
    if rng.random() < .15:
        c["min_event_rate_diff"] = float(rng.choice([.01, .1]))
    if rng.random() < .15:
        c["max_pvalue"] = float(rng.choice([.05, .3]))
        c["max_pvalue_policy"] = str(rng.choice(["all", "consecutive"]))
    return kw, c


class Stream:
    """A sketch and the records it must account for."""

    def __init__(self, kw, c, codes):
        self.kw, self.c, self.codes = kw, c, codes
        self.opt = dict(kw, **c)
        if codes is not None:
            self.opt["special_codes"] = list(codes) \
                if not isinstance(codes, np.ndarray) else codes.copy()
        self.cat = kw.get("dtype") == "categorical"
        self.sk = OptimalBinningSketch(**self.opt)
        self.x, self.y = [], []

    def add(self, rng, x, y):
        chk = bool(rng.random() < .25)
        if chk and self.cat and pd.isnull(x).any():
            chk = False
        u = rng.random()
        xx = x.copy()
        if u < .2:
            xx = pd.Series(xx)
        elif u < .35 and not self.cat:
            xx = xx.tolist()
        yy = y.copy() if rng.random() < .7 else (
            pd.Series(y) if rng.random() < .5 else y.tolist())
        _quiet(self.sk.add, xx, yy, chk)
        self.x.append(x)
        self.y.append(y)

    def data(self):
        if not self.x:
            return np.empty(0), np.empty(0, int)
        x = self.x
        if any(a.dtype == object for a in x):
            x = [a.astype(object) for a in x]
        return np.concatenate(x), np.concatenate(self.y)

    def take(self, other):
        self.x = self.x + other.x
        self.y = self.y + other.y


def judge(mon, s, rng, tag):
    """Solve and compare the table with the whole stream."""
    x, y = s.data()
    cat, sk = s.cat, s.sk
    clean, spec, miss = masks(x, s.codes, cat)
    if not clean.any():
        return
    xc, yc = x[clean], y[clean]
    try:
        _quiet(sk.solve)
    except ValueError as e:
        if cat and "others" in str(e) and s.kw.get("cat_cutoff") and all(
                v < s.kw["cat_cutoff"] * len(x)
                for v in pd.Series(xc).value_counts()):
            mon.seen("rejected")
            return
        raise
    tab = _quiet(sk.binning_table.build)
    mon.seen("solves")
    if tag != ":final":
        mon.seen("interleaved")
    e = tab["Event"].values.astype(float)
    ne = tab["Non-event"].values.astype(float)
    cnt = tab["Count"].values.astype(float)
    for row, m, nm in ((-3, spec, "Special"), (-2, miss, "Missing"),
                       (-1, np.ones(len(x), bool), "Totals")):
        true = (m.sum(), (y[m] == 0).sum(), (y[m] == 1).sum())
        mon.check((cnt[row], ne[row], e[row]) == true, "records:" + nm + tag,
                  lambda: "{} got {} true {} {}".format(
                      nm, (cnt[row], ne[row], e[row]), true, s.opt))
    mon.check((cnt == e + ne).all(), "count is not event + non-event" + tag)
    mon.check(cnt[:-1].sum() == cnt[-1], "rows do not add up" + tag,
              lambda: tab[["Bin", "Count"]].to_string())
    if spec.any():
        mon.seen("special")
    if miss.any():
        mon.seen("missing")
    be, bn = e[:-3], ne[:-3]
    eps = s.kw.get("eps", 1e-4)
    n_e, n_ne = (yc == 1).sum(), (yc == 0).sum()
    exact = cat or (s.kw.get("sketch") != "t-digest" and
                    2 * eps * (len(xc) - 1) < 2)
    td = s.kw.get("sketch") == "t-digest"
    others = []
    if cat:
        mon.seen("categorical")
        groups = [set(np.asarray(g, dtype=object).tolist())
                  for g in sk.splits]
        if mon.check(len(groups) == len(be), "groups and rows" + tag,
                     lambda: "{} {}".format(groups, len(be))):
            g = [pd.Series(xc).isin(list(k)).values for k in groups]
            te = np.array([(yc[m] == 1).sum() for m in g])
            tn = np.array([(yc[m] == 0).sum() for m in g])
            mon.check((te == be).all() and (tn == bn).all(),
                      "category counts" + tag, lambda: "{} got {} true {}".
                      format(groups, (be, bn), (te, tn)))
            allc = [v for k in groups for v in k]
            mon.check(len(allc) == len(set(allc)) and
                      set(allc) == set(xc.tolist()), "categories covered" +
                      tag, lambda: "{} {}".format(groups, set(xc.tolist())))
        cut = s.kw.get("cat_cutoff")
        if cut:
            vc = pd.Series(xc).value_counts()
            lo = set(vc.index[vc < cut * min(len(x), len(xc)) - 1e-9])
            hi = set(vc.index[vc <= np.ceil(cut * len(x)) + 1e-9])
            others = [v for v in hi if v in lo]
            if lo:
                last = groups[-1]
                mon.check(lo <= last <= hi, "others" + tag,
                          lambda: "{} lo {} hi {}".format(groups, lo, hi))
                mon.seen("others")
                be, bn, groups = be[:-1], bn[:-1], groups[:-1]
            elif hi:           # whether there is an others row is ambiguous
                others = None
    else:
        sp = np.asarray(sk.splits, dtype=float)
        mon.check((np.diff(sp) > 0).all(), "splits not increasing" + tag, sp)
        idx = np.searchsorted(sp, xc.astype(float), side="right")
        k = len(sp) + 1
        if mon.check(len(be) == k, "rows" + tag):
            for nm, got, w, n in (("event", be, yc == 1, n_e),
                                  ("nonevent", bn, yc == 0, n_ne)):
                true = np.bincount(idx, weights=w, minlength=k)
                mon.check(got.sum() == true.sum(), "clean records" + tag,
                          lambda: "{} got {} true {}".format(nm, got, true))
                if td:
                    mon.seen("tdigest")
                    continue
                tol = 0 if 2 * eps * (n - 1) < 2 else 2 * eps * n + 1
                d = np.abs(np.cumsum(got) - np.cumsum(true)).max()
                mon.check(d <= tol, "bin counts" + tag, lambda: "{} splits "
                          "{} got {} true {} eps {}".format(
                              nm, sp, got, true, eps))
        mon.seen("exact" if exact else "approx")
    if len(be) == 1:
        mon.seen("single bin")
    if sk.status in ("OPTIMAL", "FEASIBLE") and len(be) > 1 and \
            others is not None:
        c = dict(s.c)
        t = s.kw.get("monotonic_trend", "auto")
        bad = [seg.binary_constraints(bn, be, range(len(be)), c, len(x),
                                      False, tt)
               for tt in (B.shapes(t) if not cat else
                          ["ascending" if t else None])]
        if mon.check(any(not b for b in bad), "constraints" + tag,
                     lambda: "{} violated {} ne={} e={} n={}".format(
                         s.opt, bad, bn, be, len(x))):
            mon.seen("constraints judged")
    mon.sig("cat" if cat else "num", "td" if td else exact,
            s.kw["divergence"], s.kw.get("monotonic_trend", "auto"), tag,
            len(be), spec.any(), miss.any(), sorted(s.c))
    if rng.random() < .3:
        transform(mon, s, x, tab, spec, miss, clean, tag)
    if rng.random() < .1:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            sk.information(1)
        got = re.search(r"Processed records\s+([0-9.]+)", out.getvalue())
        mon.check(got and float(got.group(1)) == len(x), "processed records",
                  lambda: "{} true {}".format(got and got.group(0), len(x)))
    if exact and others == [] and n_e and n_ne:
        same(mon, s, x, y, xc, yc, sk, tab, tag, eps)


def transform(mon, s, x, tab, spec, miss, clean, tag):
    sk = s.sk
    idx = _quiet(sk.transform, x, metric="indices", metric_special=-7,
                 metric_missing=-8)
    nb = len(tab) - 3
    mon.check((idx[spec] == -7).all() and (idx[miss] == -8).all(),
              "transform special/missing" + tag)
    got = np.bincount(idx[clean].astype(int), minlength=nb)
    cnt = tab["Count"].values[:nb].astype(float)
    if s.cat or s.kw.get("sketch") == "gk" and \
            2 * s.kw["eps"] * (len(x) - 1) < 2:
        mon.check(len(got) == nb and (got == cnt).all(),
                  "transform and table disagree" + tag,
                  lambda: "{} table {}".format(got, cnt))
    for m, col in (("woe", "WoE"), ("event_rate", "Event rate")):
        v = _quiet(sk.transform, x, metric=m)
        ref = tab[col].values[:nb].astype(float)[idx[clean].astype(int)]
        mon.close(v[clean].astype(float), ref, "transform " + m + tag,
                  lambda: str(s.opt))
    mon.seen("transform")


def same(mon, s, x, y, xc, yc, sk, tab, tag, eps):
    """In the exact regime the result is that of OptimalBinning with the
    sketched pre-bins."""
    o = dict(s.opt)
    for k in ("eps", "sketch", "K", "cat_heuristic", "cat_cutoff"):
        o.pop(k, None)
    if s.cat:
        if s.kw.get("cat_heuristic") or s.kw.get("cat_cutoff"):
            return
        g = pd.DataFrame(dict(x=xc, y=yc)).groupby("x")["y"].mean()
        if len(g) < 2 or g.nunique() < len(g):
            return
        o["user_splits"] = [[c] for c in g.sort_values().index]
    else:
        g = GK(eps)
        for v in xc.astype(float):
            g.add(v)
        q = np.linspace(0, 1, s.kw["max_n_prebins"] + 1)[1:-1]
        sp = np.array([g.quantile(p) for p in q])
        if "split_digits" in o:
            sp = np.round(sp, o["split_digits"])
        sp = np.unique(sp)
        if not len(sp):
            return
        o["user_splits"] = sp
    ref = OptimalBinning(**o)
    _quiet(ref.fit, x, y)
    if s.kw.get("gamma"):        # ties of the optimum are frequent: status
        mon.check(ref.status == sk.status, "status differs" + tag)
        return
    ok = mon.check(ref.status == sk.status, "status differs" + tag,
                   lambda: "{} OptimalBinning {} {}".format(
                       sk.status, ref.status, s.opt))
    if not ok:
        return
    mon.seen("same as OptimalBinning")
    rt = _quiet(ref.binning_table.build)
    if s.cat:
        a = sorted(sorted(map(str, b)) for b in sk.splits)
        b = sorted(sorted(map(str, b)) for b in ref.splits)
        same_iv = np.isclose(float(rt["IV"].values[-1]),
                             float(tab["IV"].values[-1]), rtol=1e-4)
        mon.check(a == b or (same_iv and s.kw["divergence"] == "iv"),
                  "differs from OptimalBinning" + tag,
                  lambda: "{} vs {} {}".format(a, b, s.opt))
    else:
        ok = table.same_splits(sk.splits, ref.splits)
        if mon.check(ok, "differs from OptimalBinning" + tag,
                     lambda: "{} vs {} {}".format(sk.splits, ref.splits,
                                                  s.opt)):
            table.same_table(mon, tab, rt, "table differs" + tag, str(s.opt))


def case(rng, cat, regime=None):
    kw, c = params(rng, cat)
    codes = None
    if rng.random() < .5:
        codes = list(CODES) if not cat else (["c0"] if rng.random() < .5
                                             else [1])
        if rng.random() < .25 and not cat:
            codes = np.array(codes)
    if not cat:
        kw["sketch"] = "gk"
        kw["eps"] = 1e-4
        if regime == "approx":
            kw["eps"] = float(rng.choice([.05, .02, .01, .004]))
        elif regime == "td":
            kw["sketch"], kw["eps"] = "t-digest", .01
    return kw, c, codes


def batch(rng, s, gen_kind, n):
    x, y = gen_kind(rng, n)
    return dirty(rng, x, s.codes, s.cat), y


def history(rng, mon, cat, regime=None, nmax=400):
    kw, c, codes = case(rng, cat, regime)
    n = int(rng.integers(40, nmax))
    src = Stream(kw, c, codes)
    x, y = batch(rng, src, cat_data if cat else num_data, n)
    text = any(isinstance(v, str) for v in x)
    more = (lambda g, m: cat_data(g, m, text)) if cat else num_data
    k = int(rng.integers(1, 6))
    own = rng.choice(k, n, p=rng.dirichlet(np.full(k, 1.)))
    if rng.random() < .3:
        own = np.sort(own)
    if rng.random() < .1 and k > 1:               # one part is all missing
        m = own == 0
        if cat:
            x = x.astype(object)
        x[m] = np.nan
    parts = []
    for i in range(k):
        s = Stream(kw, c, codes)
        xi, yi = x[own == i], y[own == i]
        for j in np.array_split(np.arange(len(xi)), rng.integers(1, 4)):
            if len(j):
                s.add(rng, xi[j], yi[j])
                if rng.random() < .15:
                    judge(mon, s, rng, ":interleaved")
        parts.append(s)
    if rng.random() < .3:
        parts.insert(int(rng.integers(0, k + 1)), Stream(kw, c, codes))
    dead = []
    while len(parts) > 1:
        i, j = rng.choice(len(parts), 2, replace=False)
        a, b = parts[i], parts[j]
        mon.check(a.sk.mergeable(b.sk), "not mergeable")
        a.sk.merge(b.sk)
        a.take(b)
        mon.seen("merges")
        if not b.x:
            mon.seen("empty merge")
        if rng.random() < .2 and a.x:
            judge(mon, a, rng, ":merged")
        if rng.random() < .3:
            t = a if rng.random() < .6 else b
            t.add(rng, *batch(rng, t, more, int(rng.integers(5, 60))))
        dead.append(b)
        parts.pop(j)
    s = parts[0]
    judge(mon, s, rng, ":final")
    for b in dead:
        if b.x and rng.random() < .6:
            judge(mon, b, rng, ":merged-in")
            mon.seen("merged-in judged")
    if rng.random() < .3:                      # the other order
        r = Stream(kw, c, codes)
        xx, yy = s.data()
        p = rng.permutation(len(xx))
        for j in np.array_split(p, rng.integers(1, 4)):
            if len(j):
                t = Stream(kw, c, codes)
                t.add(rng, xx[j], yy[j])
                r.sk.merge(t.sk)
                r.take(t)
        clean = masks(xx, codes, cat)[0]
        judge(mon, r, rng, ":reordered")
        if not cat and regime is None and clean.any():
            mon.check(table.same_splits(s.sk.splits, r.sk.splits),
                      "merge order matters",
                      lambda: "{} vs {} {}".format(s.sk.splits, r.sk.splits,
                                                   s.opt))
        mon.seen("order")
    mon.sample(str(s.opt))


def numerical(rng, mon):
    history(rng, mon, False)


def categorical(rng, mon):
    history(rng, mon, True)


def approximate(rng, mon):
    history(rng, mon, False, "approx", 2500)


def tdigest(rng, mon):
    history(rng, mon, False, "td", 300)


def reject(rng, mon):
    """Sketches with different parameters are not merged."""
    cat = rng.random() < .4
    kw, c, codes = case(rng, cat)
    a = Stream(kw, c, codes)
    c2, codes2, kw2 = dict(c), codes, dict(kw)
    u = rng.integers(3)
    if u == 0:
        c2["max_n_bins"] = c.get("max_n_bins", 5) + 1
    elif u == 1:
        codes2 = [-5.0] if codes is None else None
    else:
        kw2["max_n_prebins"] = kw["max_n_prebins"] + 1
    b = Stream(kw2, c2, codes2)
    for s in (a, b):
        s.add(rng, *batch(rng, s, cat_data if cat else num_data, 60))
    mon.check(not a.sk.mergeable(b.sk), "mergeable with other parameters",
              lambda: "{} {}".format(a.opt, b.opt))
    try:
        a.sk.merge(b.sk)
        mon.fail("merged with other parameters", "{} {}".format(a.opt, b.opt))
    except Exception:
        mon.seen("rejected")
    judge(mon, a, rng, ":after rejected merge")


def process(rng, mon):
    nv = int(rng.integers(1, 5))
    names = ["v%d" % i for i in range(nv)]
    cats = [nm for nm in names if rng.random() < .35]
    codes = CODES if rng.random() < .5 else None
    kw = dict(variable_names=names, max_n_prebins=int(rng.integers(3, 9)))
    if cats:
        kw["categorical_variables"] = cats
    if codes is not None:
        kw["special_codes"] = list(codes)
    if rng.random() < .4:
        kw["max_n_bins"] = int(rng.integers(2, 6))
    if rng.random() < .3:
        kw["min_bin_size"] = float(rng.choice([.05, .1]))
    if rng.random() < .3:
        kw["max_bin_size"] = .6
    if rng.random() < .2:
        kw["split_digits"] = 1
    fp = {}
    for nm in names:
        if rng.random() < .4:
            fp[nm] = [dict(max_n_bins=3), dict(max_n_prebins=4),
                      dict(divergence="js"),
                      dict(monotonic_trend=None)][rng.integers(4)]
    if fp and rng.random() < .7:
        kw["binning_fit_params"] = fp
    else:
        fp = {}
    tp = {}
    if rng.random() < .5:
        num = rng.random() < .8
        for nm in names:
            if rng.random() < .6:
                tp[nm] = {}
                if rng.random() < .6:
                    tp[nm]["metric"] = str(rng.choice(
                        ["woe", "event_rate", "indices"] if num else
                        ["bins"]))
                for a in ("metric_special", "metric_missing"):
                    if rng.random() < .5:
                        tp[nm][a] = ["empirical", 0, 1, -3][rng.integers(4)]
        kw["binning_transform_params"] = tp
    n = int(rng.integers(60, 300))
    y = (rng.random(n) < rng.uniform(.2, .8)).astype(int)
    cols = {}
    for nm in names:
        if nm in cats:
            x = np.array(["a", "b", "c", "d"], object)[rng.integers(0, 4, n)]
        else:
            x = rng.normal(size=n) + y * rng.normal()
            if rng.random() < .3:
                x = np.round(x) + 0.
        x = dirty(rng, x, codes, nm in cats)
        cols[nm] = x
    df = pd.DataFrame(cols)
    df.index = rng.permutation(n) * 3 + 5
    df["unrelated"] = 1.0
    k = int(rng.integers(1, 4))
    own = rng.integers(0, k, n)
    own[:k] = np.arange(k)
    procs, ref = [], {}
    base = {a: kw[a] for a in ("max_n_prebins", "max_n_bins", "min_bin_size",
                               "max_bin_size", "special_codes",
                               "split_digits") if a in kw}
    for nm in names:
        ref[nm] = OptimalBinningSketch(name=nm, **dict(
            base, dtype="categorical" if nm in cats else "numerical",
            **{a: v for a, v in fp.get(nm, {}).items() if a not in base}))
        ref[nm].set_params(**fp.get(nm, {}))
    for i in range(k):
        p = BinningProcessSketch(**kw)
        rows = np.flatnonzero(own == i)
        for j in np.array_split(rows, rng.integers(1, 3)):
            if not len(j):
                continue
            use = list(rng.permutation(names + ["unrelated"]))
            if nv > 1 and len(j) < n / 3 and rng.random() < .5:
                use.remove(str(rng.choice(names)))
            part = df.iloc[j][use]
            _quiet(p.add, part, y[j])
            for nm in names:
                if nm in use:
                    _quiet(ref[nm].add, part[nm], y[j])
        procs.append(p)
    if rng.random() < .3:
        procs.insert(0, BinningProcessSketch(**kw))
    while len(procs) > 1:
        i, j = rng.choice(len(procs), 2, replace=False)
        mon.check(procs[i].mergeable(procs[j]), "process not mergeable")
        procs[i].merge(procs[j])
        procs.pop(j)
        mon.seen("merges")
    p = procs[0]
    for nm in names:
        try:
            _quiet(ref[nm].solve)
        except Exception:
            return
    _quiet(p.solve)
    mon.seen("process")
    summ = p.summary()
    mon.check(list(summ["name"]) == names, "process summary names")
    for i, nm in enumerate(names):
        a = p.get_binned_variable(nm)
        ta, tb = a.binning_table.build(), ref[nm].binning_table.build()
        mon.check(a.status == ref[nm].status, "process status",
                  lambda: "{} {} {}".format(nm, a.status, ref[nm].status))
        if nm in cats:
            ok = sorted(sorted(map(str, g)) for g in a.splits) == \
                sorted(sorted(map(str, g)) for g in ref[nm].splits)
            er = pd.DataFrame(dict(x=df[nm], y=y)).groupby("x")["y"].mean()
            if not ok and er.nunique() < len(er):
                continue
            mon.check(ok, "process categories", lambda: "{} {} {}".format(
                nm, a.splits, ref[nm].splits))
            mon.check(float(ta["Count"].values[-1]) == float(
                tb["Count"].values[-1]), "process records")
        else:
            table.same_table(mon, ta, tb, "process table", nm)
        mon.close(float(summ["iv"].values[i]), float(ta["IV"].values[-1]),
                  "process summary iv")
        mon.check(int(summ["n_bins"].values[i]) == len(ta) - 3,
                  "process summary n_bins")
    metric = str(rng.choice(["woe", "event_rate", "indices", "bins"]))
    perm = df[list(rng.permutation(list(df.columns)))]
    args = dict(metric=metric)
    for a in ("metric_special", "metric_missing"):
        if rng.random() < .4:
            args[a] = ["empirical", 0, 2][rng.integers(3)]
    own = {nm: dict(args, **tp.get(nm, {})) for nm in names}
    used = set(v["metric"] for v in own.values())
    if len(used) > 1 and "bins" in used:
        try:
            _quiet(p.transform, perm, **args)
            mon.fail("process mixes labels and numbers", "{}".format(own))
        except ValueError:
            mon.seen("mixed metrics")
        return
    try:
        exp = {nm: _quiet(p.get_binned_variable(nm).transform, df[nm],
                          **own[nm]) for nm in names}
    except Exception:
        exp = None                      # "empirical" is not for every metric
    try:
        X = _quiet(p.transform, perm, **args)
    except Exception as e:
        mon.check(exp is None, "process transform failed", lambda: "{!r} {} "
                  "{}".format(e, args, tp))
        return
    mon.check(list(X.columns) == names and (X.index == df.index).all(),
              "process transform shape", lambda: "{} {}".format(
                  list(X.columns), names))
    if not mon.check(exp is not None, "process transform accepted", args):
        return
    mon.seen("own transform settings", bool(tp))
    for nm in names:
        mon.check(table.same_array(X[nm].values, exp[nm]),
                  "process transform", lambda: "{} {}: {} {}".format(
                      nm, own[nm], X[nm].values[:5], exp[nm][:5]))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        p.information(1)
    got = re.search(r"Processed records\s+([0-9.]+)|Number of records\s+"
                    r"([0-9.]+)", out.getvalue())
    if got:
        mon.check(float(got.group(1) or got.group(2)) == n,
                  "process records processed", got.group(0))


FAMILIES = {"numerical": (numerical, 1000, 20000),
            "categorical": (categorical, 1000, 20000),
            "approximate": (approximate, 240, 4000),
            "tdigest": (tdigest, 16, 300),
            "reject": (reject, 60, 1000),
            "process": (process, 240, 4000)}
