"""D01: two-dimensional bins tile the plane and count exactly."""
import numpy as np
import pandas as pd

from vlib import grid2d as G

PROP = "D01"
RULE = ("distinct = (target, dtypes, x style, y style, strategy, solver, "
        "#bins, special/missing present); non-trivial with at least two bins")
ASSUMPTIONS = [
    "a record missing in one coordinate is a missing record even when the "
    "other coordinate is a special code (the order transform applies)",
    "an unseen category lies in no rectangle: index -1, empty label, 0"]


def options(rng, k):
    kw = dict(max_n_prebins_x=int(rng.integers(2, 5)),
              max_n_prebins_y=int(rng.integers(2, 5)),
              min_prebin_size_x=float(rng.choice([.05, .1, .2])),
              min_prebin_size_y=float(rng.choice([.05, .1, .2])),
              prebinning_method=str(rng.choice(["cart", "cart", "quantile",
                                                "uniform"] +
                                               ["mdlp"] * (k == 0))),
              solver=str(rng.choice(["cp", "cp", "mip"])))
    if rng.random() < .25:
        kw["strategy"] = "cart"
    if rng.random() < .2:
        kw["max_n_bins"] = int(rng.integers(1, 6))
    if rng.random() < .2:
        kw["monotonic_trend_x"] = str(rng.choice(["ascending", "descending"]))
    if rng.random() < .2:
        kw["monotonic_trend_y"] = str(rng.choice(["ascending", "descending"]))
    if rng.random() < .15:
        kw["gamma"] = .1
    if rng.random() < .15:
        kw["min_bin_size"] = .05
    if rng.random() < .2:
        kw["split_digits"] = int(rng.integers(0, 3))
    if k == 0 and rng.random() < .3:
        kw["divergence"] = str(rng.choice(["js", "hellinger", "triangular"]))
    return kw


def label(piece, dtype, digits):
    if dtype == "numerical":
        lo = ("({:.%df}" if np.isinf(piece[0]) else "[{:.%df}") % digits
        return lo.format(piece[0]) + ", {:.{}f})".format(piece[1], digits)
    return list(piece)


def probe(rng, v, dtype, sides, codes, n):
    """values of one axis: training values, edges, codes, missing, unseen"""
    pool = list(rng.choice(np.asarray(v, dtype=object), 15))
    if dtype == "numerical":
        for a, b in sides:
            for e in (a, b):
                if np.isfinite(e):
                    pool += [e, np.nextafter(e, -np.inf),
                             np.nextafter(e, np.inf)]
        pool += [-1e6, 1e6]
    else:
        pool += ["unseen"]
    pool += list(codes) + [np.nan]
    out = [pool[i] for i in rng.integers(0, len(pool), n)]
    return np.array(out, dtype=float if dtype == "numerical" else object)


def run(rng, mon, k):
    d = G.draw(rng, k)
    x, y, z = d["x"], d["y"], d["z"]
    miss, spec, clean = G.masks(x, y, d["cx"], d["cy"])
    if clean.sum() < 10 or (k == 0 and len(np.unique(z[clean])) < 2):
        return
    kw = dict(options(rng, k), **d["kw"])
    o = G.make(k, kw)
    tag = "{} {} m={}".format(type(o).__name__, kw, len(x))
    x0, y0, z0 = x.copy(), y.copy(), z.copy()
    o.fit(x, y, z)
    same = lambda a, b: pd.Series(a).equals(pd.Series(b))
    mon.check(same(x, x0) and same(y, y0) and same(z, z0), "input_changed",
              tag)
    if o.status not in ("OPTIMAL", "FEASIBLE"):
        mon.seen("infeasible")
        return
    sx, sy = o.splits
    n = len(sx)
    t = o.binning_table.build()
    if not mon.check(len(t) == n + 3 and len(sy) == n, "rows", tag):
        return
    # --- labels of the rows
    dg = int(rng.integers(0, 5))
    t2 = o.binning_table.build(show_digits=dg)
    bx, by = list(t2["Bin x"]), list(t2["Bin y"])
    t3 = o.binning_table.build(show_digits=dg, show_bin_xy=True,
                               add_totals=False)
    for i in range(n):
        for col, side, dt in ((bx, sx, d["tx"]), (by, sy, d["ty"])):
            got = col[i] if dt == "numerical" else list(col[i])
            mon.check(got == label(side[i], dt, dg), "label",
                      lambda: "{}\n{}".format(tag, t2))
        mon.check(t3["Bin"].iloc[i] == r"{} $\cup$ {}".format(bx[i], by[i]),
                  "label_xy", tag)
    mon.check(bx[n:n + 2] == ["Special", "Missing"] == by[n:n + 2] ==
              list(t3["Bin"].iloc[n:]), "label_tail", tag)
    # --- the same rows and totals whatever the labels
    t4 = o.binning_table.build(show_bin_xy=True)
    if mon.check(list(t4.columns) == ["Bin"] + list(t.columns)[2:] and
                 list(t4.index) == list(t.index) and
                 list(t3.columns) == list(t4.columns), "xy_layout",
                 lambda: "{}\n{}".format(tag, t4)):
        mon.check(list(t4["Bin"].iloc[:-1]) != [] and
                  t4["Bin"].iloc[-1] == "", "xy_totals", tag)
        for c in list(t.columns)[2:]:
            mon.check(list(map(str, t[c])) == list(map(str, t4[c])) and
                      list(map(str, t[c]))[:-1] == list(map(str, t3[c])),
                      "xy_values", lambda: "{} {}\n{}\n{}".format(
                          tag, c, t, t4))
    # --- disjoint rectangles that cover the plane
    def cells(sides, dt, v):
        if dt == "numerical":
            e = sorted({q for s in sides for q in s})
            mon.check(e[0] == -np.inf and e[-1] == np.inf, "cover:inf", tag)
            return [(-np.inf if np.isinf(a) else a) for a in e[:-1]]
        return list(pd.unique(pd.Series(v[clean])))
    cx, cy = cells(sx, d["tx"], x), cells(sy, d["ty"], y)
    mx = [G.member(cx, d["tx"], s) for s in sx]
    my = [G.member(cy, d["ty"], s) for s in sy]
    cover = sum(np.outer(a, b).astype(int) for a, b in zip(mx, my))
    mon.check((cover == 1).all(), "tiling", lambda: "{} {} {}\n{}".format(
        tag, sx, sy, cover))
    if kw.get("split_digits") is not None:
        for sides, dt in ((sx, d["tx"]), (sy, d["ty"])):
            if dt == "numerical":
                f = np.array([q for s in sides for q in s])
                f = f[np.isfinite(f)]
                mon.check(np.array_equal(f, np.round(f, kw["split_digits"])),
                          "split_digits", lambda: "{} {}".format(tag, f))
                mon.seen("split_digits", len(f))
    # --- recount
    def rows_of(a, b):
        r = np.full(len(a), -1)
        ms, sp, cl = G.masks(a, b, d["cx"], d["cy"])
        for i in range(n):
            av = np.where(cl, a, np.nan if d["tx"] == "numerical" else None)
            bv = np.where(cl, b, np.nan if d["ty"] == "numerical" else None)
            r[G.member(av, d["tx"], sx[i]) & G.member(bv, d["ty"], sy[i]) &
              cl] = i
        r[sp] = n
        r[ms] = n + 1
        return r
    row = rows_of(x, y)
    if not mon.check((row >= 0).all(), "record_in_no_row", tag):
        return
    g = [z[row == i] for i in range(n + 2)]
    cnt = np.array([len(q) for q in g])
    mon.check(t["Count"].astype(int).tolist() == cnt.tolist() + [len(x)],
              "count", lambda: "{}\n{} {}".format(tag, t, cnt))
    mon.close(t["Count (%)"].astype(float), np.r_[cnt / len(x), 1],
              "count_pct", tag)
    if k == 0:
        e = np.array([q.sum() for q in g])
        ne = cnt - e
        mon.check(t["Event"].tolist() == e.tolist() + [e.sum()] and
                  t["Non-event"].tolist() == ne.tolist() + [ne.sum()],
                  "events", lambda: "{}\n{}".format(tag, t))
        ok = (e > 0) & (ne > 0)
        er, woe, iv, js = np.zeros((4, n + 2))
        er[ok] = e[ok] / cnt[ok]
        p, q = e[ok] / e.sum(), ne[ok] / ne.sum()
        woe[ok] = np.log(q / p)
        iv[ok] = (p - q) * np.log(p / q)
        mm = (p + q) / 2
        js[ok] = .5 * (p * np.log(p / mm) + q * np.log(q / mm))
        mon.close(t["Event rate"].astype(float), np.r_[er, e.sum() / len(x)],
                  "event_rate", tag)
        mon.close(t["WoE"].iloc[:-1].astype(float), woe, "woe", tag)
        mon.close(t["IV"].astype(float), np.r_[iv, iv.sum()], "iv", tag)
        mon.close(t["JS"].astype(float), np.r_[js, js.sum()], "js", tag)
        val = {"woe": woe, "event_rate": er}
        default = {"woe": 0., "event_rate": 0.}
    else:
        mean = np.array([q.mean() if len(q) else 0. for q in g])
        sc = np.abs(z).max() + 1e-12
        mon.close(t["Sum"].astype(float), [q.sum() for q in g] + [z.sum()],
                  "sum", tag, atol=1e-9 * sc * len(z))
        mon.close(t["Mean"].astype(float), np.r_[mean, z.mean()], "mean",
                  tag, atol=1e-9 * sc)
        mon.close(t["Std"].iloc[:-1].astype(float),
                  [q.std() if len(q) else 0. for q in g], "std",
                  lambda: "{}\n{}".format(tag, t), atol=2e-7 * sc)
        woe = mean - z.mean()
        mon.close(t["WoE"].astype(float), np.r_[woe, np.abs(woe).sum()],
                  "woe", tag, atol=1e-9 * sc * n)
        iv = np.abs(woe) * cnt / len(x)
        mon.close(t["IV"].astype(float), np.r_[iv, iv.sum()], "iv", tag,
                  atol=1e-9 * sc)
        val = {"mean": mean}
        default = {"mean": 0.}
    # --- transform
    px = np.r_[x, probe(rng, x, d["tx"], sx, d["cx"], 60)]
    py = np.r_[y, probe(rng, y, d["ty"], sy, d["cy"], 60)]
    pr = rows_of(px, py)
    px0, py0 = px.copy(), py.copy()
    for metric in list(val) + ["indices", "bins"]:
        ms = [0, "empirical", -7.5, 3, .25, np.nan][rng.integers(6)]
        mm = [0, "empirical", 2.25, -4, .6, 1][rng.integers(6)]
        a = dict(metric=metric, metric_special=ms, metric_missing=mm)
        if metric == "bins":
            a["show_digits"] = dg
        got = o.transform(px, py, **a)
        if metric == "bins":
            lab = list(t3["Bin"]) + [""]
            exp = np.array([lab[r] for r in pr], dtype=object)
            ok = np.array([u == v for u, v in zip(got, exp)])
        else:
            if metric == "indices":
                exp = pr.copy()
                if isinstance(ms, int):
                    exp[pr == n] = ms
                if isinstance(mm, int):
                    exp[pr == n + 1] = mm
            else:
                exp = np.r_[val[metric], default[metric]][pr]
                if ms != "empirical":
                    exp[pr == n] = ms
                if mm != "empirical":
                    exp[pr == n + 1] = mm
            ok = np.isclose(got, exp, rtol=1e-9, atol=1e-9,
                            equal_nan=True)
        mon.check(len(got) == len(px) and ok.all(), "transform:" + metric,
                  lambda: "{} {} rows {}: {} got {} expected {}".format(
                      tag, a, pr[~ok][:6], list(zip(px[~ok], py[~ok]))[:6],
                      got[~ok][:6], exp[~ok][:6]))
        mon.seen("transform", len(px))
    mon.check(same(px, px0) and same(py, py0), "transform:input", tag)
    # --- tables are stable and the analysis runs
    o.binning_table.analysis(print_output=False)
    if k == 0 and rng.random() < .3:
        o.binning_table.analysis(pvalue_test="fisher", print_output=False)
    t4 = o.binning_table.build()
    mon.check(t4.astype(str).equals(t.astype(str)), "table_unstable", tag)
    mon.seen("fit%d" % k)
    if (pr == -1).any():
        mon.seen("unseen_category")
    if (miss & (pd.Series(x).isin(d["cx"]).values |
                pd.Series(y).isin(d["cy"]).values)).any():
        mon.seen("missing_and_special")
    if n > 1:
        mon.sig(k, d["tx"], d["ty"], d["styles"], kw.get("strategy"),
                kw["solver"], n, bool(spec.any()), bool(miss.any()))
    mon.sample(tag[:250])


def binary(rng, mon):
    run(rng, mon, 0)


def continuous(rng, mon):
    run(rng, mon, 1)


FAMILIES = {"binary": (binary, 1800, 14000),
            "continuous": (continuous, 1800, 14000)}
REQUIRED = {"fit0": 100, "fit1": 100, "transform": 100000,
            "unseen_category": 20, "missing_and_special": 20,
            "split_digits": 30}
