"""V01: every plot draws exactly the values of the fitted object."""
import os
import shutil
import tempfile

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from vlib import zoo

PROP = "V01"
RULE = ("a figure counts when it was drawn from a fitted object; distinct = "
        "(object, metric, style, special/missing shown, number of rows and "
        "of special rows, others row, loaded from JSON)")
ASSUMPTIONS = [
    "matplotlib's Agg back end; the drawn artists (bar patches, line data, "
    "image array, texts, tick labels, hatches) are read back from the figure",
    "the table built without rounding is the reference; that it is right is "
    "judged by B03, B04, C02, M02, D01, W01 and K03",
    "categorical labels longer than 27 characters are truncated as documented"]
REQUIRED = {"figures": 900, "bin style": 400, "actual style": 60,
            "special hidden": 100, "missing hidden": 100, "others row": 25,
            "several special rows": 60, "labels": 150, "saved": 60,
            "from json": 40, "multiclass": 60, "2d": 80, "piecewise": 60,
            "monitoring": 60, "one psi bin": 5, "progress": 40,
            "several solves": 20, "bands": 40, "one bin": 20, "rejected": 60}


def num(v):
    return np.asarray(v, dtype=float)


def figure(mon, draw, tag, save=None):
    """Run a plotting call and return the figure (None if saved)."""
    plt.close("all")
    try:
        zoo.quiet(draw)
        mon.seen("figures")
        if save is not None:
            mon.seen("saved")
            mon.check(os.path.isfile(save) and os.path.getsize(save) > 500,
                      "not-saved", tag)
            mon.check(not plt.get_fignums(), "figure-left-open", tag)
            return None
        if not mon.check(len(plt.get_fignums()) == 1, "no-figure", tag):
            return None
        return plt.gcf()
    finally:
        pass


def bars(ax):
    """-> list of containers as arrays (left, bottom, width, height)"""
    return [np.array([[p.get_x(), p.get_y(), p.get_width(), p.get_height()]
                      for p in c]) for c in ax.containers]


def marks(ax):
    """points of every line that has markers"""
    out = []
    for ln in ax.get_lines():
        if ln.get_marker() not in ("None", None, "", " "):
            out += list(zip(num(ln.get_xdata()), num(ln.get_ydata())))
    return out


def legend(fig):
    return [t.get_text() for ax in fig.axes if ax.get_legend()
            for t in ax.get_legend().get_texts()]


def rows_of(t, codes):
    """table without totals and the number of special rows"""
    t = t.iloc[:-1]
    return t, len(codes) if isinstance(codes, dict) else 1


def same(mon, got, exp, key, tag):
    mon.evals += 1
    got, exp = num(got), num(exp)
    if got.shape != exp.shape or not np.allclose(
            got, exp, rtol=1e-9, atol=1e-9, equal_nan=True):
        mon.fail(key, "{}: drawn {} table {}".format(
            tag, got.tolist(), exp.tolist()))


def shown(t, ns, special, missing):
    keep = np.ones(len(t), bool)
    if not special:
        keep[len(t) - 1 - ns:len(t) - 1] = False
    if not missing:
        keep[-1] = False
    return np.flatnonzero(keep)


def hatches(mon, c, kind, tag):
    for i, p in enumerate(c):
        h = p.get_hatch() or ""
        ok = {"s": "/" in h, "m": "\\" in h, "r": h == ""}[kind[i]]
        mon.check(ok, "hatch", lambda: "{} bar {} {} {!r}".format(
            tag, i, kind, h))


def label(v, cat):
    s = str(v)
    return s[:27] + "..." if cat and len(s) > 27 else s


def labels(mon, ax, t, idx, cat, tag):
    got = [q.get_text() for q in ax.get_xticklabels()]
    exp = [label(t["Bin"].iloc[i], cat) for i in idx]
    mon.seen("labels")
    mon.check(got == exp, "labels", lambda: "{} {} table {}".format(
        tag, got, exp))
    same(mon, ax.get_xticks(), np.arange(len(idx)), "label-position", tag)


def stacked(mon, ax, cols, t, idx, kind, tag):
    """bar containers are the count columns, stacked"""
    got = bars(ax)
    if not mon.check(len(got) == len(cols), "containers", lambda:
                     "{} {}".format(tag, len(got))):
        return
    base = np.zeros(len(idx))
    for g, c, cont in zip(got, cols, ax.containers):
        h = num(t[c].iloc[idx])
        if not mon.check(len(g) == len(idx), "bars", lambda:
                         "{} {} bars for {} rows".format(tag, len(g),
                                                         len(idx))):
            return
        same(mon, g[:, 0] + g[:, 2] / 2, np.arange(len(idx)), "bar-position",
             tag)
        same(mon, g[:, 3], h, "bar-height", "{} {}".format(tag, c))
        same(mon, g[:, 1], base, "bar-bottom", "{} {}".format(tag, c))
        base = base + h
        hatches(mon, cont, kind, tag)


def points(mon, ax, vals, idx, kind, main, others, tag):
    """one marker per displayed row at its position and value"""
    got = sorted(marks(ax))
    exp = sorted(zip(map(float, range(len(idx))), num(vals)[idx]))
    same(mon, [g[0] for g in got], [e[0] for e in exp], "point-position", tag)
    same(mon, [g[1] for g in got], [e[1] for e in exp], "point-value", tag)
    # the regular bins are joined by one line
    # (the rare categories' own row, if any, follows as a single point)
    if main > 1 + others:
        ln = [list(num(q.get_xdata())) for q in ax.get_lines()]
        rest = others and list(range(main - 1)) in ln
        mon.check(list(range(main)) in ln or rest, "line", tag)
        mon.seen("others row", rest)


def onedim(kind):
    binary = kind.startswith("binary") or kind == "scenario"

    def f(rng, mon, scratch):
        m = zoo.ALL[kind](rng)
        mon.sample(m.tag)
        try:
            o = m.fitted()
        except Exception:
            return                          # judged by the fitting checks
        loaded = ""
        if rng.random() < .15 and hasattr(o, "to_json") and kind != \
                "scenario":
            p = os.path.join(scratch, "m.json")
            q = m.new()
            try:
                zoo.quiet(o.to_json, p)
                zoo.quiet(q.read_json, p)
                o, loaded = q, "loaded "
                mon.seen("from json")
            except Exception:
                return                      # judged by B08
        bt = o.binning_table
        digits = int(rng.integers(0, 6))
        tab = zoo.quiet(bt.build, show_digits=digits)
        t, ns = rows_of(tab, o.special_codes)
        cat = getattr(o, "dtype", "numerical") == "categorical"
        mets = (["woe", "event_rate", "iv"] if binary else
                ["mean", "woe", "iv"])
        col = dict(woe="WoE", event_rate="Event rate", iv="IV", mean="Mean")
        text = dict(woe="WoE", event_rate="Event rate", iv="IV", mean="Mean")
        cols = ["Event", "Non-event"] if binary else ["Count"]
        name = str(o.name)
        others = cat and (bool(o.cat_cutoff) or o.user_splits is not None)
        regular = len(t) - 1 - ns
        for _ in range(3):
            g = str(rng.choice(mets))
            sp, ms = bool(rng.random() < .6), bool(rng.random() < .6)
            lab = bool(rng.random() < .4)
            act = not cat and rng.random() < .25
            kw = {}
            if rng.random() < .9:
                kw["metric"] = g
            else:
                g = mets[0]
            for k, v, d in (("add_special", sp, True),
                            ("add_missing", ms, True),
                            ("show_bin_labels", lab and not act, False)):
                if v != d or rng.random() < .5:
                    kw[k] = v
            if act:
                kw["style"] = "actual"
            if rng.random() < .2:
                kw["figsize"] = (4, 3)
            save = None
            if rng.random() < .1:
                save = kw["savefig"] = os.path.join(scratch, "f.png")
                if binary and rng.random() < .5:
                    kw["save_kwargs"] = dict(dpi=40)
            tag = "{}{} plot({})".format(loaded, m.tag, kw)
            fig = figure(mon, lambda: bt.plot(**kw), tag, save)
            if save:
                os.path.exists(save) and os.remove(save)
            if fig is None:
                continue
            mon.sig(kind, g, act, sp, ms, len(t), ns, others, bool(loaded))
            mon.seen("one bin", regular == 1)
            ax1, ax2 = fig.axes[:2]
            mon.check(ax2.get_ylabel() == text[g], "metric-label", lambda:
                      "{} {!r}".format(tag, ax2.get_ylabel()))
            mon.check(name in [a.get_title() for a in fig.axes], "title",
                      lambda: "{} {}".format(tag, [a.get_title() for a in
                                                   fig.axes]))
            leg = legend(fig)
            mon.check(leg[:len(cols)] == (["Non-event", "Event"] if binary
                                          else ["Count"]), "legend",
                      lambda: (tag, leg))
            v = num(t[col[g]])
            if act:
                mon.seen("actual style")
                x = num(m.train()[0])
                x = x[np.isfinite(x)]
                codes = m.codes
                actual(mon, ax1, ax2, cols, t, v, regular, o, x, codes, tag)
                mon.check(leg[len(cols):] == [], "legend", lambda: (tag, leg))
                continue
            mon.seen("bin style")
            mon.seen("several special rows", ns > 1)
            mon.seen("special hidden", not sp)
            mon.seen("missing hidden", not ms)
            idx = shown(t, ns, sp, ms)
            kinds = ["m" if i == len(t) - 1 else
                     "s" if i >= len(t) - 1 - ns else "r" for i in idx]
            mon.check(leg[len(cols):] == ["Bin special"] * sp +
                      ["Bin missing"] * ms, "legend", lambda: (tag, leg))
            stacked(mon, ax1, cols, t, idx, kinds, tag)
            points(mon, ax2, v, idx, kinds, regular, others, tag)
            if lab and not act:
                labels(mon, ax1, t, idx, cat, tag)
        # what it must refuse
        bad = [dict(metric="nope"), dict(add_special="yes"),
               dict(add_missing=1), dict(style="none"),
               dict(show_bin_labels=2), dict(figsize=[3, 3]),
               dict(style="actual", show_bin_labels=True),
               dict(savefig=3)] + ([dict(style="actual")] if cat else [])
        b = bad[rng.integers(len(bad))]
        refuse(mon, lambda: bt.plot(**b), "{} plot({})".format(m.tag, b))
    return f


def refuse(mon, f, tag):
    mon.seen("rejected")
    try:
        zoo.quiet(f)
    except (ValueError, TypeError):
        return
    mon.fail("accepted", tag)


def actual(mon, ax1, ax2, cols, t, v, nb, o, x, codes, tag):
    x = x[~np.isin(x, num(list(codes)))]
    got = bars(ax1)
    s = num(o.splits)
    if not mon.check([len(g) for g in got] == [nb] * len(cols),
                     "containers", tag):
        return
    base = np.zeros(nb)
    for g, c in zip(got, cols):
        h = num(t[c])[:nb]
        same(mon, g[:, 3], h, "bar-height", "{} {}".format(tag, c))
        same(mon, g[:, 1], base, "bar-bottom", tag)
        same(mon, g[1:, 0], s, "bar-edges", tag)
        same(mon, (g[:, 0] + g[:, 2])[:-1], s, "bar-edges", tag)
        r = 1e-9 * np.abs(x).max()
        mon.check(np.abs(x - g[0, 0]).min() <= r and
                  np.abs(x - g[-1, 0] - g[-1, 2]).min() <= r,
                  "bar-range", lambda: "{} {}".format(tag, g.tolist()))
        if getattr(o, "outlier_detector", None) is None:
            same(mon, [g[0, 0], g[-1, 0] + g[-1, 2]], [x.min(), x.max()],
                 "bar-range", tag)
        base = base + h
    g = got[0]
    lines = [(num(q.get_xdata()), num(q.get_ydata())) for q in
             ax2.get_lines() if q.get_marker() in ("None", None, "", " ")]
    e = np.r_[g[:, 0], g[-1, 0] + g[-1, 2]]
    flat = sorted((a[0], a[1], b[0], b[1]) for a, b in lines
                  if len(a) == 2 and not (b[0] == 0 and b[1] == 1 and
                                          a[0] == a[1]))
    want = sorted((e[i], e[i + 1], v[i], v[i]) for i in range(nb))
    wide = [w for w in want if w[0] != w[1]]
    flat = [w for w in flat if w[0] != w[1]]
    same(mon, flat, wide, "steps", tag)
    pts = sorted(marks(ax2))
    exp = sorted(zip((e[:-1] + e[1:]) / 2, v[:nb]))
    same(mon, pts, exp, "points", tag)
    vert = sorted({a[0] for a, b in lines if a[0] == a[-1]})
    mon.check(set(s) <= set(vert), "split-lines", lambda: (tag, vert))


def multiclass(rng, mon, scratch):
    m = zoo.ALL["multi"](rng)
    mon.sample(m.tag)
    try:
        o = m.fitted()
    except Exception:
        return
    bt = o.binning_table
    t, ns = rows_of(zoo.quiet(bt.build), o.special_codes)
    cl = list(o.classes)
    for _ in range(3):
        sp, ms = bool(rng.random() < .6), bool(rng.random() < .6)
        lab = bool(rng.random() < .4)
        kw = dict(add_special=sp, add_missing=ms, show_bin_labels=lab)
        save = None
        if rng.random() < .1:
            save = kw["savefig"] = os.path.join(scratch, "f.png")
        tag = "{} plot({})".format(m.tag, kw)
        fig = figure(mon, lambda: bt.plot(**kw), tag, save)
        if fig is None:
            continue
        mon.seen("multiclass")
        mon.sig("multi", len(cl), sp, ms, len(t), ns)
        idx = shown(t, ns, sp, ms)
        kinds = ["m" if i == len(t) - 1 else
                 "s" if i >= len(t) - 1 - ns else "r" for i in idx]
        ax1, ax2 = fig.axes[:2]
        stacked(mon, ax1, ["Event_%s" % c for c in cl], t, idx, kinds, tag)
        got = sorted(marks(ax2))
        exp = sorted((float(p), num(t["Event_rate_%s" % c])[i]) for c in cl
                     for p, i in enumerate(idx))
        same(mon, got, exp, "point-value", tag)
        leg = legend(fig)
        mon.check(leg == [str(c) for c in cl] + ["Bin special"] * sp +
                  ["Bin missing"] * ms, "legend", lambda: (tag, leg))
        nb = len(t) - 1 - ns
        lines = [tuple(np.round(num(q.get_ydata()), 9)) for q in
                 ax2.get_lines() if len(q.get_xdata()) == nb]
        if nb > 1:
            for c in cl:
                mon.check(tuple(np.round(num(t["Event_rate_%s" % c])[:nb],
                                         9)) in lines, "line",
                          lambda: "{} class {} {}".format(tag, c, lines))
        if lab:
            labels(mon, ax1, t, idx, False, tag)
    b = [dict(add_special=0), dict(add_missing="x"), dict(figsize=3),
         dict(show_bin_labels=None), dict(savefig=1)][rng.integers(5)]
    refuse(mon, lambda: bt.plot(**b), "{} plot({})".format(m.tag, b))


def twod(rng, mon, scratch):
    m = zoo.ALL["twod"](rng)
    mon.sample(m.tag)
    try:
        o = m.fitted()
    except Exception:
        return
    if o.status not in ("OPTIMAL", "FEASIBLE"):
        return
    bt = o.binning_table
    t = zoo.quiet(bt.build).iloc[:-1]
    k = isinstance(m, zoo.ContTwoD)
    g = "mean" if k else str(rng.choice(["woe", "event_rate"]))
    kw = {} if k else dict(metric=g)
    save = None
    if rng.random() < .1:
        save = kw["savefig"] = os.path.join(scratch, "f.png")
    tag = "{} plot({})".format(m.tag, kw)
    fig = figure(mon, lambda: bt.plot(**kw), tag, save)
    if fig is None:
        return
    mon.seen("2d")
    v = num(t[{"mean": "Mean", "woe": "WoE",
               "event_rate": "Event rate"}[g]])[:-2]
    main = [a for a in fig.axes if a.images]
    if not mon.check(len(main) == 1, "no-matrix", tag):
        return
    ax = main[0]
    img = num(ax.images[0].get_array())
    ids = np.full(img.shape, -1)
    for q in ax.texts:
        x, y = q.get_position()
        ids[int(y), int(x)] = int(q.get_text())
    mon.sig("2d", g, img.shape, len(v))
    if not mon.check(sorted(set(ids.ravel())) == list(range(len(v))),
                     "bin-ids", lambda: "{} {} bins {}".format(
                         tag, ids.tolist(), len(v))):
        return
    same(mon, img, v[ids], "matrix", tag)
    # the cells of each bin are a rectangle, in the order of its splits
    box = {}
    for b in range(len(v)):
        r, c = np.nonzero(ids == b)
        box[b] = (c.min(), c.max() + 1, r.min(), r.max() + 1)
        mon.check(len(r) == (box[b][1] - box[b][0]) *
                  (box[b][3] - box[b][2]), "not-rectangle", lambda:
                  "{} {}".format(tag, ids.tolist()))
    for axis_, (sp, dt) in enumerate(zip(o.splits, (o.dtype_x, o.dtype_y))):
        if dt == "categorical":
            continue
        for p in range(len(v)):
            for q in range(len(v)):
                for e in (0, 1):
                    a, b = sp[p][e], sp[q][e]
                    i, j = box[p][2 * axis_ + e], box[q][2 * axis_ + e]
                    mon.check((a < b) == (i < j), "cell-order", lambda:
                              "{} bins {} {}: {} {} drawn at {} {}".format(
                                  tag, p, q, sp[p], sp[q], box[p], box[q]))
    # the trends along both axes
    names = [a.get_xlabel() for a in fig.axes] + [a.get_ylabel() for a in
                                                  fig.axes]
    mon.check({"mean": "Mean", "woe": "WoE", "event_rate": "Event rate"}[g]
              in names, "metric-label", lambda: "{} {}".format(tag, names))
    for lines, mat, xy in ((True, ids, 0), (False, ids.T, 1)):
        paths = {}
        for row in mat:
            u = tuple(x for i, x in enumerate(row)
                      if i == 0 or row[i - 1] != x)
            paths[u] = row
        got = {}
        for a in fig.axes:
            if a is ax:
                continue
            for ln in a.get_lines():
                lb = ln.get_label()
                if lb.startswith("(") and not lb.startswith("_"):
                    d = (num(ln.get_xdata()), num(ln.get_ydata()))
                    pos, val = (d if xy == 0 else d[::-1])
                    if len(pos) == mat.shape[1] + 1 and np.allclose(
                            pos, np.arange(len(pos)) - .5):
                        got.setdefault(lb, []).append(val)
        for u, row in paths.items():
            key = str(u)
            cand = got.get(key) or got.get(str(tuple(np.int64(i)
                                                     for i in u))) or []
            want = np.r_[v[row], v[row[-1]]]
            mon.check(any(np.allclose(c, want) for c in cand), "trend-line",
                      lambda: "{} axis {} path {} {} drawn {}".format(
                          tag, "xy"[xy], u, want.tolist(), {
                              q: [list(c) for c in w] for q, w in
                              got.items()}))
    if rng.random() < .5:
        refuse(mon, lambda: bt.plot(**(dict(savefig=2) if k else
                                       dict(metric="iv"))), tag)


def piecewise(rng, mon, scratch):
    m = zoo.ALL["piecewise"](rng)
    mon.sample(m.tag)
    try:
        o = m.fitted()
    except Exception:
        return
    if o.status not in ("OPTIMAL", "FEASIBLE"):
        return
    k = isinstance(m, zoo.ContPW)
    bt = o.binning_table
    t, ns = rows_of(zoo.quiet(bt.build), o.special_codes)
    nb = len(t) - 1 - ns
    g = "mean" if k else str(rng.choice(["woe", "event_rate"]))
    kw = {} if k else dict(metric=g)
    n = int(rng.choice([2, 50, 1000]))
    kw["n_samples"] = n
    save = None
    if rng.random() < .1:
        save = kw["savefig"] = os.path.join(scratch, "f.png")
    tag = "{} plot({})".format(m.tag, kw)
    fig = figure(mon, lambda: bt.plot(**kw), tag, save)
    if fig is None:
        return
    mon.seen("piecewise")
    mon.sig("pw", g, nb, ns, n)
    ax1, ax2 = fig.axes[:2]
    cols = ["Count"] if k else ["Event", "Non-event"]
    got = bars(ax1)
    if not mon.check([len(q) for q in got] == [nb] * len(cols),
                     "containers", tag):
        return
    s = num(o.splits)
    base = np.zeros(nb)
    for q, c in zip(got, cols):
        h = num(t[c])[:nb]
        same(mon, q[:, 3], h, "bar-height", "{} {}".format(tag, c))
        same(mon, q[:, 1], base, "bar-bottom", tag)
        same(mon, q[1:, 0], s, "bar-edges", tag)
        base = base + h
    lo, hi = got[0][0, 0], got[0][-1, 0] + got[0][-1, 2]
    x = num(m.train()[0])
    x = x[np.isfinite(x)]
    scale = np.abs(x).max()
    mon.check(np.abs(x - lo).min() <= 1e-9 * scale and
              np.abs(x - hi).min() <= 1e-9 * scale, "bar-range",
              lambda: (tag, lo, hi))
    line = [q for q in ax2.get_lines() if len(q.get_xdata()) == n and
            q.get_color() == "black"]
    if not mon.check(len(line) == 1, "curve", tag):
        return
    xs, v = num(line[0].get_xdata()), num(line[0].get_ydata())
    same(mon, xs / scale, np.linspace(lo, hi, n) / scale, "curve-x", tag)
    ok = ~np.isin(xs, num(list(m.codes))) if len(m.codes) else np.ones(
        n, bool)
    # a sample at the last edge may round into the bin of the maximum
    if k:
        b = {q: z for q, z in m.a["kw"].items() if q in ("lb", "ub")}
        e = num(zoo.quiet(o.transform, xs, **b))
        f = v
    else:
        f = v
        e = num(zoo.quiet(o.transform, xs, metric=g, lb=1e-12, ub=1 - 1e-12))
        if g == "woe":
            p = num(zoo.quiet(o.transform, xs, metric="event_rate"))
            ok &= (p > 1e-6) & (p < 1 - 1e-6)
    same(mon, f[ok], e[ok], "curve-value", tag)
    mon.check(ax2.get_ylabel() == {"mean": "Mean", "woe": "WoE",
                                   "event_rate": "Event rate"}[g],
              "metric-label", lambda: (tag, ax2.get_ylabel()))
    if not k:
        refuse(mon, lambda: bt.plot(metric="iv"), tag)


def monitoring(rng, mon, scratch):
    from optbinning.scorecard import ScorecardMonitoring
    from checks import K03
    from vlib import score
    d = score.make(rng, nmax=200)
    try:
        sc = score.fit(d, **score.scaling(rng, d["ttype"]))
        if not np.isfinite(num(sc.score(d["df"]))).all():
            return
    except Exception:
        return                              # judged by K01
    kind, X, y = K03.sample(rng, d, sc)
    nb = int(rng.choice([2, 3, 5, 10]))
    kw = dict(psi_method=str(rng.choice(["cart", "quantile", "uniform"])),
              psi_n_bins=nb, psi_min_bin_size=float(rng.choice(
                  [.05, .2, .45])))
    o = ScorecardMonitoring(scorecard=sc, **kw)
    try:
        zoo.quiet(o.fit, X, y, d["df"], d["y"])
    except Exception:
        return                              # judged by K03
    t = zoo.quiet(o.psi_table).iloc[:-1]
    save = os.path.join(scratch, "f.png") if rng.random() < .1 else None
    tag = "monitoring {} {} {}".format(kw, kind, len(y))
    fig = figure(mon, lambda: o.psi_plot(**(dict(savefig=save) if save
                                            else {})), tag, save)
    if fig is None:
        return
    mon.seen("monitoring")
    n = len(t)
    mon.seen("one psi bin", n == 1)
    mon.sig("psi", n, kind, d["ttype"])
    ax1, ax2 = fig.axes[:2]
    b = bars(ax1)
    if not mon.check([len(q) for q in b] == [n, n], "containers", lambda:
                     (tag, [len(q) for q in b], n)):
        return
    for q, c in zip(b, ("Count A", "Count E")):
        h = num(t[c])
        same(mon, q[:, 3], h / h.sum() * 100, "bar-height", tag + c)
        same(mon, q[:, 1], np.zeros(n), "bar-bottom", tag + c)
        mon.check(np.array_equal(np.round(q[:, 0] + q[:, 2] / 2 + .34),
                                 np.arange(n)), "bar-position",
                  lambda: (tag, q.tolist()))
    w = [q.get_ydata() for q in ax2.get_lines()]
    if not mon.check(len(w) == 2, "lines", tag):
        return
    sa = num(zoo.quiet(sc.score, X))
    se = num(zoo.quiet(sc.score, d["df"]))
    cuts = num(o.psi_splits)
    for ln, s, yy, nm in zip(ax2.get_lines(), (sa, se), (y, d["y"]), "AE"):
        same(mon, ln.get_xdata(), np.arange(n), "point-position", tag)
        i = np.searchsorted(cuts, s, side="right")
        yy = num(yy)
        cnt = np.bincount(i, minlength=n).astype(float)
        tot = np.bincount(i, weights=yy, minlength=n)
        v = num(ln.get_ydata())
        full = cnt > 0
        if d["ttype"] == "binary":
            # the rate is displayed as 0 where one class is absent
            full &= (tot > 0) & (tot < cnt)
        same(mon, v[full], (tot / np.maximum(cnt, 1))[full], "point-value",
             tag + nm)
    names = [legend(fig)]
    mon.check(names[0] == ["Actual", "Expected"], "legend", lambda:
              (tag, names))
    refuse(mon, lambda: o.psi_plot(savefig=4), tag)


def progress(rng, mon, scratch):
    m = zoo.ALL["sketch"](rng)
    mon.sample(m.tag)
    o = m.new()
    hist = []
    adds = n = 0
    for _ in range(int(rng.integers(1, 6))):
        for _ in range(int(rng.integers(1, 3))):
            x, y = (m.a if rng.random() < .6 else m.b)["args"]
            i = np.arange(len(x)) if rng.random() < .5 else rng.integers(
                0, len(x), int(rng.integers(20, len(x) + 1)))
            try:
                zoo.quiet(o.add, x[i], y[i])
            except Exception:
                return
            adds += 1
            n += len(i)
        try:
            zoo.quiet(o.solve)
        except Exception:
            return                          # judged by S02
        t = o.binning_table
        zoo.quiet(t.build)
        hist.append((n, adds, {"iv": t.iv, "js": t.js, "hellinger":
                               t.hellinger, "triangular": t.triangular}[
                                   o.divergence]))
    tag = "{} {}".format(m.tag, hist)
    fig = figure(mon, o.plot_progress, tag)
    if fig is None:
        return
    mon.seen("progress")
    mon.seen("several solves", len(hist) > 1)
    mon.sig("progress", len(hist), m.kw.get("divergence"))
    ax = fig.axes[0]
    ln = ax.get_lines()
    if not mon.check(len(ln) == 2, "lines", tag):
        return
    h = num([(q[0], q[2]) for q in hist])
    same(mon, ln[0].get_xdata(), h[:, 0], "records", tag)
    same(mon, ln[0].get_ydata(), h[:, 1], "divergence", tag)
    same(mon, ln[1].get_ydata(), np.cumsum(h[:, 1]) / np.arange(
        1, len(h) + 1), "moving-mean", tag)
    mean, half = np.cumsum(h[:, 1]) / np.arange(1, len(h) + 1), []
    for i in range(1, len(h)):
        sd = np.sqrt(((h[:i + 1, 1] - mean[i]) ** 2).sum() / i)
        half.append(1.959963984540054 * sd / np.sqrt(i + 1))
    ver = np.concatenate([q.vertices for c in ax.collections
                          for q in c.get_paths()] or [np.empty((0, 2))])
    for (n_, d_), w in zip(h[1:], half):
        if not mon.check((ver[:, 0] == n_).any(), "band-missing", tag):
            break
        q = ver[ver[:, 0] == n_, 1]
        same(mon, [q.min(), q.max()], [max(0, d_ - w), d_ + w], "band", tag)
        mon.seen("bands")
    if half:
        lab = " ".join(str(q.get_text()) for q in ax.get_legend().texts)
        se = half[-1] / 1.959963984540054
        mon.check("divergence ({:.5f})".format(h[-1, 1]) in lab and
                  "mean ({:.5f})".format(mean[-1]) in lab and any(
                      "error ({:.5f})".format(se + q) in lab
                      for q in (-1e-9, 0, 1e-9)), "progress-legend",
                  lambda: "{} {}".format(tag, lab))
    want = "Progress after {} add and {} processed records".format(adds, n)
    mon.check(ax.get_title() == want, "title", lambda: "{} {!r}".format(
        tag, ax.get_title()))
    mon.check(o.divergence in ax.get_ylabel(), "metric-label", tag)


def scratched(f):
    def g(rng, mon):
        d = tempfile.mkdtemp(prefix="v01_")
        try:
            f(rng, mon, d)
        finally:
            plt.close("all")
            shutil.rmtree(d, ignore_errors=True)
    return g


FAMILIES = {k: (scratched(f), n, 20 * n) for k, f, n in (
    ("binary_num", onedim("binary_num"), 160),
    ("binary_cat", onedim("binary_cat"), 160),
    ("cont_num", onedim("cont_num"), 120),
    ("cont_cat", onedim("cont_cat"), 120),
    ("scenario", onedim("scenario"), 30),
    ("multi", multiclass, 100), ("twod", twod, 160),
    ("piecewise", piecewise, 120), ("monitoring", monitoring, 150),
    ("progress", progress, 80))}
