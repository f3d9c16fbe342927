"""General fitted-binning workload for the table/transform properties, and the
reference recount of raw data by the displayed rows."""
import numpy as np
import pandas as pd

from . import gen


def numeric_x(rng, m, style=None):
    style = style or str(rng.choice(
        ["normal", "exp", "int", "ties", "const", "two", "heavy", "big",
         "tiny", "neg0", "lattice"]))
    if style == "normal":
        x = rng.normal(0, 10, m)
    elif style == "exp":
        x = rng.exponential(5, m)
    elif style == "int":
        x = rng.integers(-8, 20, m).astype(float)
    elif style == "ties":
        x = rng.choice([1., 2, 3, 5, 8, 13, 21], m,
                       p=rng.dirichlet(np.ones(7)))
    elif style == "const":
        x = np.full(m, 3.5)
    elif style == "two":
        x = rng.choice([0., 1.], m)
    elif style == "heavy":
        x = np.where(rng.random(m) < .6, 0., rng.standard_cauchy(m))
    elif style == "big":
        x = rng.normal(0, 1, m) * 1e9
    elif style == "tiny":
        x = rng.normal(0, 1, m) * 1e-7
    elif style == "neg0":
        x = rng.choice([-0.0, 0.0, -1.0, 1.0, 2.0], m)
    else:
        x = rng.integers(0, 40, m) / 10.
    return x, style


def link(rng, z):
    k = int(rng.integers(6))
    f = [z, -z, -z ** 2, z ** 2, np.sin(2 * z), 0 * z][k]
    return rng.choice([.3, 1, 3]) * f + rng.normal(0, .5)


def specials(rng, as_dict=None):
    """special_codes in every documented form + flat list of codes."""
    pool = [-999999.0, -888888.0, -777777.0, -666666.0]
    k = int(rng.integers(1, 5))
    codes = [pool[i] for i in rng.permutation(4)[:k]]   # interleaved groups
    as_dict = rng.random() < .5 if as_dict is None else as_dict
    if not as_dict:
        return (list(codes) if rng.random() < .7 else np.array(codes)), \
            codes, [("Special", codes)]
    d, rows, i = {}, [], 0
    while i < k:
        step = int(rng.integers(1, 3))
        grp = codes[i:i + step]
        key = "code%d" % len(d)
        d[key] = grp[0] if len(grp) == 1 and rng.random() < .6 else (
            list(grp) if rng.random() < .7 else np.array(grp))
        rows.append((key, grp))
        i += step
    return d, codes, rows


def _both(rng, y, clean):
    """Guarantee both classes among the clean records."""
    idx = np.flatnonzero(clean)
    if len(idx) < 2:
        return False
    y[idx[0]], y[idx[1]] = 0, 1
    return True


def binary_numeric(rng, nmax=500):
    """-> dict(x, y, kw, codes, rows, style) or None"""
    m = int(rng.integers(20, nmax))
    x, style = numeric_x(rng, m)
    z = (x - np.median(x)) / (np.std(x) + 1e-12)
    y = (rng.random(m) < 1 / (1 + np.exp(-link(rng, np.clip(z, -5, 5))))
         ).astype(int)
    kw, codes, rows = {}, [], [("Special", [])]
    if rng.random() < .5:
        sc, codes, rows = specials(rng)
        kw["special_codes"] = sc
        if rng.random() < .85:
            msk = rng.random(m) < rng.choice([.02, .1, .3])
            x[msk] = rng.choice(codes, msk.sum())
    if rng.random() < .5:
        x[rng.random(m) < rng.choice([.02, .1, .3])] = np.nan
    clean = ~np.isnan(x) & ~np.isin(x, codes)
    if not _both(rng, y, clean):
        return None
    kw["prebinning_method"] = str(rng.choice(
        ["cart", "cart", "mdlp", "quantile", "uniform"]))
    kw["max_n_prebins"] = int(rng.integers(2, 15))
    kw["min_prebin_size"] = float(rng.choice([0.01, 0.05, 0.1, 0.3]))
    kw["divergence"] = str(rng.choice(["iv", "js", "hellinger",
                                       "triangular"]))
    kw["monotonic_trend"] = [None, "auto", "auto_heuristic", "ascending",
                             "peak", "auto_asc_desc"][rng.integers(6)]
    if rng.random() < .3:
        kw["max_n_bins"] = int(rng.integers(1, 6))
    if rng.random() < .2:
        kw["min_bin_size"] = float(rng.choice([.05, .2]))
    if rng.random() < .15:
        kw["max_pvalue"] = .1
    if rng.random() < .2:
        kw["min_bin_n_event"] = int(rng.integers(1, 8))
    if rng.random() < .2:
        kw["solver"] = "mip"
    if rng.random() < .2 and style not in ("tiny",):
        kw["split_digits"] = int(rng.integers(0, 4))
    if rng.random() < .25:
        q = rng.choice(x[clean], int(rng.integers(1, 9)))
        if rng.random() < .5:
            q = q + rng.normal(0, np.std(x[clean]) + .1, len(q))
        q = np.unique(np.round(q, 3) if style not in ("tiny",) else q)
        q = q[rng.permutation(len(q))]
        kw["user_splits"] = q.tolist() if rng.random() < .5 else q
        kw.pop("split_digits", None)
    return dict(x=x, y=y, kw=kw, codes=codes, rows=rows, style=style,
                dtype="numerical")


def binary_categorical(rng, nmax=500):
    m = int(rng.integers(30, nmax))
    k = int(rng.integers(2, 14))
    kind = str(rng.choice(["str", "str", "int", "float"]))
    names = {"str": np.array(["c%02d" % i for i in range(k)], dtype=object),
             "int": np.arange(k) * 3 - 4,
             "float": np.arange(k) * 1.5 - 3}[kind]
    p = rng.dirichlet(np.full(k, rng.choice([.4, 2.])))
    idx = rng.choice(k, m, p=p)
    er = rng.uniform(.05, .95, k)
    if rng.random() < .3:
        er = rng.choice([0.02, .3, .3, .6, .98], k)
    y = (rng.random(m) < er[idx]).astype(int)
    x = names[idx]
    kw, codes, rows = dict(dtype="categorical"), [], [("Special", [])]
    x = x.astype(object) if kind == "str" else x
    if rng.random() < .4:
        if kind == "str":
            codes = ["zz", "yy"][:rng.integers(1, 3)]
        elif kind == "int":
            codes = [-999, -888][:rng.integers(1, 3)]
        else:
            codes = [-999.0, -888.0][:rng.integers(1, 3)]
        if rng.random() < .5:
            kw["special_codes"] = {"s%d" % i: c for i, c in enumerate(codes)}
            rows = [("s%d" % i, [c]) for i, c in enumerate(codes)]
            if len(codes) > 1 and rng.random() < .5:
                kw["special_codes"] = {"grp": list(codes) if rng.random() < .7
                                       else np.array(codes)}
                rows = [("grp", list(codes))]
        else:
            kw["special_codes"] = list(codes)
            rows = [("Special", list(codes))]
        msk = rng.random(m) < .1
        for i in np.flatnonzero(msk):
            x[i] = codes[rng.integers(len(codes))]
    miss = np.zeros(m, bool)
    if kind != "int" and rng.random() < .4:
        miss = rng.random(m) < .1
        for i in np.flatnonzero(miss):
            x[i] = np.nan if kind == "float" or rng.random() < .7 else None
    clean = ~pd.isnull(x) & ~pd.Series(x).isin(codes).values
    if not _both(rng, y, clean):
        return None
    vc = pd.Series(x[clean]).value_counts()
    if rng.random() < .5:
        kw["cat_cutoff"] = float(rng.choice([.01, .05, .1, .2]))
        if not (vc >= np.ceil(kw["cat_cutoff"] * clean.sum())).any():
            kw.pop("cat_cutoff")
    kw["monotonic_trend"] = [None, "auto", "ascending"][rng.integers(3)]
    kw["divergence"] = str(rng.choice(["iv", "js", "hellinger",
                                       "triangular"]))
    kw["max_n_prebins"] = int(rng.integers(2, 15))
    kw["min_prebin_size"] = float(rng.choice([0.01, 0.05, 0.1]))
    if rng.random() < .5:
        kw["prebinning_method"] = str(rng.choice(
            ["mdlp", "quantile", "uniform", "uniform"]))
        if len(vc) > 2 and rng.random() < .5:      # splits at category codes
            kw["max_n_prebins"] = len(vc) - 1
    if rng.random() < .3:
        kw["max_n_bins"] = int(rng.integers(1, 5))
    user = None
    if rng.random() < .35 and len(vc) >= 2:
        cats = list(vc.index)
        cats = [cats[i] for i in rng.permutation(len(cats))]
        if rng.random() < .4 and len(cats) > 2:     # leave some to others
            cats = cats[:-int(rng.integers(1, len(cats) - 1))]
        g = int(rng.integers(1, len(cats) + 1))
        groups = [cats[i::g] for i in range(g)]
        user = np.empty(len(groups), dtype=object)
        for i, gr in enumerate(groups):
            user[i] = np.array(gr, dtype=object if kind == "str" else None)
        kw["user_splits"] = user
        kw.pop("cat_cutoff", None)
    return dict(x=x, y=y, kw=kw, codes=codes, rows=rows, style=kind,
                dtype="categorical", names=names, groups=user)


def masks(d):
    x = d["x"]
    if d["dtype"] == "numerical":
        miss = np.isnan(x)
        spec = np.isin(x, d["codes"]) if len(d["codes"]) else \
            np.zeros(len(x), bool)
    else:
        miss = pd.isnull(x)
        spec = pd.Series(x).isin(d["codes"]).values
    return miss, spec, ~miss & ~spec


def cat_rows(tab, n_tail):
    """Category lists of the bin rows of a built table (without the special,
    missing and totals rows)."""
    return [list(v) for v in tab["Bin"].iloc[:len(tab) - n_tail]]


def row_of(values, dtype, splits, groups, rows):
    """Row index of every value given the displayed model; -1: no row."""
    n_bins = len(splits) + 1 if dtype == "numerical" else len(groups)
    out = np.full(len(values), -1)
    if dtype == "numerical":
        values = np.asarray(values, float)
        miss = np.isnan(values)
        for i, v in enumerate(values):
            if miss[i]:
                continue
            k = 0
            for s in splits:          # half-open [a, b): v == s goes right
                if v >= s:
                    k += 1
            out[i] = k
        for r, (_, codes) in enumerate(rows):
            codes = [c for c in codes if not isinstance(c, str)]
            if len(codes):
                out[np.isin(values, codes)] = n_bins + r
        out[miss] = n_bins + len(rows)
    else:
        lut = {}
        for g, cats in enumerate(groups):
            for c in cats:
                lut[c] = g
        for r, (_, codes) in enumerate(rows):
            for c in codes:
                lut[c] = n_bins + r
        miss = pd.isnull(np.asarray(values))
        for i, v in enumerate(values):
            out[i] = n_bins + len(rows) if miss[i] else lut.get(v, -1)
    return out, n_bins


def to_continuous(rng, d):
    """Same x workload with a continuous target."""
    x, kw = d["x"], d["kw"]
    for k in ("divergence", "solver", "min_bin_n_event"):
        kw.pop(k, None)
    if kw.get("prebinning_method") == "mdlp":
        kw["prebinning_method"] = "cart"
    m = len(x)
    if d["dtype"] == "numerical":
        z = np.where(np.isnan(x) | np.isin(x, d["codes"]), 0., x)
        z = (z - np.median(z)) / (np.std(z) + 1e-12)
        base = link(rng, np.clip(z, -5, 5))
    else:
        eff = {c: rng.normal() for c in list(d["names"]) + list(d["codes"])}
        base = np.array([eff.get(v, 0.3) for v in x])
    style = str(rng.choice(["real", "pos", "neg", "count", "zeros"]))
    scale = float(rng.choice([.1, 1, 100]))
    y = base * scale + rng.normal(0, scale * rng.choice([.1, 1]), m)
    if style == "pos":
        y = np.abs(y) + .5 * scale
    elif style == "neg":
        y = -np.abs(y) - .5 * scale
    elif style == "count":
        y = np.floor(np.abs(y) * 3 / scale)
    elif style == "zeros":
        y[rng.random(m) < .4] = 0.
    d["y"], d["ystyle"], d["yscale"] = y, style, scale
    return d
