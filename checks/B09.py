"""B09: a fit depends on the records, not on how they are presented."""
import random
import re

import numpy as np
import pandas as pd

from vlib import zoo

PROP = "B09"
RULE = ("a presentation counts when both fits succeeded and were compared; "
        "distinct = (estimator, argument, type of its values, presentation)")
ASSUMPTIONS = [
    "a python list is what numpy makes of it: text with NaN is not given as "
    "a list; object arrays are given only where text is expected",
    "continuous targets and weights are multiples of 1/64, whose sums do not "
    "depend on the order; estimators of scorecards agree up to their "
    "convergence; least-squares curves may have several optima where there "
    "are no records",
    "the order of the categories within one bin is not a result",
    "quantile sketches depend on the order of insertion within their error "
    "(S01)",
    "text columns of a dataframe have the type object; single precision, "
    "extended precision and foreign byte order are not judged"]
REQUIRED = {"compared": 2500, "rows permuted": 400, "series": 300,
            "list": 200, "nullable": 250, "small integers": 40,
            "bool target": 80, "float target": 80, "category": 15,
            "string": 40, "narrow integers": 80,
            "renamed": 100, "shifted": 50, "integers as floats": 5, "frame": 60,
            "scaled": 250, "scaled target": 60, "transform": 1500,
            "reversed": 150}


# ------------------------------------------------------------ comparisons
def norm(v):
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    try:
        return repr(float(v))
    except (TypeError, ValueError):
        return str(v)


def item(v):
    """groups of categories are sets, numbers are numbers"""
    if isinstance(v, (list, tuple, np.ndarray)) and not isinstance(v, str):
        return ("set", sorted(map(norm, np.asarray(v, dtype=object).ravel())))
    try:
        return float(v)
    except (TypeError, ValueError):
        return re.sub(r"-(0\.?0*)(?![\d.])", r"\1", str(v))   # no -0.00


def near(a, b, tol):
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[1] != b[1]:
        try:
            return len(a[1]) == len(b[1]) and np.allclose(
                sorted(map(float, a[1])), sorted(map(float, b[1])), rtol=tol,
                atol=tol, equal_nan=True)
        except ValueError:
            return False
    return a == b


def same(mon, a, b, key, msg, tol=1e-9, numbers=True):
    """two states of the same model"""
    if not mon.check(a["status"] == b["status"], key + "-status", lambda:
                     "{}: {} vs {}".format(msg(), a["status"], b["status"])):
        return False
    ok = len(a["splits"]) == len(b["splits"]) and all(
        len(u) == len(v) and all(near(item(s), item(t), tol)
                                 for s, t in zip(u, v))
        for u, v in zip(a["splits"], b["splits"]))
    if not mon.check(ok, key + "-splits", lambda: "{}: {} vs {}".format(
            msg(), a["splits"], b["splits"])):
        return False
    if not numbers:
        return True
    for t, u in zip(a["tables"], b["tables"]):
        if not mon.check(t.shape == u.shape, key + "-shape", lambda:
                         "{}: {} vs {}".format(msg(), t.shape, u.shape)):
            return False
        for c, d in zip(t.columns, u.columns):
            for i, (p, q) in enumerate(zip(t[c].tolist(), u[d].tolist())):
                if not near(item(p), item(q), tol):
                    return mon.check(
                        False, key + "-table", lambda: "{}: column {} row {}:"
                        " {!r} vs {!r}".format(msg(), c, i, p, q))
    mon.check(True, key)
    return True


def rows(v, p):
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return v.iloc[p]
    return np.asarray(v)[p]


# ----------------------------------------------------------- presentations
def forms(rng, v, target, binary, text):
    """(name, the same values); target: y; text: categories expected"""
    if isinstance(v, pd.DataFrame):
        n = len(v)
        f = v.copy()
        for c in f:
            if f[c].dtype.kind == "i":
                f[c] = f[c].astype("Int64")
            elif f[c].dtype.kind == "f":
                f[c] = f[c].astype("Float64")
        return [("frame", v.set_index(pd.Index(rng.permutation(n) * 2 - 7))),
                ("frame", v.set_index(pd.Index(["a"] * n))),
                ("frame", v.set_index(pd.date_range("2020", periods=n))),
                ("nullable", f)]
    v = np.asarray(v)
    n = len(v)
    out = [("series", pd.Series(v, index=rng.permutation(n) + 3)),
           ("series", pd.Series(v, index=[1] * n))]
    w = np.empty((n, 2), dtype=v.dtype)
    w[:, 0], w[:, 1] = v, v[::-1]
    out.append(("strided", w[:, 0]))
    if v.dtype != object:
        out.append(("list", v.tolist()))
        out.append(("tuple", tuple(v.tolist())))
    elif all(isinstance(a, str) for a in v):
        out.append(("list", v.tolist()))
        out.append(("string", v.astype(str)))
    if v.dtype.kind == "f":
        out.append(("nullable", pd.Series(v, dtype="Float64")))
    if v.dtype.kind in "iu":
        out.append(("nullable", pd.Series(v, dtype="Int64")))
        if np.abs(v).max() < 100:
            out.append(("small integers", v.astype(np.int8)))
        out.append(("small integers", v.astype(np.int32)))
        if not target:
            out.append(("integers as floats", v.astype(float)))
        elif binary:
            out += [("bool target", v.astype(bool)),
                    ("bool target", pd.Series(v.astype(bool),
                                              dtype="boolean")),
                    ("float target", v.astype(float)),
                    ("float target", v.astype(np.float32)),
                    ("small integers", v.astype(np.uint8))]
    if v.dtype == object and text:
        out.append(("category", pd.Series(v).astype("category")))
        if all(isinstance(a, str) or pd.isnull(a) for a in v):
            out.append(("string", pd.Series(v, dtype="string")))
    return out


def exact(m):
    """continuous targets and weights whose sums are exact in any order"""
    def q(v):
        v = np.asarray(v)
        return np.round(v * 64) / 64 if v.dtype.kind == "f" else v
    a = dict(m.a)
    if isinstance(m, zoo.Scenario):
        a["args"] = (a["args"][0], [q(v) for v in a["args"][1]])
    else:
        a["args"] = tuple(a["args"][:-1]) + (q(a["args"][-1]),)
    a["kw"] = dict(a["kw"])
    if a["kw"].get("sample_weight") is not None:
        a["kw"]["sample_weight"] = np.maximum(
            q(a["kw"]["sample_weight"]), 1 / 64)
    m.a = a


def attempt(m, data):
    random.seed(0)                      # t-digest draws from it
    o = m.new()
    try:
        m.fit(o, data)
        return o, zoo.state(m, o), None
    except Exception as e:
        return o, None, e


def transforms(rng, mon, m, kind, o, n, key, msg, tol):
    if not m.has_transform or kind == "card":
        return
    q, t = m.query(rng, o, 25), m.tkw(rng)
    if t.get("metric") == "bins":
        t = {}
    try:
        a = m.transform(o, q, t)
    except Exception:
        return                          # the arguments of the transform
    b = m.transform(n, q, t)
    mon.seen("transform")
    mon.check(zoo.same_out(a, b, tol), key + "-transform", lambda:
              "{} {}: {} vs {}".format(msg(), t, list(a)[:9], list(b)[:9]))


def run(kind):
    def f(rng, mon):
        m = zoo.ALL[kind](rng)
        exact(m)
        o, ref, err = attempt(m, m.a)
        if err is not None:
            mon.seen("no model")
            return
        mon.sample(m.tag)
        args, kw = list(m.a["args"]), m.a["kw"]
        loose = kind == "card"
        tol = 1e-3 if kind == "piecewise" else 1e-9

        def compare(name, label, a, k):
            msg = lambda: "{} {} {}".format(name, label, m.tag)
            n, st, e = attempt(m, dict(m.a, args=tuple(a), kw=k))
            if not mon.check(e is None, "presentation-" + name + "-failed",
                             lambda: "{!r} {}".format(e, msg())):
                return
            mon.seen("compared")
            mon.seen(name)
            mon.sig(kind, label, name)
            moved = name in ("rows permuted", "reversed")
            if same(mon, ref, st, "presentation-" + name, msg, tol,
                    numbers=not (loose and moved)) and not (
                        kind == "piecewise" and moved):
                transforms(rng, mon, m, kind, o, n, "presentation-" + name,
                           msg, tol)

        # other order of the rows
        if kind not in ("sketch", "process_sketch"):
            for name in ("rows permuted", "reversed"):
                if kind == "scenario":
                    X, Y = list(args[0]), list(args[1])
                    for j in range(len(X)):
                        p = rng.permutation(len(X[j])) if name[0:2] != "re" \
                            else np.arange(len(X[j]))[::-1]
                        X[j], Y[j] = rows(X[j], p), rows(Y[j], p)
                    compare(name, "all", [X, Y] + args[2:], kw)
                else:
                    n = len(args[0])
                    p = rng.permutation(n) if name[:2] != "re" else \
                        np.arange(n)[::-1]
                    k = {a: rows(v, p) if a == "sample_weight" and
                         v is not None else v for a, v in kw.items()}
                    compare(name, "all", [rows(v, p) for v in args], k)
        # other containers and types
        todo = []
        for j, v in enumerate(args):
            target = j == len(args) - 1
            if kind == "scenario":
                i = int(rng.integers(len(v)))
                for name, u in forms(rng, v[i], target, True, False):
                    todo.append((name, "arg%d" % j, j, [
                        u if q == i else w for q, w in enumerate(v)]))
                continue
            binary = target and np.asarray(v).dtype.kind == "i" and \
                set(np.unique(v)) == {0, 1}
            text = kind in ("binary_cat", "cont_cat", "twod", "sketch")
            for name, u in forms(rng, v, target, binary, text):
                if kind in ("process", "process_sketch", "card") and \
                        j == 0 and name == "category":
                    continue
                if kind == "card" and name in ("bool target",
                                               "float target"):
                    continue            # names of the estimator's classes
                todo.append((name, "arg%d%s" % (j, getattr(
                    np.asarray(v), "dtype", "")), j, u))
        for i in rng.permutation(len(todo))[:5]:
            name, label, j, u = todo[i]
            compare(name, label, [u if q == j else v
                                  for q, v in enumerate(args)], kw)
    return f


# ------------------------------------------------------------------ units
def scaled(rng, mon):
    """A numerical variable in another unit (a power of two): the same
    partition; a continuous target in another unit: the same bins."""
    kind = str(rng.choice(["binary_num", "cont_num", "multi"]))
    m = zoo.ALL[kind](rng)
    exact(m)
    kw = m.kw
    if kw.get("split_digits") is not None:
        kw.pop("split_digits")
    x, y = m.a["args"][:2]
    x = np.asarray(x, float)
    f = np.abs(x[np.isfinite(x) & (x != 0)])
    if not len(f) or f.min() < 1e-3 or np.diff(
            np.unique(x[np.isfinite(x)])).min(initial=1.) < 1e-3:
        # (trees do not separate values closer than 1e-7)
        mon.seen("fine grained")
        return
    m.a = dict(m.a, args=(x, y) + tuple(m.a["args"][2:]))
    o, ref, err = attempt(m, m.a)
    if err is not None:
        mon.seen("no model")
        return
    c = float(2. ** rng.integers(-4, 8))
    s = 2. ** float(rng.integers(-3, 6)) if kind == "cont_num" and \
        kw.get("min_mean_diff", 0) == 0 and rng.random() < .6 else 1.
    if c == 1 and s == 1:
        return
    keep = dict(kw)

    def times(v):
        if isinstance(v, dict):
            return {a: times(b) for a, b in v.items()}
        if isinstance(v, (list, np.ndarray)):
            return type(v)([times(a) for a in v]) if isinstance(
                v, list) else v * c
        return v * c
    for a in ("special_codes", "user_splits"):
        if kw.get(a) is not None:
            try:
                kw[a] = times(kw[a])
            except TypeError:           # codes that are text
                m.kw = keep
                return
    msg = lambda: "times {} (target {}) {}".format(c, s, m.tag)
    n, st, e = attempt(m, dict(m.a, args=(x * c, y * s if s != 1 else y) +
                               tuple(m.a["args"][2:])))
    if not mon.check(e is None, "scaled-failed", lambda: "{!r} {}".format(
            e, msg())):
        return
    mon.seen("scaled")
    mon.seen("scaled target", s != 1)
    mon.sig("scaled", kind, c, s)
    if not mon.check(ref["status"] == st["status"], "scaled-status", lambda:
                     "{}: {} {}".format(msg(), ref["status"], st["status"])):
        return
    a, b = (np.asarray(v["splits"][0], float) for v in (ref, st))
    if not mon.check(len(a) == len(b) and np.allclose(
            a * c, b, rtol=1e-9, atol=0), "scaled-splits", lambda:
            "{}: {} {}".format(msg(), a * c, b)):
        return
    t, u = ref["tables"][0], st["tables"][0]
    for col in t.columns:
        if col == "Bin":
            continue
        p, q = (pd.to_numeric(v[col], errors="coerce").values.astype(float)
                for v in (t, u))
        k = s if col in ("Sum", "Std", "Mean", "Min", "Max", "WoE", "IV") and \
            kind == "cont_num" else 1.
        mon.check(np.allclose(p * k, q, rtol=1e-9, atol=1e-9 * s,
                              equal_nan=True), "scaled-table", lambda:
                  "{}: {} {} {}".format(msg(), col, p * k, q))


# ------------------------------------------------------------------ names
def rename(v):
    """other names in the same order"""
    if isinstance(v, dict):
        return {a: rename(b) for a, b in v.items()}
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = rename(v[i])
        return out if v.dtype == object or v.dtype.kind in "US" else \
            out.astype(v.dtype)
    if isinstance(v, (list, tuple)):
        return type(v)(rename(a) for a in v)
    if isinstance(v, str):
        return "k_" + v
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return 2 * v + 5
    if isinstance(v, (float, np.floating)) and v == v:
        return 2. * v + 5
    return v


def renamed(rng, mon):
    """Categories with other names in the same order, classes with other
    labels in the same order: the same bins."""
    kind = str(rng.choice(["binary_cat", "cont_cat", "multi"]))
    m = zoo.ALL[kind](rng)
    exact(m)
    o, ref, err = attempt(m, m.a)
    if err is not None:
        mon.seen("no model")
        return
    x, y = m.a["args"][:2]
    msg = lambda: "{} {}".format(how, m.tag)
    if kind == "multi":
        how = str(rng.choice(["times", "negative", "floats", "bytes"]))
        y2 = np.asarray(y)
        y2 = dict(times=3 * y2 + 10, negative=y2 - 5, floats=y2 * 2.,
                  bytes=y2.astype(np.uint8))[how]
        x2, kw = x, m.kw
    else:
        how, y2 = "categories", y
        x2 = rename(np.asarray(x))
        kw = dict(m.kw)
        for a in ("special_codes", "user_splits"):
            if kw.get(a) is not None:
                kw[a] = rename(kw[a])
    old, m.kw = m.kw, kw
    n, st, e = attempt(m, dict(m.a, args=(x2, y2) + tuple(m.a["args"][2:])))
    m.kw = old
    if not mon.check(e is None, "renamed-failed", lambda: "{!r} {}".format(
            e, msg())):
        return
    mon.seen("renamed")
    mon.sig("renamed", kind, how, len(ref["splits"][0]))
    if not mon.check(ref["status"] == st["status"], "renamed-status", lambda:
                     "{}: {} {}".format(msg(), ref["status"], st["status"])):
        return
    a, b = ref["splits"][0], st["splits"][0]
    if kind == "multi":
        ok = len(a) == len(b) and np.allclose(a, b)
    else:
        ok = len(a) == len(b) and all(
            item(rename(np.asarray(u, dtype=object))) ==
            item(np.asarray(v, dtype=object)) for u, v in zip(a, b))
    if not mon.check(ok, "renamed-splits", lambda: "{}: {} {}".format(
            msg(), a, b)):
        return
    t, u = ref["tables"][0], st["tables"][0]
    if not mon.check(t.shape == u.shape, "renamed-shape", lambda:
                     "{}: {} {}".format(msg(), t.shape, u.shape)):
        return
    for c, d in zip(t.columns, u.columns):
        if c == "Bin":
            continue
        p, q = (pd.to_numeric(v, errors="coerce").values.astype(float)
                for v in (t[c], u[d]))
        mon.check(np.allclose(p, q, rtol=1e-9, atol=1e-9, equal_nan=True),
                  "renamed-table", lambda: "{}: {} {} {}".format(
                      msg(), c, p, q))
    if kind == "multi":
        w = m.query(rng, o, 25)
        w2 = w
    else:                               # (unseen names are not renamed alike)
        w = (np.asarray(x)[rng.integers(0, len(x), 25)],)
        w2 = tuple(rename(v) for v in w)
    k = m.tkw(rng)
    if k.get("metric") == "bins":
        k = {}
    try:
        r = m.transform(o, w, k)
    except Exception:
        return
    r2 = m.transform(n, w2, k)
    mon.seen("transform")
    mon.check(zoo.same_out(r, r2, 1e-9), "renamed-transform", lambda:
              "{} {}: {} {}".format(msg(), k, r[:9], r2[:9]))


# ----------------------------------------------------------------- origin
def shifted(rng, mon):
    """The origin of a numerical variable: values on a grid that moves by a
    multiple of the grid, splits move with it."""
    kind = str(rng.choice(["binary_num", "cont_num", "multi"]))
    m = zoo.ALL[kind](rng)
    exact(m)
    kw = m.kw
    for a in ("split_digits", "outlier_detector", "outlier_params"):
        kw.pop(a, None)
    if kw.get("user_splits") is None and kw.get("prebinning_method",
                                                "cart") not in ("cart",
                                                                "mdlp"):
        kw["prebinning_method"] = "cart"
    x = np.asarray(m.a["args"][0], float)
    x = np.round(x * 16) / 16
    f = x[np.isfinite(x)]
    codes = kw.get("special_codes")
    flat = []
    for v in (codes.values() if isinstance(codes, dict) else [codes or []]) \
            if not isinstance(codes, np.ndarray) else [codes]:
        flat += list(np.ravel(v))
    if len(f) and np.abs(f).max() > 5e4 or any(
            isinstance(v, str) or v * 16 % 1 for v in flat):
        mon.seen("wide range")
        return
    rest = tuple(m.a["args"][1:])
    o, ref, err = attempt(m, dict(m.a, args=(x,) + rest))
    if err is not None:
        mon.seen("no model")
        return
    c = float(rng.choice([-1, 1]) * rng.integers(1, 1 << int(
        rng.integers(1, 16))))
    c = c + float(rng.integers(16)) / 16

    def plus(v):
        if isinstance(v, dict):
            return {a: plus(b) for a, b in v.items()}
        if isinstance(v, list):
            return [plus(a) for a in v]
        return v + c
    keep = dict(kw)
    for a in ("special_codes", "user_splits"):
        if kw.get(a) is not None:
            kw[a] = plus(kw[a])
    n, st, e = attempt(m, dict(m.a, args=(x + c,) + rest))
    m.kw = keep
    msg = lambda: "plus {} {} {}".format(c, kw, m.tag)
    if not mon.check(e is None, "shifted-failed", lambda: "{!r} {}".format(
            e, msg())):
        return
    mon.seen("shifted")
    mon.sig("shifted", kind, c > 0, kw.get("prebinning_method"),
            len(ref["splits"][0]))
    if not mon.check(ref["status"] == st["status"], "shifted-status", lambda:
                     "{}: {} {}".format(msg(), ref["status"], st["status"])):
        return
    a, b = (np.asarray(v["splits"][0], float) for v in (ref, st))
    if not mon.check(len(a) == len(b) and np.allclose(
            a + c, b, rtol=1e-9, atol=1e-9), "shifted-splits", lambda:
            "{}: {} {}".format(msg(), a + c, b)):
        return
    t, u = ref["tables"][0], st["tables"][0]
    for col in t.columns:
        if col == "Bin":
            continue
        p, q = (pd.to_numeric(v[col], errors="coerce").values.astype(float)
                for v in (t, u))
        mon.check(np.allclose(p, q, rtol=1e-9, atol=1e-9, equal_nan=True),
                  "shifted-table", lambda: "{}: {} {} {}".format(
                      msg(), col, p, q))


# --------------------------------------------------------------- integers
def integers(rng, mon):
    """Small integer types hold the same values as floats, also where sums
    and differences exceed the type."""
    from optbinning import (ContinuousOptimalBinning,
                            ContinuousOptimalBinning2D,
                            ContinuousOptimalPWBinning,
                            MulticlassOptimalBinning, OptimalBinning,
                            OptimalBinning2D, OptimalPWBinning)
    t = str(rng.choice(["int8", "uint8", "int16", "uint16", "int32"]))
    kind = str(rng.choice(["binary", "binary", "cont", "cont", "multi", "pw",
                           "cpw", "twod", "ctwod"]))
    if kind in ("pw", "cpw"):           # (conditioning of the regression)
        t = str(rng.choice(["int8", "uint8"]))
    lo, hi = np.iinfo(t).min, np.iinfo(t).max
    lo, hi = max(lo, -10 ** 6), min(hi, 10 ** 6)
    n = int(rng.integers(60, 400))

    def values(n):
        v = rng.beta(*rng.choice([.5, 1, 2], 2), n)
        if rng.random() < .5:
            v = np.round(v * 12) / 12
        return np.rint(lo + v * (hi - lo)).astype(t)

    x, x2 = values(n), values(n)
    u = (x.astype(float) - lo) / (hi - lo)
    y = (rng.random(n) < .15 + .7 * u).astype(t)
    if kind in ("cont", "cpw", "ctwod"):
        y = np.rint(lo + (hi - lo) * np.clip(
            u * .7 + .2 * rng.normal(size=n), 0, 1)).astype(t)
    elif kind == "multi":
        y = np.digitize(u + .2 * rng.normal(size=n), [.3, .7]).astype(t)
    kw = {}
    if kind not in ("twod", "ctwod"):
        if rng.random() < .5:
            kw["outlier_detector"] = str(rng.choice(["range", "zscore"]))
            if kw["outlier_detector"] == "range":
                kw["outlier_params"] = dict(
                    method=str(rng.choice(["HDI", "HDI", "ETI"])),
                    interval_length=float(rng.choice([.3, .5, .8])),
                    k=float(rng.choice([0, .5, 1.5])))
            if kind in ("cont", "cpw") and rng.random() < .4:
                kw["outlier_params"] = dict(
                    outlier_detector=kw["outlier_detector"])
                kw["outlier_detector"] = "yquantile"
        if rng.random() < .4:
            kw["special_codes"] = [int(v) for v in rng.choice(x, 2)]
    if kind not in ("pw", "cpw", "twod", "ctwod"):
        kw["prebinning_method"] = str(rng.choice(
            ["cart", "quantile", "uniform"] +
            ["mdlp"] * (kind == "binary")))
    elif kind in ("pw", "cpw"):
        kw["prebinning_method"] = str(rng.choice(
            ["cart", "quantile", "uniform"]))
        kw["degree"] = int(rng.integers(0, 3))
        kw["continuous"] = bool(kw["degree"])
    cls = dict(binary=OptimalBinning, cont=ContinuousOptimalBinning,
               multi=MulticlassOptimalBinning, pw=OptimalPWBinning,
               cpw=ContinuousOptimalPWBinning, twod=OptimalBinning2D,
               ctwod=ContinuousOptimalBinning2D)[kind]
    two = kind in ("twod", "ctwod")
    which = int(rng.integers(3))        # variable, target or both

    def fit(x, x2, y):
        o = cls(**kw).fit(*([x, x2] if two else [x]), y)
        s = o.splits if two else (o.splits,)
        o.binning_table.build()
        b = o.binning_table.build()
        b = b[[c for c in b if c not in ("c0", "c1", "c2")]]
        return o, dict(status=o.status, tables=[b], splits=[
            list(np.ravel(np.asarray(v, dtype=float))) for v in s])

    f, msg = float, lambda: "{} {} {} {} which={}".format(
        kind, t, kw, (lo, hi), which)
    try:
        o, a = fit(x.astype(f), x2.astype(f), y.astype(f) if kind in (
            "cont", "cpw", "ctwod") else y.astype(np.int64))
    except Exception:
        mon.seen("no model")
        return
    xi = [x, x.astype(f), x][which]
    x2i = [x2, x2.astype(f), x2][which]
    yi = [y.astype(f) if kind in ("cont", "cpw", "ctwod") else
          y.astype(np.int64), y, y][which]
    try:
        p, b = fit(xi, x2i, yi)
    except Exception as e:
        mon.check(False, "integers-failed", lambda: "{!r} {}".format(
            e, msg()))
        return
    mon.seen("compared")
    mon.seen("narrow integers", t in ("int8", "uint8"))
    mon.sig("integers", kind, t, which, kw.get("outlier_detector"),
            kw.get("prebinning_method"))
    tol = 1e-3 if kind in ("pw", "cpw") else 1e-9
    if not same(mon, a, b, "integers", msg, tol) or kind in ("pw", "cpw"):
        return                          # (W01: the curve is the one shown)
    q = values(40)
    args = [(q, values(40)[::-1])] if two else [(q,)]
    for v in args:
        r = o.transform(*[w.astype(f) for w in v])
        w = p.transform(*v)
        mon.seen("transform")
        mon.check(zoo.same_out(r, w, tol), "integers-transform", lambda:
                  "{}: {} vs {}".format(msg(), r[:9], w[:9]))


FAMILIES = {k: (run(k), n, 15 * n) for k, n in dict(
    binary_num=160, binary_cat=120, cont_num=90, cont_cat=90, multi=50,
    scenario=40, piecewise=50, twod=60, mdlp=20, process=40, card=20,
    sketch=40, process_sketch=20).items()}
FAMILIES["integers"] = (integers, 300, 6000)
FAMILIES["scaled"] = (scaled, 500, 6000)
FAMILIES["renamed"] = (renamed, 250, 4000)
FAMILIES["shifted"] = (shifted, 300, 5000)
