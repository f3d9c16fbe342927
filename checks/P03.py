"""P03: fitting and transforming from files equals doing so in memory."""
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from optbinning import BinningProcess
from vlib import table

PROP = "P03"
RULE = ("a transformation counts when the file was read in at least two "
        "chunks or fitted from disk, and all values were compared")
ASSUMPTIONS = [
    "the in-memory process fitted on the frame pandas reads from the same "
    "file (whole) is the reference; files are written by pandas",
    "with metric 'bins' output strings are compared as text"]
REQUIRED = {"fit csv": 40, "fit parquet": 30, "transform": 250,
            "many chunks": 120, "one chunk": 20, "chunk of one row": 15,
            "existing output": 40, "dotted path": 60, "bins": 20,
            "indices": 20, "own params": 60, "selection": 40,
            "fit_transform_disk": 20, "sorted by category": 30,
            "repeat": 40}


def _quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def _read(path):
    return pd.read_csv(path, float_precision="round_trip", dtype=str,
                       keep_default_na=False)


def _cells(df, bins):
    """Everything as text in memory order, for comparison."""
    out = {}
    for c in df.columns:
        out[c] = [str(v) for v in df[c]] if bins else \
            np.asarray(df[c], dtype=float)
    return out


def base(rng, mon):
    tmp = tempfile.mkdtemp(prefix="verif_p03_")
    try:
        _base(rng, mon, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _base(rng, mon, tmp):
    d = table.make(rng, nmax=200, nvar=int(rng.integers(1, 5)))
    sub = tmp
    if rng.random() < .3:
        sub = os.path.join(tmp, "run.v1.2", "d")
        os.makedirs(sub)
        mon.seen("dotted path")
    stem = str(rng.choice(["data", "my.data", "d.2024.01"]))
    df = d["df"].copy()
    df["extra"] = rng.normal(size=len(df))
    df["target"] = d["y"]
    if rng.random() < .5:
        # sorted by one column: chunks hold few different values
        c = str(rng.choice(d["names"]))
        df = df.iloc[np.argsort(df[c].astype(str).values, kind="stable")]
        mon.seen("sorted by category", d["kinds"][d["names"].index(c)]
                 != "num")
    df = df[list(rng.permutation(df.columns))]
    csv = os.path.join(sub, stem + ".csv")
    df.to_csv(csv, index=False)
    mem = pd.read_csv(csv)                     # what reading into memory gives
    g, per = table.transform_params(rng, d)
    kw = dict(d["kw"])
    if per is not None:
        kw["binning_transform_params"] = per
        mon.seen("own params")
    if rng.random() < .35 and len(d["names"]) > 1:
        m = "quality_score"
        kw["selection_criteria"] = {m: {"strategy": "highest", "top": int(
            rng.integers(1, len(d["names"])))}}
        mon.seen("selection")
    if rng.random() < .15:
        kw["fixed_variables"] = [str(rng.choice(d["names"]))]
    names = list(d["names"])
    try:
        ref = _quiet(BinningProcess(**kw).fit, mem[names],
                     mem["target"].values)
    except Exception:
        mon.seen("skipped")
        return
    try:
        exp = _quiet(ref.transform, mem[names], **g)
    except Exception:
        mon.seen("skipped")
        return
    bp = BinningProcess(**kw)
    how = str(rng.choice(["csv", "parquet", "memory"], p=[.4, .4, .2]))
    chunk = int(rng.choice([1, 2, 7, 25, 50, len(df) - 1, len(df),
                            len(df) + 5]))
    out = os.path.join(sub, str(rng.choice(["out", "o.ut"])) + ".csv")
    if rng.random() < .35:
        with open(out, "w") as f:
            f.write("old\n1\n2\n")
        mon.seen("existing output")
    one_go = how == "csv" and rng.random() < .4
    if how == "csv":
        mon.seen("fit csv")
        if one_go:
            mon.seen("fit_transform_disk")
            r = _quiet(bp.fit_transform_disk, csv, out, "target", chunk, **g)
            mon.check(r is bp, "fit_transform_disk-returns-self", type(r))
        else:
            _quiet(bp.fit_disk, csv, "target")
    elif how == "parquet":
        mon.seen("fit parquet")
        pq = os.path.join(sub, stem + ".parquet")
        mem.to_parquet(pq)
        _quiet(bp.fit_disk, pq, "target")
    else:
        _quiet(bp.fit, mem[names], mem["target"].values)
    for n in names:
        a, b = bp.get_binned_variable(n), ref.get_binned_variable(n)
        mon.check(a.status == b.status, "fit-status", n)
        if mon.check(table.same_splits(a.splits, b.splits), "fit-splits",
                     lambda: (n, how, a.splits, b.splits)):
            table.same_table(mon, a.binning_table.build(),
                             b.binning_table.build(), "fit-table", n)
    mon.check(np.array_equal(bp.get_support(), ref.get_support()),
              "selection", lambda: (bp.get_support(), ref.get_support()))
    table.same_table(mon, bp.summary(), ref.summary(), "summary", how)
    before = open(csv, "rb").read()
    if not one_go:
        r = _quiet(bp.transform_disk, csv, out, chunk, **g)
        mon.check(r is bp, "transform_disk-returns-self", type(r))
    _compare(mon, out, exp, d, per, g, chunk, len(df))
    if rng.random() < .4:                       # other chunks, same file
        chunk = int(rng.integers(1, len(df) + 3))
        mon.seen("repeat")
        _quiet(bp.transform_disk, csv, out, chunk, **g)
        _compare(mon, out, exp, d, per, g, chunk, len(df))
    mon.check(open(csv, "rb").read() == before, "input-file-modified", "")
    mon.sample("{} rows, {} variables, fit from {}, chunk {}, metric {}"
               .format(len(df), len(names), how, chunk, g["metric"]))
    mon.sig(how, d["ttype"], chunk, g["metric"], len(names),
            tuple(sorted(kw)))


def _compare(mon, out, exp, d, per, g, chunk, n):
    mon.seen("transform")
    mon.seen("many chunks", chunk < n)
    mon.seen("one chunk", chunk >= n)
    mon.seen("chunk of one row", chunk == 1)
    got = _read(out)
    if not mon.check(list(got.columns) == list(exp.columns), "columns",
                     lambda: (list(got.columns), list(exp.columns))):
        return
    if not mon.check(len(got) == n, "rows", lambda: "{} rows written for {} "
                     "(chunk {})".format(len(got), n, chunk)):
        return
    bins = exp.shape[1] and exp.dtypes.iloc[0] == object
    mon.seen("bins", bins)
    mon.seen("indices", exp.shape[1] > 0 and exp.dtypes.iloc[0].kind == "i")
    for c in exp.columns:
        if bins:
            ok = list(got[c]) == [str(v) for v in exp[c]]
            bad = [i for i, (u, v) in enumerate(zip(got[c], exp[c]))
                   if u != str(v)][:5]
        else:
            a = np.array([float(v) if v != "" else np.nan for v in got[c]])
            b = exp[c].values.astype(float)
            eq = np.isclose(a, b, rtol=1e-12, atol=0, equal_nan=True)
            ok, bad = eq.all(), np.flatnonzero(~eq)[:5]
        mon.check(ok, "values", lambda: "{} chunk {} of {} rows {} {}: rows {} "
                  "{} vs {}".format(c, chunk, n, g, (per or {}).get(c), bad,
                                    got[c].values[bad], exp[c].values[bad]))


FAMILIES = {"base": (base, 540, 6000)}
