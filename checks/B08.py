"""B08: a saved and loaded model is equivalent to the original."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from optbinning import (BinningProcess, BinningProcessSketch,
                        ContinuousOptimalBinning, MulticlassOptimalBinning,
                        OptimalBinning, Scorecard)
from vlib import zoo

PROP = "B08"
RULE = ("a round trip counts when the model was fitted; distinct = "
        "(estimator, way of saving, what happened before, status, kind)")
ASSUMPTIONS = ["to_json/read_json are those of the binary, continuous and "
               "multiclass optimal binning (the inherited methods of "
               "scenario and 2D binnings are not offered)",
               "categories and codes of JSON exports are strings and numbers "
               "(what JSON can represent); labels are compared up to the way "
               "numpy prints a string",
               "reports of the solver run (information) are not part of a "
               "JSON export"]
REQUIRED = {"round trips": 700, "pickle": 150, "deepcopy": 80, "json": 150,
            "save": 60, "json categorical": 60, "json multiclass": 10,
            "json continuous": 40, "transform compared": 1200,
            "original kept": 500, "loaded twice": 100, "into used": 40,
            "queries after": 300, "json user splits": 20,
            "json specials": 60, "json others": 10, "refitted": 100}
PLAIN = {zoo.Binary: OptimalBinning, zoo.Continuous: ContinuousOptimalBinning,
         zoo.Multi: MulticlassOptimalBinning}


def trip(rng, mon, m, o, way, folder):
    mon.seen(way)
    mon.seen("round trips")
    if way == "deepcopy":
        return copy.deepcopy(o)
    if way == "pickle":
        return pickle.loads(pickle.dumps(o, int(rng.integers(
            2, pickle.HIGHEST_PROTOCOL + 1))))
    path = os.path.join(folder, "m%d" % rng.integers(10 ** 9))
    if way == "save":
        zoo.quiet(o.save, path)
        return {zoo.Process: BinningProcess, zoo.Card: Scorecard,
                zoo.ProcessSketch: BinningProcessSketch}[type(m)].load(path)
    o.to_json(path)
    cls = PLAIN[type(m)]
    n = cls()
    if rng.random() < .25:            # an object that was used before
        mon.seen("into used")
        n = cls(name="x", max_n_prebins=5)
        x = rng.normal(size=60)
        y = {zoo.Continuous: rng.normal(size=60)}.get(
            type(m), rng.integers(0, 3 if type(m) is zoo.Multi else 2, 60))
        zoo.quiet(n.fit, x, y)
        zoo.quiet(n.binning_table.build)
    n.read_json(path)
    return n


def run(kind):
    def f(rng, mon):
        folder = tempfile.mkdtemp(prefix="b08")
        try:
            case(rng, mon, kind, folder)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    return f


def case(rng, mon, kind, folder):
    m = zoo.ALL[kind](rng)
    if kind in ("binary_cat", "cont_cat") and rng.random() < .3:
        m.kw["cat_unknown"] = .25
    try:
        o = m.fitted()
        fresh = m.fitted()
    except Exception:
        mon.seen("rejected")
        return
    mon.sample(m.tag)
    before = []
    if rng.random() < .5:
        before.append("report")
        try:
            m.report(rng, o)
        except Exception:
            pass
    if m.has_transform and rng.random() < .5:
        before.append("transform")
        try:
            m.transform(o, m.train(), m.tkw(rng))
        except Exception:
            pass
    ref = zoo.state(m, fresh)
    params = copy.deepcopy(o.get_params(deep=True))
    ways = ["pickle", "deepcopy"] + list(m.saves) * 2
    ways = list(rng.permutation(ways)[:int(rng.integers(1, 4))])
    queries = []
    if m.has_transform:
        for _ in range(2):
            q, t = m.query(rng, fresh, int(rng.integers(5, 60))), m.tkw(rng)
            if kind in ("binary_cat", "cont_cat") and "cat_unknown" in m.kw:
                t.pop("metric", None)
            queries.append((q, t, m.transform(fresh, q, t)))
    for way in ways:
        tag = lambda: "{} saved by {} after {}".format(m.tag, way, before)
        key = way
        if way == "json":
            if "user_splits" in m.kw:
                mon.seen("json user splits")
            if m.kw.get("special_codes") is not None:
                mon.seen("json specials")
            if m.kw.get("cat_cutoff"):
                mon.seen("json others")
            mon.seen("json " + {"binary_num": "numerical", "cont_num":
                                "continuous", "cont_cat": "categorical",
                                "binary_cat": "categorical",
                                "multi": "multiclass"}[kind])
        c = trip(rng, mon, m, o, way, folder)
        mon.sig(kind, way, "-".join(before), str(ref["status"])[:30],
                m.tag.split("{")[0])
        if rng.random() < .3:         # the copy of the copy
            mon.seen("loaded twice")
            c = trip(rng, mon, m, c, way, folder)
        for q, t, e in queries:
            mon.seen("transform compared")
            r = m.transform(c, q, t)
            mon.check(zoo.same_out(r, e, m.tol), key + "-transform", lambda:
                      "{} {}: {} gives {} expected {}".format(
                          tag(), t, [list(np.asarray(v)) for v in q],
                          list(r), list(e)))
        zoo.same_state(mon, zoo.state(m, c), ref, key, tag)
        if way != "json":
            mon.check(zoo.deep_equal(c.get_params(deep=True), params),
                      key + "-params", tag)
        # both go separate ways
        if rng.random() < .4 and way != "json":
            try:
                m.fit(c, m.b)
                mon.seen("refitted")
            except Exception:
                pass
        # saving does not alter the model
        mon.seen("original kept")
        zoo.same_state(mon, zoo.state(m, o), ref, key + "-original", tag)
        mon.check(zoo.deep_equal(o.get_params(deep=True), params),
                  key + "-original-params", tag)
        for q, t, e in queries:
            mon.seen("queries after")
            mon.check(zoo.same_out(m.transform(o, q, t), e, m.tol),
                      key + "-original-transform", tag)


FAMILIES = {k: (run(k), 2 * n, 25 * n) for k, n in dict(
    binary_num=110, binary_cat=110, cont_num=80, cont_cat=80, multi=60,
    scenario=30, piecewise=30, twod=40, mdlp=20, process=50, card=40,
    sketch=40, process_sketch=30).items()}
