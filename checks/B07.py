"""B07: fitting is independent of history and modifies nothing it was given."""
import copy

import numpy as np
import pandas as pd
from sklearn.base import clone

from vlib import zoo

PROP = "B07"
RULE = ("a history counts when at least one other operation preceded the fit "
        "that is compared with a fresh one; distinct = (estimator, sequence "
        "of operations, outcome)")
ASSUMPTIONS = ["deterministic solvers (single-threaded CP-SAT, no time "
               "limits)",
               "sketches have no fit; their histories are judged by S02"]
REQUIRED = {"histories": 300, "compared": 280, "op fit": 150, "op failing": 80,
            "op transform": 90, "op report": 100, "op refit": 60,
            "op params": 50, "op clone": 40, "op query": 90,
            "params kept": 300, "input kept": 1000, "transform compared": 250,
            "same exception": 3, "readonly": 40, "concurrent": 150,
            "overlapping": 150, "series": 40}


def wrap(rng, mon, data):
    """Other containers of the same data, equal for the library."""
    r = rng.random()
    args = list(data["args"])
    if r < .25:
        out = []
        for v in args:
            if isinstance(v, np.ndarray):
                v = v.copy()
                v.flags.writeable = False
            out.append(v)
        mon.seen("readonly")
        return dict(data, args=tuple(out))
    return data


def history(rng, mon, m, o, ops):
    """One random earlier operation."""
    k = str(rng.choice(["fit", "fit", "refit", "failing", "transform",
                        "query", "report", "params", "clone"]))
    fitted = getattr(o, "_zoo_fitted", False)
    if k in ("transform", "query", "report") and not fitted:
        k = "fit"
    if not m.has_transform and k in ("transform", "query"):
        k = "report"
    mon.seen("op " + k)
    ops.append(k)
    if k in ("fit", "refit"):
        try:
            m.fit(o, m.b if k == "fit" else m.a)
            o._zoo_fitted = True
        except Exception:
            o._zoo_fitted = False
            ops[-1] = k + "!"
    elif k == "failing":
        bad = m.failing(rng)
        try:
            zoo.quiet(o.fit, *bad)
        except Exception:
            pass
        o._zoo_fitted = False
    elif k in ("transform", "query"):
        t = m.tkw(rng)
        q = m.train() if k == "transform" else m.query(
            rng, o, int(rng.integers(1, 40)))
        try:
            m.transform(o, q, t)
        except Exception:
            ops[-1] = k + "!"           # judged by B06
    elif k == "report":
        try:
            m.report(rng, o)
        except Exception:
            ops[-1] = k + "!"           # judged by R02
    elif k == "params":
        p = o.get_params(deep=False)
        names = [n for n in p if n not in ("binning_process", "estimator")]
        n = names[rng.integers(len(names))]
        old = p[n]
        tmp = {"max_n_bins": 2, "max_n_prebins": 3, "special_codes": [1.],
               "user_splits": [0., 1.], "name": "other", "gamma": .5}
        alt = [a for a in tmp if a in p]
        if alt and rng.random() < .7:       # fit with other parameters
            n = alt[rng.integers(len(alt))]
            old = p[n]
            o.set_params(**{n: tmp[n]})
            try:
                m.fit(o, m.b)
            except Exception:
                pass
            o._zoo_fitted = False
        o.set_params(**{n: old})
    else:
        c = clone(o, safe=False)
        mon.check(zoo.deep_equal(c.get_params(deep=True),
                                 o.get_params(deep=True)), "clone-params",
                  lambda: (m.tag, c.get_params(), o.get_params()))
        if rng.random() < .5:
            return c
    return o


def outcome(m, o, data):
    try:
        m.fit(o, data)
        return None
    except Exception as e:
        return type(e).__name__ + ": " + str(e)[:200]


def direct(m, kw):
    """An object built from the given (not copied) parameters."""
    if isinstance(m, zoo.Card):
        o = m.new()
        return o
    return m.cls(**kw)


def run(kind):
    def f(rng, mon):
        m = zoo.ALL[kind](rng)
        mon.sample(m.tag)
        given = copy.deepcopy(m.kw)
        o = direct(m, given)
        params = copy.deepcopy(o.get_params(deep=True))
        keep_a, keep_b = copy.deepcopy(m.a), copy.deepcopy(m.b)
        ops = []
        for _ in range(int(rng.integers(1, 6))):
            o = history(rng, mon, m, o, ops)
        tag = lambda: "{} after {}".format(m.tag, ops)
        mon.seen("histories")
        data = wrap(rng, mon, m.a)
        if rng.random() < .2 and len(m.a["args"]) == 2 and all(
                isinstance(v, np.ndarray) for v in m.a["args"]) and \
                getattr(m.a["args"][0], "ndim", 0) == 1:
            data = dict(m.a, args=tuple(pd.Series(v) for v in m.a["args"]))
            mon.seen("series")
        r = outcome(m, o, data)
        fresh = m.new()
        e = outcome(m, fresh, m.a)
        mon.sig(type(m).__name__, "-".join(ops), e is None)
        mon.seen("params kept")
        mon.check(zoo.deep_equal(params, o.get_params(deep=True)),
                  "params-changed", lambda: "{}: {}".format(tag(), [
                      (k, v, o.get_params(deep=True).get(k))
                      for k, v in params.items() if not zoo.deep_equal(
                          v, o.get_params(deep=True).get(k))]))
        mon.check(zoo.deep_equal(given, m.kw), "arguments-changed", lambda:
                  "{}: constructor arguments {} now {}".format(
                      tag(), m.kw, given))
        for a, b, nm in ((m.a, keep_a, "A"), (m.b, keep_b, "B")):
            mon.seen("input kept")
            mon.check(zoo.deep_equal(a, b), "input-changed", lambda:
                      "{}: data set {} was modified".format(tag(), nm))
        if r is not None or e is not None:
            mon.seen("same exception", r == e)
            mon.check((r or "").split(":")[0] == (e or "").split(":")[0],
                      "history-exception", lambda:
                      "{}: refit {} fresh {}".format(tag(), r, e))
            return
        mon.seen("compared")
        q = t = qo = None
        if m.has_transform:
            t = m.tkw(rng)
            q = m.query(rng, fresh, 40)
            a = m.transform(o, q, t)
            b = m.transform(fresh, q, t)
            mon.seen("transform compared")
            mon.check(zoo.same_out(a, b, m.tol), "history-transform", lambda:
                      "{} {}: {} fresh {}".format(tag(), t, list(a), list(b)))
        if not zoo.same_state(mon, zoo.state(m, o), zoo.state(m, fresh),
                              "history", tag):
            return
        # reporting and transforming neither change model nor parameters
        if rng.random() < .5:
            for _ in range(2):
                try:
                    m.report(rng, o)
                except Exception:
                    break
            zoo.same_state(mon, zoo.state(m, o), zoo.state(m, fresh),
                           "report-changes-model", tag)
            mon.check(zoo.deep_equal(params, o.get_params(deep=True)),
                      "report-params-changed", tag)
            if m.has_transform:
                c = m.transform(o, q, t)
                mon.check(zoo.same_out(c, a), "report-changes-transform", tag)
        # twice the same
        if rng.random() < .4:
            m.fit(o, m.a)
            zoo.same_state(mon, zoo.state(m, o), zoo.state(m, fresh),
                           "refit", tag)
        mon.check(zoo.deep_equal(m.a, keep_a), "input-changed", lambda:
                  "{}: data set A was modified".format(tag()))
    return f


def concurrent(rng, mon):
    """Different objects fitted by several threads at the same time."""
    kinds = [k for k in zoo.ALL if k not in (
        "piecewise", "sketch", "process_sketch")]
    ms, refs = [], []
    for k in rng.choice(kinds, int(rng.integers(3, 7))):
        m = zoo.ALL[str(k)](rng)
        try:
            refs.append(zoo.state(m, m.fitted()))
        except Exception:
            mon.seen("rejected")
            continue
        ms.append((str(k), m))
    jobs = [lambda m=m: m.fitted() for _, m in ms]
    if len(jobs) < 2:
        return
    out, log = zoo.threads(rng, jobs, rate=.05)
    mon.seen("concurrent", len(jobs))
    mon.seen("overlapping", len(zoo.overlaps(log)))
    mon.sig("threads", tuple(k for k, _ in ms), tuple(e[0] for e in log))
    for (k, m), ref, (o, err) in zip(ms, refs, out):
        if mon.check(err is None, "concurrent-failed", lambda: "{!r} {}"
                     .format(err, m.tag)):
            zoo.same_state(mon, zoo.state(m, o), ref, "concurrent",
                           lambda: m.tag)


FAMILIES = {k: (run(k), 2 * n, 25 * n) for k, n in dict(
    binary_num=170, binary_cat=130, cont_num=110, cont_cat=90, multi=70,
    scenario=70, piecewise=60, twod=80, mdlp=40, process=60, card=40
).items()}
FAMILIES["concurrent"] = (concurrent, 200, 4000)
