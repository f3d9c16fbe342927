"""B06: transform is a pure record-wise function of value and model."""
import copy

import numpy as np
import pandas as pd

from vlib import zoo

PROP = "B06"
RULE = ("a transform counts when the query has records of at least two "
        "distinct outputs or kinds; distinct = (estimator, configuration "
        "style, metric, treatment of special and missing, relation checked)")
ASSUMPTIONS = ["values of a numeric variable are passed as numbers, a list "
               "only where it does not change the type of the values",
               "scorecard outputs agree up to floating-point summation order"]
REQUIRED = {"transforms": 6000, "permuted": 700, "subset": 700,
            "repeated": 700, "concatenated": 700, "single": 2000,
            "container": 500, "stratum": 700, "state": 300,
            "fit_transform": 250, "input kept": 3000, "empty": 100,
            "concurrent": 400, "overlapping": 400}


def containers(rng, q):
    """The same values in other containers -> (name, query)"""
    n = zoo.size(q)
    k = int(rng.integers(6))
    if isinstance(q[0], pd.DataFrame):
        df = q[0]
        if k < 2:
            return "columns reordered", (df[list(df.columns)[::-1]],)
        if k == 2:
            return "extra column", (df.assign(zzz=np.arange(n)),)
        if k == 3:
            df = df.copy()
            df.index = rng.permutation(n) * 3 - 5
            return "index", (df,)
        if k == 4:
            df = df.copy()
            df.index = ["same"] * n
            return "duplicate index", (df,)
        return "copy", (df.copy(),)
    if k == 0:
        return "series", tuple(pd.Series(v, index=rng.permutation(n) * 2 - 7)
                               for v in q)
    if k == 1:
        return "duplicate index", tuple(pd.Series(v, index=[0] * n)
                                        for v in q)
    if k == 2:
        out = []
        for v in q:
            w = np.empty(2 * n, dtype=v.dtype)
            w[::2] = v
            w[1::2] = v[::-1]
            out.append(w[::2])
        return "strided view", tuple(out)
    if k == 3:
        return "fortran column", tuple(
            np.asfortranarray(np.stack([v, v[::-1]], axis=1))[:, 0]
            for v in q)
    if k == 4:
        out = []
        for v in q:
            v = v.copy()
            v.flags.writeable = False
            out.append(v)
        return "read-only", tuple(out)
    return "reversed view", tuple(v[::-1].copy()[::-1] for v in q)


def relations(rng, mon, m, o, q, t):
    n = zoo.size(q)
    tag = lambda: "{} transform {}".format(m.tag, t)

    def T(query, name):
        keep = copy.deepcopy(query)
        r = m.transform(o, query, t)
        mon.seen("transforms")
        mon.seen("input kept")
        mon.check(all(map(zoo.deep_equal, query, keep)), "input-modified",
                  lambda: tag() + " changed its input ({})".format(name))
        return r

    base = T(q, "base")
    if not mon.check(len(base) == n, "length", lambda: (tag(), base.shape, n)):
        return

    def rel(name, query, expect):
        mon.seen(name)
        r = T(query, name)
        mon.check(zoo.same_out(r, expect), "recordwise-" + name, lambda:
                  "{}: {} input {} gives {} expected {}".format(
                      tag(), name, [list(np.asarray(v)) for v in query],
                      list(r), list(expect)))

    if base.ndim > 1 or base.dtype == object or len(set(map(str, base))) > 1:
        mon.sig(type(m).__name__, m.tag.split("{")[0], str(t.get("metric")),
                str(t.get("metric_special")), str(t.get("metric_missing")))
    rel("again", q, base)
    p = rng.permutation(n)
    rel("permuted", zoo.take(q, p), base[p])
    s = np.flatnonzero(rng.random(n) < rng.choice([.1, .5, .9]))
    if len(s):
        rel("subset", zoo.take(q, s), base[s])
    r = rng.integers(0, n, int(rng.integers(1, 2 * n)))
    rel("repeated", zoo.take(q, r), base[r])
    for i in rng.choice(n, min(n, 4), replace=False):
        rel("single", zoo.take(q, [i]), base[[i]])
    tr = m.train()
    b = rng.integers(0, zoo.size(tr), int(rng.integers(1, 30)))
    extra = zoo.take(tuple(v if isinstance(v, pd.DataFrame) else np.asarray(v)
                           for v in tr), b)
    eb = T(extra, "training")
    if isinstance(q[0], pd.DataFrame):
        both = (pd.concat([q[0], extra[0]]),)
    else:
        both = tuple(np.concatenate([u, v]) for u, v in zip(q, extra))
    rel("concatenated", both, np.concatenate([base, eb]))
    # records of one kind only
    if not isinstance(q[0], pd.DataFrame):
        miss = np.zeros(n, bool)
        for v in q:
            miss |= pd.isnull(v)
        for msk in (miss, ~miss):
            if msk.any() and not msk.all():
                j = np.flatnonzero(msk)
                rel("stratum", zoo.take(q, j), base[j])
        if len(q) == 1 and len(m.codes):
            sp = pd.Series(q[0]).isin(list(m.codes)).values
            for msk in (sp, ~sp & ~miss):
                if msk.any():
                    j = np.flatnonzero(msk)
                    rel("stratum", zoo.take(q, j), base[j])
    name, c = containers(rng, q)
    rel("container", c, base)
    if rng.random() < .3 and not isinstance(m, zoo.Card):
        rel("empty", zoo.take(q, []), base[:0])
    return base


def run(kind):
    def f(rng, mon):
        m = zoo.ALL[kind](rng)
        try:
            o = m.fitted()
            ref = zoo.state(m, copy.deepcopy(o))
        except Exception:
            mon.seen("rejected")       # judged by the other properties
            return
        mon.sample(m.tag)
        for _ in range(2):
            q = m.query(rng, o, int(rng.integers(8, 50)))
            relations(rng, mon, m, o, q, m.tkw(rng))
        mon.seen("state")
        zoo.same_state(mon, zoo.state(m, o), ref, "transform-changes-model",
                       lambda: m.tag)
        if m.fit_transform is None:
            return
        t = m.tkw(rng)
        mon.seen("fit_transform")
        keep = copy.deepcopy(m.a)
        try:
            ref = m.fitted_for(t)
        except Exception:
            mon.seen("rejected")
            return
        r = m.fit_transform(m.new(), m.a, t)
        e = m.transform(ref, m.train(), t)
        mon.check(zoo.same_out(r, e, m.tol), "fit_transform", lambda:
                  "{} {}: {} expected {}".format(m.tag, t, list(r), list(e)))
        mon.check(zoo.deep_equal(keep, m.a), "fit_transform-modifies-input",
                  lambda: m.tag)
    return f


def concurrent(rng, mon):
    """Several threads transform with (and build tables of) one model."""
    kind = str(rng.choice([k for k in zoo.ALL if k != "mdlp"]))
    m = zoo.ALL[kind](rng)
    try:
        o = m.fitted()
        ref = zoo.state(m, copy.deepcopy(o))
    except Exception:
        mon.seen("rejected")
        return
    jobs, names, expect = [], [], []
    for _ in range(int(rng.integers(4, 9))):
        q, t = m.query(rng, o, int(rng.integers(5, 60))), m.tkw(rng)
        try:
            e = m.transform(o, q, t)
        except Exception:
            mon.seen("rejected")
            continue
        jobs.append(lambda q=q, t=t: m.transform(o, q, t))
        names.append(t)
        expect.append(e)
    n = len(jobs)
    if kind != "card" and rng.random() < .5:
        # (the table of a fitted object may be asked for while it transforms)
        for _ in range(2):
            jobs.append(lambda: m.tables(o))
    order = rng.permutation(len(jobs))
    out, log = zoo.threads(rng, [jobs[i] for i in order])
    mon.seen("concurrent", n)
    mon.seen("overlapping", len(zoo.overlaps(log)))
    mon.sig("threads", kind, tuple(e[0] for e in log))
    for k, i in enumerate(order):
        r, err = out[k]
        if not mon.check(err is None, "concurrent-failed", lambda:
                         "{!r} {}".format(err, m.tag)):
            continue
        if i < n:
            mon.check(zoo.same_out(r, expect[i]), "concurrent", lambda:
                      "{} {}: {} expected {}".format(
                          m.tag, names[i], list(r), list(expect[i])))
    zoo.same_state(mon, zoo.state(m, o), ref, "transform-changes-model",
                   lambda: m.tag)


FAMILIES = {k: (run(k), 4 * n, 25 * n) for k, n in dict(
    binary_num=110, binary_cat=100, cont_num=80, cont_cat=80, multi=50,
    scenario=40, piecewise=35, twod=45, process=30, card=20, sketch=45,
    process_sketch=20).items()}
FAMILIES["concurrent"] = (concurrent, 400, 8000)
