"""S01: quantile sketches keep count, rank error, extremes and independence
over every history of insertions, queries and merges."""
import numpy as np

from optbinning.binning.distributed.bsketch import BSketch
from optbinning.binning.distributed.gk import GK

PROP = "S01"
RULE = ("a query counts when the sketch holds compressed entries (2 eps n > 2) "
        "or was produced by a merge; distinct = (eps, log2 n, order of the "
        "stream, kind of history)")
ASSUMPTIONS = ["rank error is measured against the interval of ranks the "
               "reported value takes in the sorted stream, with one record of "
               "slack for the rounding of ranks",
               "the t-digest (third party) gives no error bound: only counts "
               "are judged for it"]
REQUIRED = {"quantiles": 20000, "merged quantiles": 8000, "compressed": 8000,
            "merges": 400, "tree merges": 100, "empty merges": 20,
            "bins": 1500, "independent": 300, "tdigest": 10,
            "add after merge": 80}

EPS = [.3, .2, .1, .05, .03, .02, .01, .005, .001, 1e-4]
ORDERS = ["random", "sorted", "reversed", "ties", "few", "organ", "blocks",
          "huge", "int", "const", "alternate"]


def stream(rng, n, order=None):
    order = order or str(rng.choice(ORDERS))
    if order == "random":
        v = rng.normal(size=n) * 10.0 ** rng.integers(-3, 5)
    elif order == "sorted":
        v = np.sort(rng.normal(size=n))
    elif order == "reversed":
        v = np.sort(rng.exponential(size=n))[::-1]
    elif order == "ties":
        v = rng.integers(0, max(2, n // 8), n).astype(float)
    elif order == "few":
        v = rng.choice(rng.normal(size=3), n)
    elif order == "organ":
        v = np.concatenate([np.arange((n + 1) // 2),
                            np.arange(n // 2)[::-1]]).astype(float)
    elif order == "blocks":
        v = np.repeat(rng.permutation(np.arange(n // 10 + 1)), 10)[:n] * 1.0
    elif order == "huge":
        v = rng.choice([-1, 1], n) * 10.0 ** rng.uniform(-8, 12, n)
    elif order == "int":
        v = rng.integers(-10**6, 10**6, n)
    elif order == "const":
        v = np.full(n, 3.5)
    else:
        a = np.sort(rng.normal(size=n))
        v = np.empty(n)
        v[::2], v[1::2] = a[:(n + 1) // 2], a[(n + 1) // 2:][::-1]
    return v, order


def size(rng):
    return int(10 ** rng.uniform(0, 3.3))


QS = np.concatenate([[0, 1], np.linspace(0, 1, 23)[1:-1]])


def judge(mon, g, data, eps, tag, merged=False, qs=QS, order=""):
    """All observable guarantees of one sketch against its whole stream."""
    n = len(data)
    mon.check(g.n == n, "count" + tag, lambda: "n={} true {}".format(g.n, n))
    if not n:
        return
    s = np.sort(np.asarray(data, dtype=float))
    prev = -np.inf
    for q in qs:
        v = g.quantile(q)
        lo, hi = np.searchsorted(s, v, "left"), np.searchsorted(s, v, "right")
        r = q * (n - 1) + 1
        err = max(0, lo + 1 - r, r - hi)
        mon.check(hi > lo, "not a value of the stream" + tag,
                  lambda: "q={} v={}".format(q, v))
        mon.check(err <= eps * n + 1, "rank error" + tag,
                  lambda: "eps={} n={} q={} v={} ranks [{}, {}] wanted {:.1f} "
                  "order {}".format(eps, n, q, v, lo + 1, hi, r, order))
        mon.seen("quantiles")
        if merged:
            mon.seen("merged quantiles")
        if 2 * eps * (n - 1) >= 2:
            mon.seen("compressed")
    qq = np.sort(qs)
    vals = [g.quantile(q) for q in qq]
    mon.check(all(a <= b for a, b in zip(vals, vals[1:])),
              "quantiles not monotone" + tag, vals)
    mon.check(g.quantile(1) == s[-1], "maximum" + tag,
              lambda: "{} true {}".format(g.quantile(1), s[-1]))
    if eps * (n - 1) < 1:
        mon.check(g.quantile(0) == s[0], "minimum" + tag,
                  lambda: "{} true {}".format(g.quantile(0), s[0]))
    if 2 * eps * (n - 1) >= 2 or merged:
        mon.sig(eps, int(np.log2(n)), order, tag)


def snapshot(g):
    if not g.n:
        return (0,)
    return (g.n,) + tuple(g.quantile(q) for q in QS)


def filled(values, eps):
    g = GK(eps)
    for v in values:
        g.add(v)
    return g


def single(rng, mon):
    """One stream, queried at arbitrary points of it."""
    eps = float(rng.choice(EPS)) if rng.random() < .7 else \
        float(rng.uniform(.002, .4))
    v, order = stream(rng, size(rng))
    g = GK(eps)
    cuts = set(rng.integers(0, len(v), rng.integers(0, 6)).tolist())
    for i, a in enumerate(v):
        g.add(a)
        if i in cuts:
            judge(mon, g, v[:i + 1], eps, ":partial", order=order,
                  qs=rng.random(8))
    judge(mon, g, v, eps, ":stream", order=order)
    judge(mon, g, v, eps, ":stream", order=order, qs=rng.random(20))
    if rng.random() < .1:
        for bad in (-.1, 1.0001, 2):
            try:
                g.quantile(bad)
                mon.fail("accepts invalid q", bad)
            except ValueError:
                mon.evals += 1
        try:
            GK(eps).quantile(.5)
            mon.fail("quantile of an empty sketch")
        except ValueError:
            mon.evals += 1


def tree(rng, mon):
    """A stream split over sketches, merged in an arbitrary tree, with
    insertions and queries in between."""
    eps = float(rng.choice(EPS[:-1]))
    v, order = stream(rng, size(rng))
    k = int(rng.integers(2, 9))
    if rng.random() < .5:
        own = np.sort(rng.integers(0, k, len(v)))
    else:
        own = rng.choice(k, len(v), p=rng.dirichlet(np.full(k, .5)))
    nodes = [[filled(v[own == i], eps), list(v[own == i])] for i in range(k)]
    dead = []
    while len(nodes) > 1:
        i, j = rng.choice(len(nodes), 2, replace=False)
        a, b = nodes[i], nodes[j]
        before = snapshot(b[0])
        a[0].merge(b[0])
        a[1] = a[1] + b[1]
        mon.seen("merges")
        if not b[1]:
            mon.seen("empty merges")
        judge(mon, a[0], a[1], eps, ":merge", True, order=order,
              qs=rng.random(6) if len(nodes) > 2 else QS)
        mon.check(snapshot(b[0]) == before, "merged-in sketch changed",
                  lambda: "{} -> {}".format(before, snapshot(b[0])))
        if rng.random() < .4:
            extra, _ = stream(rng, int(rng.integers(1, 200)))
            for e in extra:
                a[0].add(e)
            a[1] = a[1] + list(extra)
            mon.seen("add after merge")
            judge(mon, a[0], a[1], eps, ":add after merge", True,
                  order=order, qs=rng.random(6))
        if rng.random() < .3:              # the merged-in one lives on
            extra, _ = stream(rng, int(rng.integers(1, 50)))
            keep = snapshot(a[0])
            for e in extra:
                b[0].add(e)
            b[1] = b[1] + list(extra)
            mon.check(snapshot(a[0]) == keep, "merge aliases the other sketch",
                      lambda: "{} -> {}".format(keep, snapshot(a[0])))
        dead.append(b + [snapshot(b[0])])
        nodes.pop(j)
    judge(mon, nodes[0][0], nodes[0][1], eps, ":tree", True, order=order)
    mon.seen("tree merges")
    for g, data, snap in dead:
        judge(mon, g, data, eps, ":merged-in", order=order, qs=rng.random(4))
        mon.check(snapshot(g) == snap, "merged-in sketch changed",
                  lambda: "{} -> {}".format(snap, snapshot(g)))
        mon.seen("independent")


def chain(rng, mon):
    """Many small sketches accumulated one by one."""
    eps = float(rng.choice([.1, .05, .02, .01]))
    g, data = GK(eps), []
    order = str(rng.choice(ORDERS))
    for _ in range(int(rng.integers(5, 40))):
        v, _ = stream(rng, int(rng.integers(1, 80)), order)
        g.merge(filled(v, eps))
        data += list(v)
        mon.seen("merges")
        if rng.random() < .2:
            judge(mon, g, data, eps, ":chain", True, order=order,
                  qs=rng.random(5))
    judge(mon, g, data, eps, ":chain", True, order=order)
    a, b = filled(data, eps), filled(data[:3], float(rng.choice([.31, .017])))
    try:
        a.merge(b)
        mon.fail("merged sketches of different error")
    except Exception:
        mon.evals += 1
    judge(mon, a, data, eps, ":rejected merge", order=order, qs=rng.random(5))


def truth(x, y, codes):
    miss = np.isnan(x)
    spec = np.isin(x, codes) if codes is not None else np.zeros(len(x), bool)
    clean = ~miss & ~spec
    return clean, miss, spec


def counts(x, y, codes, splits):
    clean, _, _ = truth(x, y, codes)
    idx = np.searchsorted(splits, x[clean], side="right")
    k = len(splits) + 1
    e = np.bincount(idx, weights=y[clean] == 1, minlength=k)
    ne = np.bincount(idx, weights=y[clean] == 0, minlength=k)
    return e, ne


def judge_b(mon, b, x, y, codes, eps, rng, tag, td=False):
    clean, miss, spec = truth(x, y, codes)
    mon.check(b.n == len(x), "bsketch n" + tag,
              lambda: "{} true {}".format(b.n, len(x)))
    mon.check(b.n_event == (y == 1).sum(), "bsketch n_event" + tag,
              lambda: "{} true {}".format(b.n_event, (y == 1).sum()))
    mon.check(b.n_nonevent == (y == 0).sum(), "bsketch n_nonevent" + tag,
              lambda: "{} true {}".format(b.n_nonevent, (y == 0).sum()))
    xc = x[clean]
    if not len(xc):
        return
    for _ in range(3):
        k = int(rng.integers(0, 8))
        sp = np.unique(np.concatenate([rng.choice(xc, k), rng.choice(xc, 2) +
                                       rng.normal(size=2)])[:k])
        e, ne = b.bins(sp)
        te, tn = counts(x, y, codes, sp)
        mon.seen("bins")
        for nm, got, true in (("event", e, te), ("nonevent", ne, tn)):
            mon.check(len(got) == len(true) and got.sum() == true.sum(),
                      "bins lose records" + tag, lambda: "{} {} true {}".
                      format(nm, got, true))
            if td or len(got) != len(true):
                continue
            n = true.sum()
            tol = 0 if 2 * eps * (n - 1) < 2 else 2 * eps * n + 1
            d = np.abs(np.cumsum(got) - np.cumsum(true)).max()
            mon.check(d <= tol, "bins error" + tag,
                      lambda: "{} eps={} splits={} {} true {} tol {}".format(
                          nm, eps, sp, got, true, tol))
    m = b.merge_sketches()
    n = len(xc)
    mon.check(m.n == n, "merge_sketches count" + tag,
              lambda: "{} true {}".format(m.n, n))
    if td:
        mon.seen("tdigest")
    else:
        judge(mon, m, xc, eps, ":both classes" + tag, True,
              qs=rng.random(8))


def bsketch(rng, mon):
    td = rng.random() < .08
    eps = float(rng.choice([.1, .03, .01, .001, 1e-4]))
    codes = [-9.0, -8.0] if rng.random() < .5 else None
    if codes is not None and rng.random() < .3:
        codes = np.array(codes)
    kw = dict(sketch="t-digest" if td else "gk", eps=max(eps, .01) if td
              else eps, special_codes=codes)
    parts = []
    for _ in range(int(rng.integers(1, 5))):
        b = BSketch(**kw)
        xs, ys = [np.empty(0)], [np.empty(0, int)]
        for _ in range(int(rng.integers(0, 4))):
            n = min(size(rng), 150 if td else 1500)
            x, _ = stream(rng, n)
            x = x.astype(float)
            mode = rng.random()
            y = (rng.random(n) < rng.uniform(.1, .9)).astype(int)
            if mode < .1:
                y[:] = rng.integers(0, 2)
            if mode > .9:
                x[:] = np.nan if codes is None or rng.random() < .5 else -9
            else:
                x[rng.random(n) < rng.choice([0, .1])] = np.nan
                if codes is not None:
                    x[rng.random(n) < .1] = -8.0
            b.add(x, y, check_input=bool(rng.random() < .3))
            xs.append(x)
            ys.append(y)
        x, y = np.concatenate(xs), np.concatenate(ys)
        judge_b(mon, b, x, y, codes, eps, rng, ":add", td)
        parts.append([b, x, y])
    while len(parts) > 1:
        i, j = rng.choice(len(parts), 2, replace=False)
        a, b = parts[i], parts[j]
        a[0].merge(b[0])
        mon.seen("merges")
        a[1], a[2] = np.r_[a[1], b[1]], np.r_[a[2], b[2]]
        judge_b(mon, a[0], a[1], a[2], codes, eps, rng, ":merge", td)
        n = int(rng.integers(1, 40))
        x, y = rng.normal(size=n), rng.integers(0, 2, n)
        (a if rng.random() < .5 else b)[0].add(x, y)
        t = a if a[0].n == len(a[1]) + n else b
        t[1], t[2] = np.r_[t[1], x], np.r_[t[2], y]
        judge_b(mon, a[0], a[1], a[2], codes, eps, rng, ":add after", td)
        judge_b(mon, b[0], b[1], b[2], codes, eps, rng, ":merged-in", td)
        mon.seen("independent")
        parts.pop(j)


FAMILIES = {"single": (single, 7500, 60000), "tree": (tree, 4500, 40000),
            "chain": (chain, 1500, 12000), "bsketch": (bsketch, 5000, 50000)}
