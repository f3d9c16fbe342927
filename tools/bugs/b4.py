B = "optbinning/binning/"
D = B + "distributed/"
M = B + "multidimensional/"
W = B + "piecewise/"
PRE = '''
import sys
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
'''
BUGS = [
 dict(id="S01-incoming-delta", property="S01",
  needs="a sketch that received values in several compress rounds, with later values falling between earlier entries",
  breaks="an inserted value forgets the uncertainty of its successor, so quantile errors exceed eps after many rounds",
  edits=[(D + "gk.py", "ti.delta = tj.g + tj.delta - ti.g", "ti.delta = 0")],
  demo=PRE + '''
from optbinning.binning.distributed.gk import GK
bad = 0
for seed in range(8):
    r = np.random.RandomState(seed)
    for mode in range(3):
        n = 20000
        x = r.permutation(n).astype(float)
        if mode == 1:
            x = np.concatenate([np.sort(x[:n // 2]), np.sort(x[n // 2:])[::-1]])
        if mode == 2:
            x = np.concatenate([x[i::7] for i in range(7)])
            x = np.sort(x)[np.argsort(np.tile(np.arange(100), n // 100), kind="stable")]
        eps = .02
        g = GK(eps)
        for v in x:
            g.add(v)
        for q in np.linspace(0, 1, 101):
            rank = q * (n - 1)
            bad = max(bad, abs(g.quantile(q) - rank) / n / eps)
sys.exit(int(bad > 1.01))
'''),
 dict(id="S01-compress-no-delta", property="S01",
  needs="entries carrying a large delta that are compressed while new values arrive beyond them",
  breaks="the compression ignores the delta of the successor entry, so quantile errors exceed eps",
  edits=[(D + "gk.py", """            if i == n_incoming:
                t = self.entries[j]
                j += 1
                if j < n_entries:
                    tn = self.entries[j]
                    if t.g + tn.g + tn.delta <= remove_threshold:
""", """            if i == n_incoming:
                t = self.entries[j]
                j += 1
                if j < n_entries:
                    tn = self.entries[j]
                    if t.g + tn.g <= remove_threshold:
""")],
  demo=PRE + '''
from optbinning.binning.distributed.gk import GK
bad = 0
for seed in range(6):
    r = np.random.RandomState(seed)
    n = 20000
    for mode in range(4):
        x = r.permutation(n).astype(float)
        if mode == 1:
            x = np.arange(n)[::-1].astype(float)
        if mode == 2:
            x = np.concatenate([x[:n // 2], np.sort(x[n // 2:])[::-1]])
        if mode == 3:
            k = int(np.sqrt(n))
            x = np.arange(n).reshape(-1, 100)[::-1].T.ravel().astype(float)
        eps = .02
        g = GK(eps)
        for v in x:
            g.add(v)
        for q in np.linspace(0, 1, 201):
            bad = max(bad, abs(g.quantile(q) - q * (n - 1)) / n / eps)
sys.exit(int(bad > 1.01))
'''),
 dict(id="S02-min-size-clean", property="S02",
  needs="min_bin_size with a large share of missing records",
  breaks="the minimum bin size is taken relative to the clean records instead of all records",
  edits=[(D + "binning_sketch.py", "            min_bin_size = int(np.ceil(self.min_bin_size * self._bsketch.n))\n",
          "            n_clean = int(np.sum(n_nonevent) + np.sum(n_event))\n            min_bin_size = int(np.ceil(self.min_bin_size * n_clean))\n")],
  demo=PRE + '''
from optbinning import OptimalBinningSketch
r = np.random.RandomState(0)
x = r.rand(8000)
y = (r.rand(8000) < x).astype(int)
x[4000:] = np.nan
o = OptimalBinningSketch(eps=.001, min_bin_size=.1)
o.add(x, y)
o.solve()
t = o.binning_table.build()
c = t["Count"].iloc[:len(o.splits) + 1].to_numpy(float)
sys.exit(int(len(c) > 1 and c.min() < 780))
'''),
 dict(id="D01-special-missing-pair", property="D01",
  needs="transform of a pair with one value special and the other missing",
  breaks="such a pair is transformed as special although the table counts it as missing",
  edits=[(M + "transformations_2d.py", """    clean_mask = ~missing_mask & ~special_mask

    return special_mask, missing_mask, clean_mask
""", """    clean_mask = ~missing_mask & ~special_mask
    missing_mask = missing_mask & ~special_mask

    return special_mask, missing_mask, clean_mask
""")],
  demo=PRE + '''
from optbinning import OptimalBinning2D
r = np.random.RandomState(0)
x, y = r.rand(2, 800)
z = (r.rand(800) < (x + y) / 2).astype(int)
x[:60] = -9
y[30:100] = np.nan
o = OptimalBinning2D(special_codes_x=[-9]).fit(x, y, z)
t = o.binning_table.build()
b = o.transform(x, y, metric="bins")
sys.exit(int((b == "Missing").sum() != t["Count"].iloc[-2]))
'''),
 dict(id="D02-min-diff-y", property="D02",
  needs="monotonic trends on both axes with different minimum differences",
  breaks="the minimum difference of the x axis is used on the y axis",
  edits=[(M + "cp_2d.py", """                for j in d_connected_y[i]:
                    if self.monotonic_trend_y == "ascending":
                        if er[i] + min_diff_y >= er[j]:
                            ind_y.append(j)
                    elif self.monotonic_trend_y == "descending":
                        if er[i] <= er[j] + min_diff_y:
                            ind_y.append(j)

                if ind_y:
                    model.Add(sum([x[j] for j in ind_y]) <=
                              len(ind_y) * (1 - x[i]))

        elif""", """                for j in d_connected_y[i]:
                    if self.monotonic_trend_y == "ascending":
                        if er[i] + min_diff_x >= er[j]:
                            ind_y.append(j)
                    elif self.monotonic_trend_y == "descending":
                        if er[i] <= er[j] + min_diff_x:
                            ind_y.append(j)

                if ind_y:
                    model.Add(sum([x[j] for j in ind_y]) <=
                              len(ind_y) * (1 - x[i]))

        elif""")],
  demo=PRE + '''
from optbinning import OptimalBinning2D
x, y = [v.ravel().astype(float) for v in np.meshgrid([0, 1, 2, 3], [0, 1, 2, 3])]
n = 200
p = .1 + .1 * x + .03 * y
X, Y = np.repeat(x, n), np.repeat(y, n)
z = (np.tile(np.arange(n), 16) < np.repeat(np.round(p * n), n)).astype(int)
k = dict(monotonic_trend_x="ascending", monotonic_trend_y="ascending", max_n_prebins_x=4, max_n_prebins_y=4)
o = OptimalBinning2D(min_event_rate_diff_x=0, min_event_rate_diff_y=.08, **k).fit(X, Y, z)
t = o.binning_table.build()
o2 = OptimalBinning2D(min_event_rate_diff_x=0, min_event_rate_diff_y=.08, solver="mip", **k).fit(X, Y, z)
t2 = o2.binning_table.build()
sys.exit(int(o.status == o2.status == "OPTIMAL" and abs(t["IV"].iloc[-1] - t2["IV"].iloc[-1]) > 1e-3))
'''),
 dict(id="D02-monotonic-y-ties", property="D02",
  needs="only a trend on the y axis, with adjacent rectangles in the wrong order",
  breaks="with a descending trend on the y axis alone the last connected rectangle is not constrained",
  edits=[(M + "cp_2d.py", """        elif self.monotonic_trend_y is not None:
            for i in range(n_rectangles):
                ind_y = []
                for j in d_connected_y[i]:
""", """        elif self.monotonic_trend_y is not None:
            for i in range(n_rectangles):
                ind_y = []
                for j in d_connected_y[i][:-1]:
""")],
  demo=PRE + '''
from optbinning import OptimalBinning2D
bad = 0
for seed in range(10):
    r = np.random.RandomState(seed)
    x, y = r.randint(0, 3, (2, 900)).astype(float)
    z = (r.rand(900) < r.rand(3, 3)[x.astype(int), y.astype(int)]).astype(int)
    v = []
    for s in ("cp", "mip"):
        o = OptimalBinning2D(monotonic_trend_y="descending", max_n_prebins_x=3, max_n_prebins_y=3, solver=s).fit(x, y, z)
        v.append(o.binning_table.build()["IV"].iloc[-1] if o.status == "OPTIMAL" else -1)
    bad |= abs(v[0] - v[1]) > 1e-3
sys.exit(int(bad))
'''),
 dict(id="W01-special-dict-order", property="W01",
  needs="grouped special codes and metric_special='empirical' where a group has several codes",
  breaks="the groups' empirical values are taken in the order of the number of codes",
  edits=[(W + "transformations.py", "            for i, (k, s) in enumerate(special_codes.items()):\n",
          "            for i, (k, s) in enumerate(sorted(special_codes.items(),\n                                              key=lambda v: np.size(v[1]))):\n")],
  demo=PRE + '''
from optbinning import OptimalPWBinning
r = np.random.RandomState(0)
x = r.rand(2000)
y = (r.rand(2000) < x).astype(int)
x[:200] = -1
x[200:300] = -2
x[300:500] = -3
y[:300] = r.rand(300) < .2
y[300:500] = r.rand(200) < .9
o = OptimalPWBinning(special_codes={"a": [-1, -2], "b": -3}).fit(x, y)
v = o.transform(np.array([-1., -3.]), metric="event_rate", metric_special="empirical")
sys.exit(int(abs(v[0] - y[:300].mean()) > 1e-9))
'''),
 dict(id="W01-lb-only", property="W01",
  needs="a fit with a lower bound only (or upper bound only) and values beyond the fitted range",
  breaks="bounds are applied in transform only when both are given",
  edits=[(W + "transformations.py", "    bounded = (lb is not None or ub is not None)\n",
          "    bounded = (lb is not None and ub is not None)\n")],
  demo=PRE + '''
from optbinning import ContinuousOptimalPWBinning
r = np.random.RandomState(0)
x = r.rand(1000) * 10
y = 3 * x + r.randn(1000)
o = ContinuousOptimalPWBinning().fit(x, y, lb=2.)
v = o.transform(np.array([-100., 5., 100.]), lb=2.)
sys.exit(int(v.min() < 2 - 1e-6))
'''),
 dict(id="W01-woe-special", property="W01",
  needs="metric='woe' with a numeric metric_special or missing and those values present",
  breaks="event rate to WoE conversion also covers the numbers requested for missing values",
  edits=[(W + "transformations.py", """        x_transform[clean_mask] = transform_event_rate_to_woe(
            x_transform[clean_mask], n_nonevent, n_event)
""", """        mask = clean_mask
        if 0 < np.any(missing_mask) * (
                metric_missing if metric_missing != "empirical" else 0) < 1:
            mask = ~special_mask
        x_transform[mask] = transform_event_rate_to_woe(
            x_transform[mask], n_nonevent, n_event)
""")],
  demo=PRE + '''
from optbinning import OptimalPWBinning
r = np.random.RandomState(0)
x = r.rand(2000)
y = (r.rand(2000) < x).astype(int)
o = OptimalPWBinning().fit(x, y)
v = o.transform(np.array([.3, np.nan]), metric="woe", metric_missing=.25)
sys.exit(int(abs(v[1] - .25) > 1e-9))
'''),
]
