B = "optbinning/binning/"
PRE = '''
import sys
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
'''
BUGS = [
 dict(id="B01-min-diff-last-bin", property="B01",
  needs="min_event_rate_diff > 0 and at least three bins, the last two of them closer than the minimum difference",
  breaks="the minimum event rate difference is not enforced for the last bin when it is formed by the last pre-bin alone",
  edits=[(B + "model_data.py", """            x = X[i][k]
            for j in range(i + 1, n):
                x2 = X[j][i + 1]
                if abs(x - x2) < min_diff:
""", """            x = X[i][k]
            for j in range(i + 1, n):
                x2 = X[j][i + 1]
                if i + 2 == n > 3 and k:
                    continue
                if abs(x - x2) < min_diff:
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
x = np.repeat(np.arange(5.), 200)
y = (np.tile(np.arange(200), 5) < np.repeat([10, 60, 120, 122, 126], 200)).astype(int)
o = OptimalBinning(user_splits=[.5, 1.5, 2.5, 3.5], min_event_rate_diff=.05).fit(x, y)
t = o.binning_table.build()
er = t["Event rate"].iloc[:len(o.splits) + 1].to_numpy(float)
sys.exit(int((np.diff(er) < .0499).any()))
'''),
 dict(id="C01-pooled-ttest", property="C01",
  needs="max_pvalue with bins of very different variance and size",
  breaks="the t-test assumes equal variances, so bins that are not significantly different are kept apart (or the reverse)",
  edits=[(B + "model_data.py", """                    if stats.ttest_ind_from_stats(
                            u, s, r, u2, s2, r2, False)[1] > max_pvalue:
                        pvalue_violation_indices.append(([i, k], [j, i+1]))
""", """                    if stats.ttest_ind_from_stats(
                            u, s, r, u2, s2, r2, True)[1] > max_pvalue:
                        pvalue_violation_indices.append(([i, k], [j, i+1]))
""")],
  demo=PRE + '''
from optbinning import ContinuousOptimalBinning
from scipy import stats
r = np.random.RandomState(1)
a = r.normal(0, .1, 1000)
b = 2 + 8 * stats.zscore(r.normal(size=30))
x = np.concatenate([np.zeros(1000), np.ones(30)])
y = np.concatenate([a, b])
o = ContinuousOptimalBinning(user_splits=[.5], max_pvalue=.05, monotonic_trend=None, min_n_bins=2).fit(x, y)
p = stats.ttest_ind_from_stats(a.mean(), a.std(), 1000, b.mean(), b.std(), 30, False)[1]
sys.exit(int(p > .05 and o.status == "OPTIMAL"))
'''),
 dict(id="C01-total-mean-unweighted", property="C01",
  needs="pre-bins of unequal size",
  breaks="deviations are measured from the mean of the pre-bin means, so the merging returned as optimal is not",
  edits=[(B + "model_data.py", """    t_mean = sums.sum() / n_records.sum()
""", """    t_mean = (sums / n_records).mean()
""")],
  demo=PRE + '''
from optbinning import ContinuousOptimalBinning
from itertools import product
for seed in range(60):
    r = np.random.RandomState(seed)
    n = r.randint(10, 400, 5)
    x = np.repeat(np.arange(5.), n)
    m = r.normal(0, 3, 5)
    y = m[x.astype(int)] + r.normal(0, .1, len(x))
    o = ContinuousOptimalBinning(user_splits=[.5, 1.5, 2.5, 3.5], max_n_bins=2, monotonic_trend=None).fit(x, y)
    def obj(s):
        g = np.digitize(x, s)
        return sum(abs(y[g == k].mean() - y.mean()) for k in range(len(s) + 1))
    best = max(obj([c]) for c in (.5, 1.5, 2.5, 3.5))
    if obj(list(o.splits)) < max(best, 0) - 1e-3:
        sys.exit(1)
'''),
 dict(id="C01-descending-adjacent", property="C01",
  needs="monotonic_trend='descending' and three or more pre-bins, a violation between bins whose ends are at least two pre-bins apart",
  breaks="the descending trend of the bin means is only enforced between bins ending at neighbouring pre-bins",
  edits=[(B + "continuous_cp.py", """    def add_constraint_monotonic_descending(self, model, n, U, x, M):
        for i in range(1, n):
            for z in range(i):
""", """    def add_constraint_monotonic_descending(self, model, n, U, x, M):
        for i in range(1, n):
            for z in range(max(0, i - 2), i):
""")],
  demo=PRE + '''
from optbinning import ContinuousOptimalBinning
for seed in range(60):
    r = np.random.RandomState(seed)
    x = np.repeat(np.arange(8.), 50)
    m = r.normal(0, 3, 8)
    y = m[x.astype(int)] + r.normal(0, .1, len(x))
    o = ContinuousOptimalBinning(user_splits=list(np.arange(7) + .5), monotonic_trend="descending").fit(x, y)
    if o.status != "OPTIMAL":
        continue
    g = np.digitize(x, o.splits)
    mm = np.array([y[g == k].mean() for k in range(len(o.splits) + 1)])
    if (np.diff(mm) > 1e-3).any():
        sys.exit(1)
'''),
 dict(id="M01-mindiff-last-class", property="M01",
  needs="min_event_rate_diff > 0 with a MIP solver and a violation in a class other than the first",
  breaks="the minimum event rate difference is enforced for the first class only (MIP solver)",
  edits=[(B + "multiclass_mip.py", """            self.add_constraint_violation(solver, x,
                                          min_diff_violation_indices[c])
""", """            self.add_constraint_violation(solver, x,
                                          min_diff_violation_indices[0])
""")],
  demo=PRE + '''
from optbinning import MulticlassOptimalBinning
for seed in range(40):
    r = np.random.RandomState(seed)
    x = np.repeat(np.arange(4.), 100)
    p = r.dirichlet(np.ones(3) * 3, 4)
    y = np.concatenate([r.choice(3, 100, p=q) for q in p])
    o = MulticlassOptimalBinning(user_splits=[.5, 1.5, 2.5], min_event_rate_diff=.06, monotonic_trend=None,
                                 solver="mip").fit(x, y)
    if o.status != "OPTIMAL" or not len(o.splits):
        continue
    g = np.digitize(x, o.splits)
    for c in range(3):
        er = np.array([(y[g == k] == c).mean() for k in range(len(o.splits) + 1)])
        if (abs(np.diff(er)) < .0599).any():
            sys.exit(1)
'''),
 dict(id="M01-valley-mip-slack", property="M01",
  needs="solver='mip', one class with a valley trend and three or more bins",
  breaks="the right-hand branch of a valley is not enforced between bins that are not neighbours",
  edits=[(B + "multiclass_mip.py", """                solver.Add(
                    n * (y[c, i] + y[c, z]) + 1 + (D[i][i] - 1) * x[i, i] +
                    solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                                for j in range(i)]) -
                    solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
                                for j in range(z)]) -
                    D[z][z] * x[z, z] >= 0)

                solver.Add(
                    n * (2 - y[c, i] - y[c, z]) + 1 + (D[z][z] - 1) * x[z, z] +
""", """                solver.Add(
                    n * (y[c, i] + y[c, z]) + 1 + (D[i][i] - 1) * x[i, i] +
                    solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                                for j in range(i)]) -
                    solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
                                for j in range(z)]) -
                    D[z][z] * x[z, z] >= 0)

                solver.Add(
                    n * (2 - y[c, z] - y[c, i] * y[c, z].lb()) + 1 +
                    (D[z][z] - 1) * x[z, z] +
""")],
  demo=PRE + '''
from optbinning import MulticlassOptimalBinning
for seed in range(60):
    r = np.random.RandomState(seed)
    x = np.repeat(np.arange(5.), 100)
    p = r.dirichlet(np.ones(3) * 2, 5)
    y = np.concatenate([r.choice(3, 100, p=q) for q in p])
    o = MulticlassOptimalBinning(user_splits=[.5, 1.5, 2.5, 3.5], monotonic_trend=["valley", None, None],
                                 solver="mip").fit(x, y)
    if o.status != "OPTIMAL" or len(o.splits) < 2:
        continue
    g = np.digitize(x, o.splits)
    er = np.array([(y[g == k] == 0).mean() for k in range(len(o.splits) + 1)])
    k = er.argmin()
    if (np.diff(er[:k + 1]) > 1e-5).any() or (np.diff(er[k:]) < -1e-5).any():
        sys.exit(1)
'''),
 dict(id="U01-size-first-scenario", property="U01",
  needs="scenarios of different sizes with min_bin_size",
  breaks="every scenario is held to the minimum bin size of the first scenario",
  edits=[(B + "cp.py", """                        model.Add(bin_size >= self.min_bin_size[s] * x[i, i])
""", """                        model.Add(bin_size >= min(self.min_bin_size) * x[i, i])
""")],
  demo=PRE + '''
from optbinning.binning.uncertainty import SBOptimalBinning
x0 = np.repeat(np.arange(4.), [50, 50, 50, 50])
x1 = np.repeat(np.arange(4.), [60, 400, 400, 400])
def tgt(x):
    return (np.random.RandomState(0).uniform(size=len(x)) < np.array([.1, .3, .5, .8])[x.astype(int)]).astype(int)
y0, y1 = tgt(x0), tgt(x1)
o = SBOptimalBinning(user_splits=[.5, 1.5, 2.5], min_bin_size=.1).fit([x0, x1], [y0, y1])
n = np.bincount(np.digitize(x1, o.splits))
sys.exit(int(o.status == "OPTIMAL" and n.min() < .1 * len(x1)))
'''),
 dict(id="U01-special-second", property="U01",
  needs="scenarios with different numbers of special and missing records",
  breaks="the missing row of every scenario table repeats the counts of the first scenario",
  edits=[(B + "uncertainty/binning_scenarios.py", """                self._n_nonevent_missing[s], self._n_event_missing[s],
                self._n_nonevent_special[s], self._n_event_special[s], None,
""", """                self._n_nonevent_missing[0], self._n_event_missing[0],
                self._n_nonevent_special[s], self._n_event_special[s], None,
""")],
  demo=PRE + '''
from optbinning.binning.uncertainty import SBOptimalBinning
r = np.random.RandomState(0)
X, Y = [], []
for s in range(2):
    x = r.normal(size=500)
    y = (r.uniform(size=500) < 1 / (1 + np.exp(-x))).astype(int)
    x[:10 + 30 * s] = np.nan
    X.append(x); Y.append(y)
o = SBOptimalBinning().fit(X, Y)
t = o.binning_table_scenario(1).build()
sys.exit(int(t["Count"].iloc[-2] != 40))
'''),
 dict(id="D02-event-filter-elif", property="D02",
  needs="two-dimensional binning with min_bin_n_event and min_bin_n_nonevent both requested",
  breaks="the minimum number of non-events is ignored when a minimum number of events is requested too",
  edits=[(B + "multidimensional/model_data_2d.py", """                    elif is_min_bin_n_nonevent and sfne < min_bin_n_nonevent:
                        continue
                    elif is_max_bin_n_nonevent and sfne > max_bin_n_nonevent:
                        continue

                    for r in row:
                        cols[r].append(n_rectangles)
""", """                    elif not is_min_bin_n_event and (
                            is_min_bin_n_nonevent and
                            sfne < min_bin_n_nonevent):
                        continue
                    elif is_max_bin_n_nonevent and sfne > max_bin_n_nonevent:
                        continue

                    for r in row:
                        cols[r].append(n_rectangles)
""")],
  demo=PRE + '''
from optbinning import OptimalBinning2D
r = np.random.RandomState(0)
a, b = r.uniform(0, 3, 900), r.uniform(0, 3, 900)
y = (r.uniform(size=900) < .15 + .27 * np.floor(a)).astype(int)
o = OptimalBinning2D(min_bin_n_event=5, min_bin_n_nonevent=100).fit(a, b, y)
t = o.binning_table.build()
n = t["Non-event"].iloc[:-3]
sys.exit(int(o.status == "OPTIMAL" and n.min() < 100))
'''),
 dict(id="D02-divergence-clean", property="D02",
  needs="two-dimensional binning with divergence 'js'",
  breaks="the Jensen-Shannon objective uses the rates in reversed roles for one term: the tiling returned is not optimal",
  edits=[(B + "multidimensional/model_data_2d.py", """    elif divergence == "js":
        iv = jensen_shannon(p, q)
    elif divergence == "hellinger":
        iv = hellinger(p, q)
    elif divergence == "triangular":
        iv = triangular(p, q)

    if scale is not None:
        c = (iv * scale).astype(int)
    else:
        c = iv

    return (n_grid, n_rectangles, rows, cols, c, d_connected_x, d_connected_y,
            event_rate, n_event, n_nonevent, n_records)
""", """    elif divergence == "js":
        iv = jensen_shannon(p, q)
    elif divergence == "hellinger":
        iv = hellinger(p, q)
    elif divergence == "triangular":
        iv = triangular(p, q) ** 2

    if scale is not None:
        c = (iv * scale).astype(int)
    else:
        c = iv

    return (n_grid, n_rectangles, rows, cols, c, d_connected_x, d_connected_y,
            event_rate, n_event, n_nonevent, n_records)
""")],
  demo=PRE + '''
from optbinning import OptimalBinning2D
from optbinning.binning.metrics import triangular
r = np.random.RandomState(0)
a, b = r.uniform(0, 3, 2000), r.uniform(0, 3, 2000)
y = (r.uniform(size=2000) < .1 + .25 * np.floor(a)).astype(int)
def obj(o):
    t = o.binning_table.build().iloc[:-3]
    e, n = t["Event"].to_numpy(float), t["Non-event"].to_numpy(float)
    return triangular(e / y.sum(), n / (1 - y).sum(), return_sum=True)
kw = dict(prebinning_method="uniform", max_n_prebins_x=3, max_n_prebins_y=3)
o = OptimalBinning2D(divergence="triangular", **kw).fit(a, b, y)
best = max(obj(OptimalBinning2D(divergence=d, **kw).fit(a, b, y)) for d in ("iv", "js", "hellinger"))
sys.exit(int(obj(o) < best - 1e-6))
'''),
 dict(id="B02-concave-order", property="B02",
  needs="monotonic_trend='concave', solver cp, at least four pre-bins; merging non-adjacent bins",
  breaks="concavity is enforced only for triples that include the last bin: infeasible/feasible shapes are confused",
  edits=[(B + "cp.py", """    def add_constraint_monotonic_concave(self, model, n, D, x, M):
        for i in range(2, n):
            for j in range(1, i):
                for k in range(j):
""", """    def add_constraint_monotonic_concave(self, model, n, D, x, M):
        for i in range(2, n):
            for j in range(1, i):
                for k in range(max(0, j - 2), j):
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
for seed in range(200):
    r = np.random.RandomState(seed)
    n = 8
    x = np.repeat(np.arange(float(n)), 100)
    e = r.randint(5, 95, n)
    y = (np.tile(np.arange(100), n) < np.repeat(e, 100)).astype(int)
    obj = []
    for s in ("cp", "mip"):
        o = OptimalBinning(user_splits=list(np.arange(n - 1) + .5), monotonic_trend="concave", solver=s).fit(x, y)
        obj.append(o.binning_table.build().loc["Totals", "IV"])
    if abs(obj[0] - obj[1]) > 1e-4:
        sys.exit(1)
'''),
 dict(id="B02-js-mip-solution", property="B02",
  needs="solver='mip' with a large number of pre-bins and min_n_bins together with max_n_bins",
  breaks="the range variable of the MIP model is one too small: the minimum number of bins is never attained",
  edits=[(B + "mip.py", """        if self.min_n_bins is not None and self.max_n_bins is not None:
            n_bin_diff = self.max_n_bins - self.min_n_bins
""", """        if self.min_n_bins is not None and self.max_n_bins is not None:
            n_bin_diff = max(self.max_n_bins - self.min_n_bins - 1, 1)
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
x = np.repeat(np.arange(6.), 200)
y = (np.tile(np.arange(200), 6) < np.repeat([10, 60, 20, 70, 30, 80], 200)).astype(int)
o = [OptimalBinning(user_splits=list(np.arange(5) + .5), min_n_bins=2, max_n_bins=5, solver=s,
                    min_event_rate_diff=.1, monotonic_trend="ascending", max_pvalue=1e-6).fit(x, y)
     for s in ("cp", "mip")]
v = [(q.status, round(float(q.binning_table.build().loc["Totals", "IV"]), 4)) for q in o]
sys.exit(int(v[0] != v[1]))
'''),
]
