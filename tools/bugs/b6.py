B = "optbinning/binning/"
S = "optbinning/scorecard/"
PRE = '''
import sys
import warnings
warnings.filterwarnings("ignore")
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
plt.show = lambda *a, **k: None
'''
BUGS = [
 dict(id="V01-hidden-specials", property="V01",
  needs="a continuous target, two or more groups of special codes, and a plot with add_special=False",
  breaks="hiding the special rows removes the bar of a clean bin and draws a special group in its place",
  edits=[(B + "binning_statistics.py", """                for _ in range(self._n_specials):
                    _n_records.pop(-2)
""", """                for _ in range(self._n_specials):
                    _n_records.pop(-1 - self._n_specials)
""")],
  demo=PRE + '''
from optbinning import ContinuousOptimalBinning
r = np.random.RandomState(0)
x = r.rand(600)
y = np.round(4 * x) + r.rand(600)
x[:50], x[50:80] = -1, -2
o = ContinuousOptimalBinning(special_codes={"a": [-1], "b": [-2]}).fit(x, y)
t = o.binning_table.build()
o.binning_table.plot(add_special=False)
h = [p.get_height() for p in plt.gcf().axes[0].containers[0]]
n = t["Count"].iloc[:-1].tolist()
sys.exit(int(h != n[:-3] + n[-1:]))
'''),
 dict(id="V01-actual-range", property="V01",
  needs="numeric special codes outside the range of the clean values and style='actual'",
  breaks="the first bar starts at the special code instead of the smallest clean value",
  edits=[(B + "binning.py", """            min_x = x_clean.min()
""", """            min_x = np.nanmin(x)
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.rand(600)
y = (r.rand(600) < x).astype(int)
x[:50] = -99
o = OptimalBinning(special_codes=[-99]).fit(x, y)
o.binning_table.build()
o.binning_table.plot(style="actual")
left = plt.gcf().axes[0].containers[0][0].get_x()
sys.exit(int(left < 0))
'''),
 dict(id="V01-json-max", property="V01",
  needs="a binning loaded from a JSON file and style='actual'",
  breaks="the last bar of a reloaded binning has the wrong width",
  edits=[(B + "continuous_binning.py", """        opt_bin_dict['max_x'] = table.max_x
""", """        opt_bin_dict['max_x'] = (table.splits[-1] if len(table.splits)
                                 else table.max_x)
""")],
  demo=PRE + '''
import os
import tempfile
from optbinning import ContinuousOptimalBinning
r = np.random.RandomState(0)
x = r.rand(600)
y = np.round(4 * x) + r.rand(600)
o = ContinuousOptimalBinning().fit(x, y)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "b.json")
    o.to_json(f)
    p = ContinuousOptimalBinning()
    p.read_json(f)
p.binning_table.build()
p.binning_table.plot(style="actual")
b = plt.gcf().axes[0].containers[0][-1]
sys.exit(int(abs(b.get_x() + b.get_width() - x.max()) > 1e-9))
'''),
 dict(id="V01-progress-band", property="V01",
  needs="a sketch binning solved at least three times",
  breaks="the standard error band of the progress plot uses the number of solves minus one",
  edits=[(B + "distributed/plots.py", """    mv_div_std /= np.sqrt(np.arange(1, n+1))
""", """    mv_div_std /= np.sqrt(np.maximum(np.arange(n), 1))
""")],
  demo=PRE + '''
from optbinning import OptimalBinningSketch
r = np.random.RandomState(0)
o = OptimalBinningSketch(eps=.01)
for k in range(5):
    x = r.rand(300)
    o.add(x, (r.rand(300) < x).astype(int))
    o.solve()
d = []
real = plt.fill_between
plt.fill_between = lambda *a, **k: (d.append(a), real(*a, **k))[1]
lab = []
o.plot_progress()
n, lo, hi = [np.asarray(v, float) for v in d[0][:3]]
div = np.asarray(plt.gcf().axes[0].lines[0].get_ydata(), float)
se = pd.Series(div).rolling(5, min_periods=1).std(ddof=0) if 0 else None
half = (hi - div)[-1]
# the band of k values has half width 1.96 sd / sqrt(k)
sds = [pd.Series(div).expanding().std(ddof=q).iloc[-1] for q in (0, 1)]
ok = any(abs(half - 1.959963984540054 * s / np.sqrt(5)) < 1e-9 for s in sds)
sys.exit(int(not ok))
'''),
 dict(id="V01-psi-share", property="V01",
  needs="a monitoring whose actual and expected samples differ in size",
  breaks="the expected population shares of the PSI plot are divided by the actual sample size",
  edits=[(S + "monitoring.py", """        p_records_e = self._n_records_e / self._n_records_e.sum() * 100.0
""", """        p_records_e = self._n_records_e / max(
            self._n_records_a.sum(), self._n_records_e.sum()) * 100.0
""")],
  demo=PRE + '''
from sklearn.linear_model import LogisticRegression
from optbinning import BinningProcess, Scorecard
from optbinning.scorecard import ScorecardMonitoring
r = np.random.RandomState(0)
X = pd.DataFrame(r.rand(1500, 2), columns=["a", "b"])
y = (r.rand(1500) < X.a).astype(int).values
sc = Scorecard(BinningProcess(["a", "b"]), LogisticRegression(), scaling_method="min_max",
    scaling_method_params={"min": 300, "max": 850}).fit(X[:500], y[:500])
m = ScorecardMonitoring(sc)
m.fit(X[500:], y[500:], X[:500], y[:500])
m.psi_plot()
h = [sum(p.get_height() for p in c) for c in plt.gcf().axes[0].containers]
sys.exit(int(any(abs(v - 100) > 1e-6 for v in h)))
'''),
 dict(id="E01-fixed-length", property="E01",
  needs="user_splits_fixed longer than user_splits, continuous target",
  breaks="a user_splits_fixed that is too long is silently accepted",
  edits=[(B + "continuous_binning.py", """            elif len(user_splits) != len(user_splits_fixed):
""", """            elif len(user_splits) > len(user_splits_fixed):
""")],
  demo=PRE + '''
from optbinning import ContinuousOptimalBinning
x = np.arange(100.)
o = ContinuousOptimalBinning(user_splits=[30, 60], user_splits_fixed=[True, False, True])
try:
    o.fit(x, x)
except ValueError as e:
    sys.exit(int("user_splits_fixed" not in str(e)))
except Exception:
    pass
sys.exit(1)
'''),
 dict(id="X01-priority-order", property="X01",
  needs="the hierarchical method with unequal priorities of conflicting objectives",
  breaks="the objective with the lowest priority is optimised first",
  edits=[(S + "counterfactual/mip.py", """            weights.items(), key=lambda item: item[1], reverse=True)]
""", """            weights.items(), key=lambda item: item[1],
            reverse=len(weights) > 2)]
""")],
  demo=PRE + '''
from sklearn.linear_model import LogisticRegression
from optbinning import BinningProcess, Scorecard
from optbinning.scorecard import Counterfactual
r = np.random.RandomState(3)
X = pd.DataFrame(r.rand(1500, 4), columns=list("abcd"))
X["d"] = X.a * .7 + X.d * .3
y = (r.rand(1500) < 1 / (1 + np.exp(-(4 * X.a - 3 * X.b + 2 * X.c - 1)))).astype(int).values
sc = Scorecard(BinningProcess(list(X)), LogisticRegression()).fit(X, y)
cf = Counterfactual(sc)
cf.fit(X)
T = sc.table(style="detailed")
W = {(v, str(b)): w for v, b, w in zip(T.Variable, T.Bin, T.WoE)}
R = T.groupby("Variable").WoE.agg(lambda w: w.max() - w.min())

def prox(names, q):
    g = cf.display(show_only_changes=True)
    x = sc.binning_process_.transform(q, metric="woe")
    d = 0
    for v in names:
        c = str(g[v].iloc[0])
        if c != "-":
            d += abs(W[v, c] - x[v].iloc[0]) / R[v]
    return d

bad = 0
for i in range(40):
    q = X.iloc[i:i + 1]
    a = dict(y=1 - int(sc.predict(q)[0]), outcome_type="binary", n_cf=1, max_changes=4)
    cf.generate(q, method="hierarchical", objectives={"proximity": 5, "closeness": 1}, priority_tol=0., **a)
    h = prox(list(X), q)
    cf.generate(q, method="weighted", objectives={"proximity": 1}, **a)
    bad += h > prox(list(X), q) + 1e-4
print(bad)
sys.exit(int(bad > 0))
'''),
 dict(id="W01-missing-divergence", property="W01",
  needs="missing values of both classes and an unbalanced target",
  breaks="the reported divergences weigh the missing events by the non-events",
  edits=[(B + "piecewise/metrics.py", """    qi_missing = n_event_missing / t_n_event
""", """    qi_missing = n_event_missing / max(t_n_event, t_n_nonevent)
""")],
  demo=PRE + '''
from optbinning import OptimalPWBinning
r = np.random.RandomState(0)
x = r.rand(600)
y = (r.rand(600) < x ** 3).astype(int)
o0 = OptimalPWBinning().fit(x, y)
o0.binning_table.build()
def iv(x, y):
    o = OptimalPWBinning().fit(x, y)
    t = o.binning_table.build()
    c = ~np.isnan(x)
    e, ne = t["Event"].iloc[-2], t["Non-event"].iloc[-2]
    te, tn = y.sum(), len(y) - y.sum()
    p = o.transform(x[c], metric="event_rate", lb=1e-8, ub=1 - 1e-8)
    f = lambda u, v: ((u - v) * np.log(u / v)).sum()
    return abs(f((1 - p) / tn, p / te) + (f(ne / tn, e / te) if e * ne else 0) - o.binning_table.iv)
x[:150] = np.nan
sys.exit(int(iv(x, y) > 1e-8))
'''),
]
