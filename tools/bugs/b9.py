B = "optbinning/binning/"
S = "optbinning/scorecard/"
PRE = '''
import sys
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
'''
BUGS = [
 dict(id="B09-tied-categories", property="B09",
  needs="a categorical variable in which two categories have the same event rate",
  breaks="the order of tied categories follows their first appearance in the data",
  edits=[(B + "preprocessing.py",
          "pd.Series(y).groupby(x).mean()",
          "pd.Series(y).groupby(x, sort=False).mean()")],
  demo=PRE + '''
from optbinning import OptimalBinning
c = {"a": (10, 3), "b": (10, 3), "c": (10, 6), "d": (10, 9)}
x = np.array([k for k, (n, e) in c.items() for _ in range(n)], dtype=object)
y = np.array([int(i < e) for k, (n, e) in c.items() for i in range(n)])
def groups(x, y):
    o = OptimalBinning(dtype="categorical", prebinning_method="uniform",
                       max_n_prebins=3, min_prebin_size=.01, min_n_bins=3)
    o.fit(x, y)
    return o.transform(np.array(list("abcd"), dtype=object),
                       metric="indices").tolist(), [
        list(map(str, g)) for g in o.splits]
r = np.random.RandomState(0)
out = set()
for _ in range(12):
    p = r.permutation(len(x))
    out.add(str(groups(x[p], y[p])))
sys.exit(int(len(out) > 1))
'''),
 dict(id="X01-diversity-neighbours", property="X01",
  needs="three or more counterfactuals with the hard constraint diversity_features",
  breaks="only consecutive counterfactuals must differ, the first and the third may change the same features",
  edits=[(S + "counterfactual/multi_mip.py",
          "            # Diversity constraints\n            for l in range(k + 1, self.K):\n",
          "            # Diversity constraints\n            for l in range(k + 1, min(k + 2, self.K)):\n")],
  demo=PRE + '''
from sklearn.linear_model import LogisticRegression
from optbinning import BinningProcess, Scorecard
from optbinning.scorecard import Counterfactual
bad = 0
for seed in range(6):
    r = np.random.RandomState(seed)
    n = 600
    X = pd.DataFrame({c: r.randn(n) for c in "abcd"})
    y = (r.rand(n) < 1 / (1 + np.exp(-X.sum(axis=1)))).astype(int).values
    s = Scorecard(BinningProcess(list(X)), LogisticRegression()).fit(X, y)
    cf = Counterfactual(s, n_jobs=1).fit(X)
    q = X.iloc[:1]
    p = int(s.predict(q)[0])
    cf.generate(q, y=1 - p, outcome_type="binary", n_cf=3, max_changes=2,
                hard_constraints=["diversity_features"], time_limit=20)
    if cf.status not in ("OPTIMAL", "FEASIBLE"):
        continue
    d = cf.display(show_only_changes=True)[list(X)].values
    sets = [tuple(v != "-" for v in row) for row in d]
    bad += len(set(sets)) < 3
sys.exit(int(bad > 0))
'''),
 dict(id="B01-unknown-prebins", property="B01",
  needs="a time limit that ends before the CP solver finds any solution",
  breaks="when the solver stops without a solution every pre-bin becomes a bin",
  edits=[(B + "cp.py",
          "            solution = np.zeros(self._n, dtype=bool)\n            solution[-1] = True\n",
          "            solution = np.full(self._n, status == cp_model.UNKNOWN)\n            solution[-1] = True\n")],
  demo=PRE + '''
from ortools.sat.python import cp_model
from optbinning import OptimalBinning
old = cp_model.CpSolver.Solve
def Solve(self, model, *a):
    self.parameters.max_time_in_seconds = 1e-9
    self.parameters.cp_model_presolve = False
    self.parameters.num_workers = 1
    return old(self, model, *a)
cp_model.CpSolver.Solve = Solve
bad = 0
for seed in range(5):
    r = np.random.RandomState(seed)
    x = r.randn(800)
    y = (r.rand(800) < 1 / (1 + np.exp(-x))).astype(int)
    o = OptimalBinning(max_n_bins=3, min_n_bins=2, min_bin_size=.1,
                       monotonic_trend="concave")
    o.fit(x, y)
    bad += len(o.splits) + 1 > 3
sys.exit(int(bad > 0))
'''),
 dict(id="W01-reg-mixed", property="W01",
  needs="regularization='l2' with reg_l1 and reg_l2 different",
  breaks="the l2 penalty takes the value of reg_l1",
  edits=[(B + "piecewise/base.py",
          "            reg_l2=self.reg_l2,\n            extrapolation",
          "            reg_l2=self.reg_l1,\n            extrapolation")],
  demo=PRE + '''
from optbinning import ContinuousOptimalPWBinning
r = np.random.RandomState(0)
x = r.rand(400) * 10
y = np.sin(x) + .1 * r.randn(400)
t = [ContinuousOptimalPWBinning(regularization="l2", reg_l2=v, reg_l1=1.,
     objective="l2", monotonic_trend=None, solver="ecos").fit(
     x, y).transform(x) for v in (0.001, 1000.)]
sys.exit(int(np.abs(t[0] - t[1]).max() < 1e-3))
'''),
 dict(id="R02-range-strict", property="R02",
  needs="the range detector on data of which one half of the records share a value and k > 0",
  breaks="values at the bounds are outliers, with a zero interquartile range every record",
  edits=[(B + "outlier.py",
          "self._support = (x > upper_bound) | (x < lower_bound)",
          "self._support = (x >= upper_bound) | (x < lower_bound)")],
  demo=PRE + '''
from optbinning.binning.outlier import RangeDetector
x = np.array([0, 1, 2, 3, 4, 7, 0, 1, 2, 3, 4, 4, 1.])
d = RangeDetector(k=1.).fit(x)
q = np.percentile(x, [25, 75])
ref = (x > q[1] + (q[1] - q[0])) | (x < q[0] - (q[1] - q[0]))
y = np.array([1., 1, 1, 1, 1, 9])
e = RangeDetector().fit(y)
sys.exit(int((d.get_support() != ref).any() or e.get_support().sum() != 1))
'''),
 dict(id="K02-floor-min", property="K02",
  needs="min_max scaling with rounding whose minimum points add up to a whole number only up to rounding",
  breaks="the rounded scorecard does not reach the requested minimum",
  edits=[(S + "rounding.py",
          "min_point = np.rint(np.sum(mins))",
          "min_point = np.floor(np.sum(mins))")],
  demo=PRE + '''
from sklearn.linear_model import LogisticRegression
from optbinning import BinningProcess, Scorecard
bad = 0
for seed in range(12):
    r = np.random.RandomState(seed)
    n = 400
    X = pd.DataFrame({c: r.randn(n) for c in "abcde"})
    y = (r.rand(n) < 1 / (1 + np.exp(-X.sum(axis=1)))).astype(int).values
    s = Scorecard(BinningProcess(list(X)), LogisticRegression(),
                  scaling_method="min_max", rounding=True,
                  scaling_method_params={"min": 300, "max": 850}).fit(X, y)
    t = s.table(style="detailed")
    bad += t.groupby("Variable")["Points"].min().sum() != 300
sys.exit(int(bad > 0))
'''),
]
