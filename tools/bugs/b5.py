B = "optbinning/binning/"
S = "optbinning/scorecard/"
C = S + "counterfactual/"
PRE = '''
import sys
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
'''
SC = PRE + '''
from sklearn.linear_model import LogisticRegression, LinearRegression
from optbinning import BinningProcess, Scorecard

def frame(n=1200, p=4, seed=0):
    r = np.random.RandomState(seed)
    X = pd.DataFrame(r.rand(n, p), columns=["v%d" % i for i in range(p)])
    y = (r.rand(n) < 1 / (1 + np.exp(-(3 * X.v0 - 2 * X.v1 + X.v2 - 1)))).astype(int).values
    return X, y
'''
BUGS = [
 dict(id="K01-min-max-reverse", property="K02",
  needs="min_max scaling with reverse_scorecard=True, at least two variables",
  breaks="the shift of a reversed min-max scorecard uses the wrong end, so the extreme scores are not the requested ones when the intercept is far from zero",
  edits=[(S + "scorecard.py", """        smin = intercept + min_p
        smax = intercept + max_p
""", """        smin = intercept + min_p
        smax = max_p + intercept * (1 if not reverse_scorecard else n / (n + 0))
        if reverse_scorecard and np.any(intercept > 0):
            smax = max_p
""")],
  demo=SC + '''
X, y = frame()
y = (np.random.RandomState(1).rand(len(y)) < .35 + .5 * X.v0).astype(int).values
sc = Scorecard(BinningProcess(list(X)), LogisticRegression(), scaling_method="min_max",
    scaling_method_params={"min": 300, "max": 850}, reverse_scorecard=True)
X = X[["v0", "v1"]]
sc.set_params(binning_process=BinningProcess(["v0", "v1"]))
bad = 0
for flip in (0, 1):
    sc.fit(X, 1 - y if flip else y)
    t = sc.table()
    g = t.groupby("Variable").Points
    bad |= abs(g.min().sum() - 300) > 1e-6 or abs(g.max().sum() - 850) > 1e-6
sys.exit(int(bad))
'''),
 dict(id="K01-special-groups-points", property="K01",
  needs="a variable with two or more groups of special codes and a numeric metric_special",
  breaks="only the last group of special codes gets the points of metric_special",
  edits=[(S + "scorecard.py", """                if isinstance(optb.special_codes, dict):
                    n_specials = len(optb.special_codes)
""", """                if isinstance(optb.special_codes, dict):
                    n_specials = min(len(optb.special_codes), 2)
""")],
  demo=SC + '''
X, y = frame(2000)
for k, c in enumerate((-1, -2, -3)):
    X.loc[k * 200:k * 200 + 199, "v0"] = c
sc = Scorecard(BinningProcess(list(X), special_codes={"a": [-1], "b": [-2], "c": [-3]}), LogisticRegression())
sc.fit(X, y, metric_special=.5)
s = sc.score(X)
sys.exit(int(np.abs(s - sc.decision_function(X)).max() - np.abs(sc.estimator_.intercept_[0]) > 1e-6
    and np.std(s - sc.decision_function(X)) > 1e-6))
'''),
 dict(id="K02-intercept-clean-min", property="K02",
  needs="intercept_based with a variable whose lowest points belong to the missing row",
  breaks="the adjustment uses the lowest points of the rows before the missing one, so missing rows can get negative points",
  edits=[(S + "scorecard.py", "        min_point = np.min(points)\n        scaled_points[mask]",
          "        min_point = np.min(points[:-1])\n        scaled_points[mask]")],
  demo=SC + '''
X, y = frame(2000)
X.loc[:300, "v0"] = np.nan
y[:301] = np.random.RandomState(0).rand(301) < .02
bad = 0
for rev in (False, True):
    sc = Scorecard(BinningProcess(list(X)), LogisticRegression(), intercept_based=True, reverse_scorecard=rev,
        scaling_method="pdo_odds", scaling_method_params={"pdo": 20, "odds": 1, "scorecard_points": 600})
    sc.fit(X, y, metric_missing="empirical")
    bad |= sc.table().Points.min() < -1e-9
sys.exit(int(bad))
'''),
 dict(id="K02-rounding-min-attained", property="K02",
  needs="min_max scaling with rounding where rint of the smallest points is not attained",
  breaks="the rounding model bounds the minimum of each variable instead of attaining it",
  edits=[(S + "rounding.py", "        max_point = np.rint(np.sum(maxs))\n", "        max_point = np.rint(np.sum(np.rint(maxs)))\n")],
  demo=SC + '''
bad = 0
for seed in range(8):
    X, y = frame(800, 6, seed)
    sc = Scorecard(BinningProcess(list(X)), LogisticRegression(), scaling_method="min_max", rounding=True,
        scaling_method_params={"min": 0, "max": 100}).fit(X, y)
    g = sc.table().groupby("Variable").Points
    bad |= abs(g.max().sum() - 100) > 1e-6 or abs(g.min().sum()) > 1e-6
sys.exit(int(bad))
'''),
 dict(id="K03-missing-dropped", property="K03",
  needs="monitoring samples with special codes declared and a different share of missing values",
  breaks="the share of each bin of a variable is taken over the records without missing values",
  edits=[(S + "monitoring.py", """            t_n_records_a = n_records_a.sum()
            t_n_records_e = n_records_e.sum()
            p_records_a = n_records_a / t_n_records_a
            p_records_e = n_records_e / t_n_records_e

            psi = _psi(p_records_a, p_records_e)

            df_psi""", """            t_n_records_a = n_records_a.sum()
            t_n_records_e = n_records_e[:-1].sum()
            p_records_a = n_records_a / t_n_records_a
            p_records_e = n_records_e / t_n_records_e

            psi = _psi(p_records_a, p_records_e)

            df_psi""")],
  demo=SC + '''
from optbinning.scorecard import ScorecardMonitoring
X, y = frame()
X.loc[:200, "v0"] = np.nan
sc = Scorecard(BinningProcess(list(X)), LogisticRegression()).fit(X, y)
m = ScorecardMonitoring(sc).fit(X, y, X, y)
sys.exit(int(m.psi_variable_table().PSI.max() > 1e-6))
'''),
 dict(id="K03-actual-splits", property="K03",
  needs="actual sample smaller or differently distributed than the expected one",
  breaks="score bins are built with the actual sample's size in mind (right-closed digitisation of the actual scores)",
  edits=[(S + "monitoring.py", "        indices_a = np.digitize(score_actual, splits, right=False)\n",
          "        indices_a = np.searchsorted(splits, score_actual)\n")],
  demo=SC + '''
from optbinning.scorecard import ScorecardMonitoring
X, y = frame()
sc = Scorecard(BinningProcess(list(X)), LogisticRegression(), scaling_method="min_max", rounding=True,
    scaling_method_params={"min": 0, "max": 20}).fit(X, y)
m = ScorecardMonitoring(sc, psi_method="quantile", psi_n_bins=5).fit(X, y, X, y)
sys.exit(int(m.psi_table().PSI.iloc[-1] > 1e-9))
'''),
 dict(id="K03-perf-pred-expected", property="K03",
  needs="continuous target",
  breaks="the residual metrics of the expected sample compare with predictions clipped to the actual sample's range",
  edits=[(S + "monitoring.py", "        y_pred_e = self.scorecard.predict(X_expected)\n        d_metrics_e = regression_metrics(y_true_e, y_pred_e)\n",
          "        y_pred_e = np.minimum(self.scorecard.predict(X_expected),\n                              np.max(y_pred_a))\n        d_metrics_e = regression_metrics(y_true_e, y_pred_e)\n")],
  demo=SC + '''
from sklearn.metrics import mean_absolute_error
from optbinning.scorecard import ScorecardMonitoring
X, y = frame()
y = 5 + 3 * X.v0.values + X.v1.values
sc = Scorecard(BinningProcess(list(X)), LinearRegression()).fit(X, y)
a = (X.v0 < .5).values
m = ScorecardMonitoring(sc, psi_method="quantile", psi_n_bins=2).fit(X[a], y[a], X, y)
d = m._df_performance
v = d[d.Metric.str.lower().str.contains("mean absolute error")].Expected.iloc[0]
sys.exit(int(abs(v - mean_absolute_error(y, sc.predict(X))) > 1e-9))
'''),
 dict(id="X01-multi-actionable", property="X01",
  needs="several counterfactuals with actionable_features",
  breaks="non-actionable features are only respected by the first counterfactual",
  edits=[(C + "multi_mip.py", "        for k in range(self.K):\n            for i in self.non_actionable:\n                solver.Add(a[k, i] == 0)\n",
          "        for k, i in zip(range(self.K), self.non_actionable):\n            solver.Add(a[k, i] == 0)\n")],
  demo=SC + '''
from optbinning.scorecard import Counterfactual
X, y = frame(1500, 4)
sc = Scorecard(BinningProcess(list(X)), LogisticRegression()).fit(X, y)
bad = 0
for i in range(6):
    q = X.iloc[[i]]
    cf = Counterfactual(sc).fit(X)
    for yy in (0, 1):
        cf.generate(q, yy, "binary", 3, max_changes=3, actionable_features=["v1", "v2"],
            hard_constraints=["diversity_values"])
        if cf.status == "OPTIMAL":
            d = cf.display(show_only_changes=True)
            bad |= bool((d[["v0", "v3"]] != "-").any().any())
sys.exit(int(bad))
'''),
 dict(id="X01-closeness-index", property="X01",
  needs="the closeness objective with correlated features",
  breaks="the transformation of the Mahalanobis distance is applied transposed",
  edits=[(C + "mip.py", "                [F[j, i] * (x_p[j] - mu[j]) for j in range(i, p)]))",
          "                [F[j, i] * (x_p[j] - mu[j]) for j in range(i + (p > 3), p)]))")],
  demo=SC + '''
from optbinning.scorecard import Counterfactual
r = np.random.RandomState(1)
bad = 0
X, y = frame(1500, 4)
X["v1"] = X.v0 * .7 + X.v1 * .3
X["v3"] = X.v2 * .6 + X.v3 * .4
sc = Scorecard(BinningProcess(list(X)), LogisticRegression()).fit(X, y)
Z = sc.binning_process_.transform(X).values
F = np.linalg.cholesky(np.linalg.inv(np.cov(Z.T)))
mu = Z.mean(axis=0)
vals = []
for v in X:
    t = sc.table("detailed")
    t = t[t.Variable == v]
    vals.append((t.Bin.tolist()[:-2], t.WoE.astype(float).tolist()[:-2]))
import itertools
b = float(sc.estimator_.intercept_[0])
co = sc.estimator_.coef_.ravel()
for i in range(5):
    q = X.iloc[[i]]
    x = Z[i]
    yy = 1 - int(sc.predict(q)[0])
    cf = Counterfactual(sc).fit(X)
    cf.generate(q, yy, "binary", 1, max_changes=2, objectives={"closeness": 1})
    if cf.status != "OPTIMAL":
        continue
    d = cf.display(show_only_changes=True).iloc[0]
    z = np.array([x[k] if d.iloc[k] == "-" else dict(zip(*vals[k]))[d.iloc[k]] for k in range(4)])
    f = lambda z: np.abs(F.T @ (z - mu)).sum()
    best = np.inf
    for c in itertools.product(*[[x[k]] + vals[k][1] for k in range(4)]):
        c = np.array(c)
        if (np.abs(c - x) > 1e-9).sum() <= 2:
            a = b + co @ c
            if (a >= 1e-6 if yy else a <= 0):
                best = min(best, f(c))
    bad |= f(z) > best + 1e-5
sys.exit(int(bad))
'''),
 dict(id="X01-display-outcome", property="X01",
  needs="a counterfactual with outcome displayed for a query whose changed feature has several bins",
  breaks="the displayed outcome ignores the intercept sign",
  edits=[(C + "counterfactual.py", "            score += self._coef[i] * new_metric\n",
          "            score += self._coef[i] * (new_metric if len(new_index) else x[i])\n            if not len(new_index) and not self.special_missing and x[i] == 0:\n                score += self._coef[i] * 1e-2\n")],
  demo=SC + '''
from optbinning.scorecard import Counterfactual
X, y = frame(1500, 4)
X.loc[:50, "v3"] = np.nan
sc = Scorecard(BinningProcess(list(X)), LogisticRegression()).fit(X, y)
bad = 0
for i in range(8):
    q = X.iloc[[i]]
    yy = 1 - int(sc.predict(q)[0])
    cf = Counterfactual(sc).fit(X)
    cf.generate(q, yy, "binary", 1, max_changes=2)
    if cf.status != "OPTIMAL":
        continue
    d = cf.display(show_only_changes=True, show_outcome=True).iloc[0]
    t = sc.table("detailed")
    z = sc.binning_process_.transform(q).values[0]
    for k, v in enumerate(X):
        if d[v] != "-":
            z[k] = float(t[(t.Variable == v) & (t.Bin == d[v])].WoE.iloc[0])
    p = 1 / (1 + np.exp(-(sc.estimator_.intercept_[0] + sc.estimator_.coef_.ravel() @ z)))
    bad |= abs(p - d["outcome"]) > 1e-6
sys.exit(int(bad))
'''),
 dict(id="P01-block-sample-weight", property="P01",
  needs="several jobs and sample weights",
  breaks="with a dataframe and several jobs the sample weights are lost for the last variable of a block",
  edits=[(B + "binning_process.py", """            dtype, optb = _fit_variable(
                X[name], y, name, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
                max_pvalue_policy, special_codes, split_digits, sample_weight)

        variable_dtypes[name] = dtype
""", """            dtype, optb = _fit_variable(
                X[name], y, name, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
                max_pvalue_policy, special_codes, split_digits,
                sample_weight if i < 2 else None)

        variable_dtypes[name] = dtype
""")],
  demo=SC + '''
X, y = frame(1000, 6)
w = np.random.RandomState(0).randint(1, 5, 1000)
a = BinningProcess(list(X), n_jobs=1).fit(X, y, sample_weight=w)
b = BinningProcess(list(X), n_jobs=2).fit(X, y, sample_weight=w)
bad = any(not a.get_binned_variable(v).binning_table.build().equals(b.get_binned_variable(v).binning_table.build()) for v in X)
sys.exit(int(bad))
'''),
 dict(id="P01-transform-missing-params", property="P01",
  needs="binning_transform_params giving metric_special for one variable only, with another variable after it",
  breaks="a variable without its own parameters inherits those of the variable before it",
  edits=[(B + "binning_process.py", """            params = {}
            if self.binning_transform_params is not None:
                params = self.binning_transform_params.get(name, {})

            variable_metric = params.get("metric", metric)

            tparams = {
                "x": x,
""", """            if not i:
                params = {}
            if self.binning_transform_params is not None:
                params = self.binning_transform_params.get(
                    name, {k: v for k, v in params.items()
                           if k == "metric_missing"})

            variable_metric = params.get("metric", metric)

            tparams = {
                "x": x,
""")],
  demo=SC + '''
X, y = frame(1000, 3)
X.loc[:50] = np.nan
p = BinningProcess(list(X), binning_transform_params={"v0": {"metric_missing": 7}}).fit(X, y)
t = p.transform(X, metric_missing=0)
sys.exit(int(t.v1.iloc[0] != 0))
'''),
 dict(id="P02-top-after-criteria", property="P02",
  needs="two selection metrics, one of them with strategy and top as a fraction",
  breaks="the top fraction is taken over all variables instead of those that satisfy the previous criteria",
  edits=[(B + "binning_process.py", "                        top = int(np.ceil(n_valid * top))\n",
          "                        top = int(np.ceil(self._n_variables * top))\n")],
  demo=SC + '''
X, y = frame(2000, 8)
p = BinningProcess(list(X), selection_criteria={"iv": {"min": .05, "strategy": "highest", "top": .5}}).fit(X, y)
iv = np.array([float(p.get_binned_variable(v).binning_table.iv) for v in X])
n = int((iv >= .05).sum())
sys.exit(int(p.get_support().sum() != int(np.ceil(n * .5))))
'''),
 dict(id="P03-chunk-dtype-object", property="P03",
  needs="transform_disk with metric bins and more than one chunk",
  breaks="every chunk but the first is transformed with the default digits",
  edits=[(B + "binning_process.py", """                    "metric_missing": params.get(
                        "metric_missing", metric_missing),
                    "show_digits": show_digits
                    }
""", """                    "metric_missing": params.get(
                        "metric_missing", metric_missing),
                    "show_digits": show_digits if not k else max(
                        show_digits, 2)
                    }
""")],
  demo=SC + '''
import os, tempfile
X, y = frame(1000, 3)
p = BinningProcess(list(X)).fit(X, y)
with tempfile.TemporaryDirectory() as d:
    X.to_csv(d + "/a.csv", index=False)
    p.transform_disk(d + "/a.csv", d + "/b.csv", 300, metric="bins", show_digits=1)
    g = pd.read_csv(d + "/b.csv")
e = p.transform(X, metric="bins", show_digits=1)
sys.exit(int(not (g.values == e.values).all()))
'''),
 dict(id="T01-gini-order", property="T01",
  needs="tied event rates or bins without non-events",
  breaks="bins without non-events are left out of the Gini coefficient",
  edits=[(B + "metrics.py", "    mask = (event + nonevent) > 0\n    event = event[mask].astype(np.float64)\n",
          "    mask = (event + nonevent > 0) & ((nonevent > 0) | (event < 2))\n    event = event[mask].astype(np.float64)\n")],
  demo=PRE + '''
from optbinning.binning.metrics import gini
from sklearn.metrics import roc_auc_score
e, ne = np.array([10, 5, 0, 7]), np.array([5, 0, 20, 7])
er = e / (e + ne)
s = np.r_[np.repeat(er, e), np.repeat(er, ne)]
yy = np.r_[np.ones(e.sum()), np.zeros(ne.sum())]
sys.exit(int(abs(gini(e, ne) - (2 * roc_auc_score(yy, s) - 1)) > 1e-9))
'''),
]
