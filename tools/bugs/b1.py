B = "optbinning/binning/"
PRE = '''
import sys
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
'''
BUGS = [
 dict(id="B01-pvalue-all-last", property="B01",
  needs="max_pvalue_policy='all' and a p-value violation whose right-hand bin is one unmerged pre-bin",
  breaks="non-adjacent bins whose event rates are not significantly different are returned although max_pvalue with policy 'all' was requested",
  edits=[(B + "model_data.py", """                for j in range(i + 1, n):
                    for k in range(i + 1, j + 1):
                        ev2 = E[j][k]
                        nev2 = NE[j][k]
""", """                for j in range(i + 1, n):
                    for k in range(i + 1, max(j, i + 2)):
                        ev2 = E[j][k]
                        nev2 = NE[j][k]
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
x, y = [], []
for i, (n, e) in enumerate([(200, 20), (200, 120), (200, 26), (200, 140), (200, 24)]):
    x += [i] * n
    y += [1] * e + [0] * (n - e)
x, y = np.array(x, float), np.array(y)
o = OptimalBinning(user_splits=[.5, 1.5, 2.5, 3.5], monotonic_trend=None, max_pvalue=.05,
                   max_pvalue_policy="all")
o.fit(x, y)
t = o.binning_table.build().iloc[:-3]
e, n = t["Event"].to_numpy(float), t["Count"].to_numpy(float)
for i in range(len(e)):
    for j in range(i):
        p = (e[i] + e[j]) / (n[i] + n[j])
        z = abs(e[i] / n[i] - e[j] / n[j]) / np.sqrt(p * (1 - p) * (1 / n[i] + 1 / n[j]))
        if z < 1.95:
            print("bins", i, j, "not different: z =", z)
            sys.exit(1)
'''),
 dict(id="B02-bin-size-slack", property="B02",
  needs="both min_bin_size and max_bin_size requested, with the best merging holding a bin of exactly the minimum size",
  breaks="a feasible better merging is excluded: the returned 'OPTIMAL' solution is not optimal (bins of exactly the minimum size are refused)",
  edits=[(B + "cp.py", """            bin_size_diff = self.max_bin_size - self.min_bin_size

            # Range constraints auxiliary variables
            u = {}
            for i in range(n):
                u[i] = model.NewIntVar(0, bin_size_diff, "u[{}]".format(i))

        return x, y, t, d, u, bin_size_diff
""", """            bin_size_diff = max(self.max_bin_size - self.min_bin_size - 1, 0)

            # Range constraints auxiliary variables
            u = {}
            for i in range(n):
                u[i] = model.NewIntVar(0, bin_size_diff, "u[{}]".format(i))

        return x, y, t, d, u, bin_size_diff
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
x, y = [], []
for i, (n, e) in enumerate([(100, 10), (200, 60), (200, 100), (200, 150)]):
    x += [i] * n
    y += [1] * e + [0] * (n - e)
x, y = np.array(x, float), np.array(y)
o = OptimalBinning(user_splits=[.5, 1.5, 2.5], monotonic_trend="ascending",
                   min_bin_size=100 / 700, max_bin_size=.6)
o.fit(x, y)
print(o.status, o.splits)
sys.exit(not (o.status == "OPTIMAL" and len(o.splits) == 3))
'''),
 dict(id="B05-missing-follows-special", property="B05",
  needs="metric='indices' with metric_special='empirical' and an integer metric_missing (or the other way round), and missing values",
  breaks="missing values receive the bin index of the missing row although a number was requested",
  edits=[(B + "transformations.py", """    if (metric_missing == "empirical" or
        (metric == "indices" and not isinstance(metric_missing, int)) or
            metric == "bins"):
        x_transform[missing_mask] = metric_value[n_bins + n_special]
    else:
        x_transform[missing_mask] = metric_missing

    return x_transform


def transform_binary_target""", """    if (metric_missing == "empirical" or
        (metric == "indices" and not isinstance(metric_special, int)) or
            metric == "bins"):
        x_transform[missing_mask] = metric_value[n_bins + n_special]
    else:
        x_transform[missing_mask] = metric_missing

    return x_transform


def transform_binary_target""")],
  demo=PRE + '''
from optbinning import OptimalBinning
rng = np.random.default_rng(0)
x = rng.normal(size=1000)
y = (rng.random(1000) < 1 / (1 + np.exp(-x))).astype(int)
x[:200] = np.nan
o = OptimalBinning().fit(x, y)
i = o.transform(x, metric="indices", metric_special="empirical", metric_missing=-7)
sys.exit(int(not (i[:200] == -7).all()))
'''),
 dict(id="B03-special-last-code", property="B03",
  needs="special_codes given as a dict in which a group is a numpy array / list and sample weights are supplied",
  breaks="records of grouped special codes are counted without their weight",
  edits=[(B + "binning_statistics.py", "__TODO__", "")], demo=""),
 dict(id="C02-zeros-merge", property="C02",
  needs="two or more pre-bins merged after a selected bin",
  breaks="the zeros count of a merged bin carries over zeros of the previous bin",
  edits=[(B + "binning_statistics.py", """            max_t.append(max(accum_max_t, max_target[i]))

            accum_r = 0
            accum_s = 0
            accum_ss = 0
            accum_z = 0
            accum_min_t = np.inf
            accum_max_t = -np.inf
""", """            max_t.append(max(accum_max_t, max_target[i]))

            accum_r = 0
            accum_s = 0
            accum_ss = 0
            accum_z = 0
            accum_min_t = np.inf
            accum_max_t = min(accum_max_t, max_target[i])
""")],
  demo=PRE + '''
from optbinning import ContinuousOptimalBinning
x, y = [], []
for i, v in enumerate([[9, 10, 11], [9, 10, 12], [4, 5, 6], [1, 2, 3]]):
    x += [i] * 30
    y += v * 10
x, y = np.array(x, float), np.array(y, float)
o = ContinuousOptimalBinning(user_splits=[.5, 1.5, 2.5], max_n_bins=3)
o.fit(x, y)
t = o.binning_table.build().iloc[:-3]
b = np.digitize(x, o.splits)
for i in range(len(t)):
    if t["Max"].iloc[i] != y[b == i].max():
        print("bin", i, t["Max"].iloc[i], y[b == i].max())
        sys.exit(1)
sys.exit(len(o.splits) != 2)
'''),
 dict(id="M02-others-weights", property="M02",
  needs="more than one special code group given as a dict, with codes listed in lists",
  breaks="the records of a special group given as a list are only counted for the first code in the list",
  edits=[(B + "binning_statistics.py", """        n_event = []
        xt = pd.Series(x)
        for s in special_codes.values():
            sl = s if isinstance(s, (list, np.ndarray)) else [s]
            mask = xt.isin(sl).values
            n_ev = [target_info(y[mask], cl)[0] for cl in classes]
            n_event.append(n_ev)
""", """        n_event = []
        xt = pd.Series(x)
        for s in special_codes.values():
            sl = s if isinstance(s, (list, np.ndarray)) else [s]
            mask = xt.between(min(sl), max(sl)).values
            n_ev = [target_info(y[mask], cl)[0] for cl in classes]
            n_event.append(n_ev)
""")],
  demo=PRE + '''
from optbinning import MulticlassOptimalBinning
rng = np.random.default_rng(0)
x = rng.normal(size=900)
y = np.digitize(x + rng.normal(size=900), [-.5, .5])
x[:40] = -99
x[40:100] = -98
x[100:120] = -97
o = MulticlassOptimalBinning(special_codes={"a": [-99, -97], "b": -98})
o.fit(x, y)
t = o.binning_table.build()
print(t)
sys.exit(not (t["Count"].iloc[-4:-2].tolist() == [60, 60] and t["Count"].iloc[-1] == 900))
'''),
]
BUGS = [b for b in BUGS if b["edits"][0][1] != "__TODO__"]
