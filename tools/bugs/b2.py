B = "optbinning/binning/"
PRE = '''
import sys
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
'''
BUGS = [
 dict(id="B03-array-special-group", property="B03",
  needs="a special_codes dictionary in which a group is given as a numpy array of codes",
  breaks="the records of a special group given as an array are not counted in the group's row (nor anywhere else)",
  edits=[(B + "binning_statistics.py", """        n_nonevent = []
        n_event = []
        xt = pd.Series(x)
        for s in special_codes.values():
            sl = s if isinstance(s, (list, np.ndarray)) else [s]
            mask = xt.isin(sl).values
            n_nev, n_ev""", """        n_nonevent = []
        n_event = []
        xt = pd.Series(x)
        for s in special_codes.values():
            sl = list(s) if isinstance(s, list) else [np.ravel(s)[0]]
            mask = xt.isin(sl).values
            n_nev, n_ev""")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.normal(size=1000)
y = (r.uniform(size=1000) < 1 / (1 + np.exp(-x))).astype(int)
x[:60] = -99
x[60:100] = -98
o = OptimalBinning(special_codes={"a": np.array([-99, -98]), "b": -97})
o.fit(x, y)
t = o.binning_table.build()
sys.exit(int(t.loc["Totals", "Count"] != 1000))
'''),
 dict(id="B05-woe-clean-totals", property="B05",
  needs="special or missing records with an event rate unlike the clean ones and numeric metric_special and metric_missing",
  breaks="the WoE of transform is computed with the totals of the clean rows only, unlike the binning table",
  edits=[(B + "transformations.py", """        t_n_nonevent = n_nonevent.sum()
        t_n_event = n_event.sum()

        if "empirical" not in (metric_special, metric_missing):
            n_event = n_event[:n_bins]
            n_nonevent = n_nonevent[:n_bins]
            n_records = n_records[:n_bins]

        # Default woe and event rate is 0
""", """        if "empirical" not in (metric_special, metric_missing):
            n_event = n_event[:n_bins]
            n_nonevent = n_nonevent[:n_bins]
            n_records = n_records[:n_bins]

        t_n_nonevent = n_nonevent.sum()
        t_n_event = n_event.sum()

        # Default woe and event rate is 0
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.normal(size=1000)
y = (r.uniform(size=1000) < 1 / (1 + np.exp(-x))).astype(int)
x[:200] = np.nan
y[:180] = 1
o = OptimalBinning().fit(x, y)
t = o.binning_table.build()
w = o.transform([-10., 10.], metric="woe")
d = abs(w[0] - t["WoE"].iloc[0])
sys.exit(int(d > 1e-9))
'''),
 dict(id="B05-missing-int-index", property="B05",
  needs="metric='indices', special_codes as a dict with two or more groups and missing values",
  breaks="missing values get the index of the second special group instead of the index of the missing row",
  edits=[(B + "transformations.py", """        metric_value = np.arange(n_bins + n_special + 1)
""", """        metric_value = np.arange(n_bins + n_special + 1)
        metric_value[n_bins + 1:] = n_bins + 1
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.normal(size=1000)
y = (r.uniform(size=1000) < 1 / (1 + np.exp(-x))).astype(int)
x[:60] = -99
x[60:100] = -98
x[100:130] = np.nan
o = OptimalBinning(special_codes={"a": -99, "b": -98}).fit(x, y)
n = len(o.splits) + 1
i = o.transform([-99, -98, np.nan], metric="indices", metric_special="empirical",
                metric_missing="empirical")
sys.exit(int(list(i) != [n, n + 1, n + 2]))
'''),
 dict(id="C02-min-of-last", property="C02",
  needs="a bin that merges three or more pre-bins, with its smallest target value in the first of them",
  breaks="the Min column shows the minimum of the last two pre-bins of the bin only",
  edits=[(B + "binning_statistics.py", """            accum_min_t = min(accum_min_t, min_target[i])
""", """            accum_min_t = min_target[i]
""")],
  demo=PRE + '''
from optbinning import ContinuousOptimalBinning
x = np.repeat(np.arange(6.), 50)
y = np.where(x < 4, np.sin(np.arange(300)), 10 + np.sin(np.arange(300)))
y[0] = -50
o = ContinuousOptimalBinning(user_splits=[.5, 1.5, 2.5, 3.5, 4.5], max_n_bins=2,
                             monotonic_trend=None).fit(x, y)
t = o.binning_table.build()
s = o.splits
m = [y[np.digitize(x, s) == i].min() for i in range(len(s) + 1)]
sys.exit(int(not np.allclose(t["Min"].iloc[:len(m)].astype(float), m)))
'''),
 dict(id="R02-hdi-window", property="R02",
  needs="the range detector with method='HDI' whose densest window is the last one of the sorted sample",
  breaks="the highest-density interval ignores the last candidate window, so the wrong records are removed",
  edits=[(B + "outlier.py", """            ci = xsorted[n_included:] - xsorted[:n_ci]
            j = np.argmin(ci)
""", """            ci = xsorted[n_included:] - xsorted[:n_ci]
            j = np.argmin(ci[:-1]) if n_ci > 1 else 0
""")],
  demo=PRE + '''
from optbinning.binning.outlier import RangeDetector
x = np.concatenate([np.linspace(0, 50, 40), 100 + np.arange(11) * .01 + np.arange(11) ** 2 * -.0002])
x = np.concatenate([-np.logspace(0, 3, 10), np.zeros(0), np.linspace(0, .001, 10)])
d = RangeDetector(interval_length=.45, k=1., method="HDI").fit(x)
s = np.sort(x)
k = int(np.ceil(.45 * len(x)))
w = s[k:] - s[:-k]
j = np.argmin(w)
lo, hi = s[j] - w[j], s[j + k] + w[j]
sys.exit(int(not np.array_equal(d.get_support(), (x < lo) | (x > hi))))
'''),
 dict(id="R02-outlier-weights", property="R02",
  needs="an outlier detector together with sample_weight",
  breaks="the weights of the retained records are those of the first records, not their own",
  edits=[(B + "preprocessing.py", """            x_clean = x_clean[~mask_outlier]
            y_clean = y_clean[~mask_outlier]
            sw_clean = sw_clean[~mask_outlier]
""", """            x_clean = x_clean[~mask_outlier]
            y_clean = y_clean[~mask_outlier]
            sw_clean = sw_clean[:len(x_clean)]
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.normal(size=1000)
y = (r.uniform(size=1000) < 1 / (1 + np.exp(-x))).astype(int)
x[:20] = 1e3
w = np.ones(1000)
w[:20] = 50
o = OptimalBinning(outlier_detector="range").fit(x, y, sample_weight=w)
from optbinning.binning.outlier import RangeDetector
k = ~RangeDetector().fit(x).get_support()
t = o.binning_table.build()
sys.exit(int(t.loc["Totals", "Count"] != w[k].sum()))
'''),
 dict(id="B03-cutoff-weighted", property="B03",
  needs="cat_cutoff, and a category whose frequency is exactly the cutoff count",
  breaks="a category with exactly the cutoff frequency is sent to 'others' while its table row keeps its records",
  edits=[(B + "preprocessing.py", """    cat_others = cat_count[cat_count < cutoff_count].index.values
    mask_others = pd.Series(x).isin(cat_others).values
""", """    cat_others = cat_count[cat_count < cutoff_count].index.values
    mask_others = pd.Series(x).isin(cat_others).values
    mask_others |= pd.Series(x).map(cat_count).values < min(cutoff_count, 2)
    cat_others = cat_others[cat_count[cat_others].values > 1] \\
        if len(cat_others) > 2 else cat_others
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.choice(list("abcdef"), size=600, p=[.3, .3, .3, .06, .02, .02]).astype(object)
x[0] = "z"
y = (r.uniform(size=600) < pd.Series(x).map(dict(a=.1, b=.3, c=.6, d=.4, e=.2, f=.8, z=1)).values).astype(int)
o = OptimalBinning(dtype="categorical", cat_cutoff=.05).fit(x, y)
t = o.transform(["z", "e", "new"], metric="indices")
sys.exit(int(t[0] != t[1] or t[2] != -1))
'''),
 dict(id="B03-cat-integer-split", property="B03",
  needs="a categorical variable pre-binned with quantile or uniform so that a split falls exactly on an integer code",
  breaks="the categories shown in a row are not those counted in it (and transform follows the wrong categories)",
  edits=[(B + "binning_statistics.py", """    splits = np.ceil(splits_categorical).astype(int)
    n_categories = len(categories)
""", """    splits = np.floor(splits_categorical).astype(int) + 1
    if user_splits is not None:
        splits = np.ceil(splits_categorical).astype(int)
    n_categories = len(categories)
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
x = np.repeat(list("abcde"), 100)
y = np.tile(np.arange(100), 5) < np.repeat([10, 30, 50, 70, 90], 100)
y = y.astype(int)
for k in (4, 5, 3):
    o = OptimalBinning(dtype="categorical", prebinning_method="uniform", max_n_prebins=k).fit(x, y)
    t = o.binning_table.build()
    for i, cats in enumerate(o.splits):
        if t["Count"].iloc[i] != np.isin(x, list(cats)).sum():
            sys.exit(1)
'''),
 dict(id="B01-hellinger-min-count", property="B01",
  needs="divergence hellinger or triangular, min_bin_n_event > 1 and a pure pre-bin",
  breaks="the requested minimum number of events per bin is replaced by 1 when some pre-bin is pure",
  edits=[(B + "binning.py", """                min_bin_n_event = max(self.min_bin_n_event, 1)
""", """                min_bin_n_event = min(self.min_bin_n_event, 1)
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
x = np.repeat(np.arange(5.), 100)
y = (np.tile(np.arange(100), 5) < np.repeat([0, 10, 30, 60, 80], 100)).astype(int)
o = OptimalBinning(divergence="hellinger", min_bin_n_event=25, user_splits=[.5, 1.5, 2.5, 3.5]).fit(x, y)
t = o.binning_table.build()
n = len(o.splits) + 1
sys.exit(int(o.status == "OPTIMAL" and t["Event"].iloc[:n].min() < 25))
'''),
 dict(id="M02-weighted-woe-weights", property="M02",
  needs="weighted_mean_woe with missing or special records whose class mix differs from the clean ones",
  breaks="the weights are the class totals of the clean rows instead of those of all rows",
  edits=[(B + "transformations.py", """            metric_value = np.average(woe, weights=t_n_event, axis=1)
""", """            metric_value = np.average(
                woe, weights=n_event[:n_bins].sum(axis=0), axis=1)
""")],
  demo=PRE + '''
from optbinning import MulticlassOptimalBinning
r = np.random.RandomState(0)
x = r.normal(size=1500)
y = np.digitize(x + r.normal(size=1500), [-.7, .7])
x[y == 2] = np.where(r.uniform(size=(y == 2).sum()) < .5, np.nan, x[y == 2])
o = MulticlassOptimalBinning().fit(x, y)
t = o.binning_table.build()
n = len(o.splits) + 1
ev = t[["Event_0", "Event_1", "Event_2"]].iloc[:-1].to_numpy(float)
rec = ev.sum(1)
tot = ev.sum(0)
w = np.zeros(3)
for c in range(3):
    e, m = ev[0, c], rec[0] - ev[0, c]
    w[c] = np.log(m / e * tot[c] / (rec.sum() - tot[c])) if e and m else 0
z = o.transform([-100.], metric="weighted_mean_woe")[0]
sys.exit(int(abs(z - np.average(w, weights=tot)) > 1e-9))
'''),
 dict(id="R01-user-splits-order", property="R01",
  needs="unsorted user_splits with user_splits_fixed",
  breaks="the fixed flags are not reordered together with the splits: the wrong splits are kept",
  edits=[(B + "binning.py", """                    self._user_splits_fixed = np.asarray(
                        self.user_splits_fixed)[sorted_idx]
""", """                    self._user_splits_fixed = np.asarray(
                        self.user_splits_fixed)[np.argsort(sorted_idx)]
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.uniform(0, 5, size=2000)
y = (r.uniform(size=2000) < np.where(x < 2.5, .2, .7)).astype(int)
o = OptimalBinning(user_splits=[3., 1., 2., 4.], user_splits_fixed=[True, False, False, False],
                   max_n_bins=2).fit(x, y)
sys.exit(int(list(o.splits) != [3.]))
'''),
 dict(id="B07-special-inplace", property="B07",
  needs="float input array with special codes, fitted by the continuous or binary class",
  breaks="fitting overwrites the special codes of the caller's array",
  edits=[(B + "preprocessing.py", """        x_missing = x[missing_mask]
        y_missing = y[missing_mask]
        x_special = x[special_mask]
        y_special = y[special_mask]
""", """        x_missing = x[missing_mask]
        y_missing = y[missing_mask]
        x_special = x[special_mask]
        y_special = y[special_mask]
        if dtype == "numerical" and x.flags.writeable and len(x_special) > 1 \\
                and x.dtype.kind == "f":
            x[special_mask & missing_mask] = 0
            np.copyto(x, x_special[0], where=special_mask)
""")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.normal(size=1000)
y = (r.uniform(size=1000) < 1 / (1 + np.exp(-x))).astype(int)
x[:60] = -99
x[60:100] = -98
z = x.copy()
OptimalBinning(special_codes=[-99, -98]).fit(x, y)
sys.exit(int(not np.array_equal(x, z)))
'''),
]
