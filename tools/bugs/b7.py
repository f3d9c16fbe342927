B = "optbinning/binning/"
S = "optbinning/scorecard/"
PRE = '''
import sys
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
'''
BUGS = [
 dict(id="P01-jobs-shared-params", property="P01",
  needs="n_jobs > 1 and variables fitted by different threads at the same time, with own fit parameters",
  breaks="the threads share one scratch dictionary of parameters, so a variable can be fitted with the parameters of another",
  edits=[(B + "binning_process.py", """    if binning_fit_params is not None:
        params = binning_fit_params.get(name, {})

    if target_dtype == "binary":
        optb = OptimalBinning(
""", """    if binning_fit_params is not None:
        params = _SCRATCH
        params.clear()
        params.update(binning_fit_params.get(name, {}))

    if target_dtype == "binary":
        optb = OptimalBinning(
"""), (B + "binning_process.py", """def _fit_variable(x, y, name, target_dtype, categorical_variables,
""", """_SCRATCH = {}


def _fit_variable(x, y, name, target_dtype, categorical_variables,
""")],
  demo=PRE + '''
import time
from optbinning import BinningProcess, OptimalBinning
r = np.random.RandomState(0)
X = pd.DataFrame(r.rand(400, 6), columns=list("abcdef"))
y = (r.rand(400) < X.a).astype(int).values
bad = 0
init = OptimalBinning.set_params
def slow(self, **p):
    time.sleep(.01)
    return init(self, **p)
import optbinning.binning.binning_process as m
old = m.OptimalBinning.__init__
def late(self, *a, **k):
    time.sleep(.002)
    old(self, *a, **k)
late.__wrapped__ = old
m.OptimalBinning.__init__ = late
sys.setswitchinterval(1e-5)
for k in range(10):
    fp = {v: {"max_n_bins": 2 + (i * 7) % 5} for i, v in enumerate(X)}
    bp = BinningProcess(list(X), n_jobs=3, binning_fit_params=fp).fit(X, y)
    for v in X:
        bad += bp.get_binned_variable(v).max_n_bins != fp[v]["max_n_bins"]
sys.exit(int(bad > 0))
'''),
 dict(id="P01-jobs-weights", property="P01",
  needs="n_jobs > 1, a DataFrame and sample weights",
  breaks="the parallel fit of a DataFrame ignores the sample weights",
  edits=[(B + "binning_process.py", """                        X[names[id_block]], y, names[id_block],
                        self._target_dtype, self.categorical_variables,
                        self.binning_fit_params, self.max_n_prebins,
                        self.min_prebin_size, self.min_n_bins,
                        self.max_n_bins, self.min_bin_size, self.max_bin_size,
                        self.max_pvalue, self.max_pvalue_policy,
                        self.special_codes, self.split_digits, sample_weight)
""", """                        X[names[id_block]], y, names[id_block],
                        self._target_dtype, self.categorical_variables,
                        self.binning_fit_params, self.max_n_prebins,
                        self.min_prebin_size, self.min_n_bins,
                        self.max_n_bins, self.min_bin_size, self.max_bin_size,
                        self.max_pvalue, self.max_pvalue_policy,
                        self.special_codes, self.split_digits)
""")],
  demo=PRE + '''
from optbinning import BinningProcess
r = np.random.RandomState(0)
X = pd.DataFrame(r.rand(400, 4), columns=list("abcd"))
y = (r.rand(400) < X.a).astype(int).values
w = r.randint(1, 5, 400).astype(float)
t = [BinningProcess(list(X), n_jobs=j).fit(X, y, sample_weight=w).get_binned_variable("a").binning_table.build()
     for j in (1, 2)]
sys.exit(int(not t[0].equals(t[1])))
'''),
]
