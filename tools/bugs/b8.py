B = "optbinning/binning/"
S = "optbinning/scorecard/"
PRE = '''
import io
import sys
import re
import warnings
from contextlib import redirect_stdout
warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd

def report(o, level=1):
    s = io.StringIO()
    with redirect_stdout(s):
        o.information(level)
    return s.getvalue()
'''
BUGS = [
 dict(id="I01-merge-adds", property="I01",
  needs="a sketch merged into another one, then a report",
  breaks="add operations of a merged sketch are not counted",
  edits=[(B + "distributed/binning_sketch.py",
          "            self._n_add += optbsketch._n_add\n", "")],
  demo=PRE + '''
from optbinning import OptimalBinningSketch
r = np.random.RandomState(0)
x = r.randn(400)
y = (r.rand(400) < 1 / (1 + np.exp(-x))).astype(int)
a, b = OptimalBinningSketch(), OptimalBinningSketch()
a.add(x[:200], y[:200])
b.add(x[200:300], y[200:300])
b.add(x[300:], y[300:])
a.merge(b)
a.solve()
n = int(re.search(r"Add operations +(\\d+)", report(a))[1])
sys.exit(int(n != 3))
'''),
 dict(id="I01-last-solve-time", property="I01",
  needs="several solves of one sketch",
  breaks="the streaming time covers only the last solve but is divided by the number of all solves",
  edits=[(B + "distributed/binning_sketch.py",
          "self._time_streaming_solve += self._time_total",
          "self._time_streaming_solve = self._time_total")],
  demo=PRE + '''
import time
from optbinning import OptimalBinningSketch
from ortools.sat.python import cp_model
old = cp_model.CpSolver.Solve
def slow(self, *a, **k):
    time.sleep(.2)
    return old(self, *a, **k)
cp_model.CpSolver.Solve = slow
r = np.random.RandomState(0)
x = r.randn(400)
y = (r.rand(400) < 1 / (1 + np.exp(-x))).astype(int)
a = OptimalBinningSketch()
a.add(x, y)
for _ in range(3):
    a.solve()
t = float(re.search(r"Time solve +([\\d.]+) sec", report(a))[1])
sys.exit(int(t < .6))
'''),
 dict(id="I01-flag-identity", property="I01",
  needs="an option given explicitly with the value of the default",
  breaks="an option equal to its default is flagged as changed by the user",
  edits=[("optbinning/information.py", "value != user_value):",
          "value is not user_value):")],
  demo=PRE + '''
from optbinning import OptimalBinning
r = np.random.RandomState(0)
x = r.randn(400)
y = (r.rand(400) < 1 / (1 + np.exp(-x))).astype(int)
o = OptimalBinning(name="v", min_prebin_size=float("0.05"), time_limit=100.0).fit(x, y)
t = report(o, 2)
f = re.search(r"min_prebin_size +\\S+ +\\* (\\S)", t)[1]
sys.exit(int(f != "d"))
'''),
 dict(id="I01-verbose-outliers", property="I01",
  needs="verbose mode with an outlier detector that finds outliers and a minimum bin size",
  breaks="in verbose mode the number of samples excludes the outliers, so size limits differ from the silent fit",
  edits=[(B + "continuous_binning.py", """                n_outlier = self._n_samples-(n_clean + n_missing + n_special)
""", """                n_outlier = self._n_samples
                self._n_samples = n_clean + n_missing + n_special
                n_outlier -= self._n_samples
""")],
  demo=PRE + '''
from optbinning import ContinuousOptimalBinning
r = np.random.RandomState(0)
bad = 0
for seed in range(30):
    r = np.random.RandomState(seed)
    x = r.standard_t(1, 300)
    y = np.clip(x, -3, 3) + r.randn(300)
    out = []
    for v in (False, True):
        with redirect_stdout(io.StringIO()):
            o = ContinuousOptimalBinning(
                outlier_detector="zscore", min_bin_size=.2, max_n_prebins=12,
                verbose=v).fit(x, y)
        out.append(list(o.splits))
    bad += out[0] != out[1]
sys.exit(int(bad > 0))
'''),
 dict(id="I01-declared-categories", property="I01",
  needs="a scorecard with a categorical variable recognised by its values, not declared",
  breaks="the report counts only declared categorical variables",
  edits=[(S + "scorecard.py", """        n_categorical = self.binning_process_._n_variables - n_numerical
""", """        n_categorical = len(self.binning_process_.categorical_variables or [])
""")],
  demo=PRE + '''
from optbinning import BinningProcess, Scorecard
from sklearn.linear_model import LogisticRegression
r = np.random.RandomState(0)
X = pd.DataFrame({"a": r.randn(400), "b": r.choice(list("xyz"), 400)})
y = (r.rand(400) < 1 / (1 + np.exp(-X.a - (X.b == "x")))).astype(int)
s = Scorecard(BinningProcess(["a", "b"]), LogisticRegression()).fit(X, y)
n = int(re.search(r"Number of categorical +(\\d+)", report(s))[1])
sys.exit(int(n != 1))
'''),
]
