"""Second opinion on linear-solver results.

`watching()` records every model handed to pywraplp.Solver.Solve with the
status and objective it reported; `solver_fault()` solves the recorded models
with SCIP and tells whether the first solver's answer was wrong (a defect of
the third-party solver, not of the model)."""
import contextlib

from ortools.linear_solver import pywraplp
from ortools.linear_solver.python import model_builder as mb

LIMIT = 6


@contextlib.contextmanager
def watching():
    seen = []
    orig = pywraplp.Solver.Solve

    def Solve(self, *a, **k):
        st = orig(self, *a, **k)
        if len(seen) < LIMIT:
            good = st in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE)
            seen.append((self.ExportModelAsMpsFormat(True, False), st,
                         self.Objective().Value() if good else None))
        return st
    pywraplp.Solver.Solve = Solve
    try:
        yield seen
    finally:
        pywraplp.Solver.Solve = orig


def solver_fault(seen, tol=1e-5):
    import os
    import tempfile
    for text, st, val in seen:
        fd, path = tempfile.mkstemp(suffix=".mps")
        try:
            with os.fdopen(fd, "w") as f:
                f.write(text)
            m = mb.Model()
            if not m.import_from_mps_file(path):
                continue
            s = mb.Solver("scip")
            s.set_time_limit_in_seconds(20)
            r = s.solve(m)
        finally:
            os.unlink(path)
        name = str(r).split(".")[-1]
        if val is None and name in ("OPTIMAL", "FEASIBLE"):
            return True
        if val is not None and name == "OPTIMAL" and \
                s.objective_value < val - tol * (1 + abs(val)):
            return True
    return False
