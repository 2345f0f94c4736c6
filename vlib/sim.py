"""Running simulations and reading their history by path."""
import contextlib
import io

import numpy as np


class History:
    """history of a finished simulation: h['path'] / h['time'] -> array"""

    def __init__(self, model):
        df = model.historian_df
        self.time = np.array(df["time"], dtype=float)
        self.model = model
        self.df = df
        self.cols = {}
        for p in model.logged_variables:
            self.cols[p] = np.array(df[p], dtype=float)

    def __getitem__(self, k):
        return self.time if k == "time" else self.cols[k]

    def __contains__(self, k):
        return k in self.cols

    def at(self, t, tol=1e-9):
        """indices of the rows at time t"""
        return [int(i) for i in np.where(np.abs(self.time - t) <= tol * max(1.0, abs(t)))[0]]

    def row(self, i):
        return {k: float(v[i]) for k, v in self.cols.items()}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        yield


def simulation(model, t0=0.0, t1=1.0, num=4, **kw):
    """a Simulation of the model (the class of the kernel is not jitted, see compiled())"""
    from numerous.engine.simulation import Simulation
    model.use_llvm = False
    with quiet():
        return Simulation(model, t_start=t0, t_stop=t1, num=num, **kw)


def solve(s, strict=False):
    """solve; the solver package gives up where the right hand side jumps (unless strict, this is no failure)"""
    from vlib.core import Skip
    try:
        with quiet():
            s.solve()
    except ValueError as e:
        if not strict and "dt shortened below min_dt" in str(e):
            raise Skip
        raise


def run(model, t0=0.0, t1=1.0, num=4, strict=False, **kw):
    s = simulation(model, t0, t1, num, **kw)
    solve(s, strict)
    return History(model)


def same_history(a, b, rtol=1e-9, atol=1e-9, what="", names=None):
    """text of the first difference of two histories, or None"""
    if len(a.time) != len(b.time) or not np.allclose(a.time, b.time, rtol=1e-12, atol=1e-12):
        return f"{what}: times differ: {a.time.tolist()[:40]} and {b.time.tolist()[:40]}"
    names = names or {k: k for k in a.cols}
    for k, k2 in names.items():
        if k2 not in b.cols:
            return f"{what}: {k2} is missing"
        ok = np.isclose(a.cols[k], b.cols[k2], rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            i = int(np.argmin(ok))
            return f"{what}: {k} at t={a.time[i]} (row {i}) is {a.cols[k][i]!r} and {b.cols[k2][i]!r}"
    return None
