"""C06: states follow the equations of motion."""
import numpy as np
from hypothesis import strategies as st

from props import c07
from vlib import gen, sim, specs
from vlib.core import Skip, Violation

ID = "C06"
RULE = ("A case is a generated system with smooth bounded state equations, coupled through mappings and computed variables, which is "
        "simulated with tight tolerances and compared at every stored time with an independent integration (scipy, order 8) of "
        "the reference model. Non-trivial: states change by more than 1e-3 and depend on each other or on the time.")
OPTS = dict(c07.OPTS, smooth=True, ifs=False, max_maps=5)


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    kw = dict(method=draw(st.sampled_from(["RK45", "RK45", "BDF"])), rtol=1e-6, atol=1e-8)
    if draw(st.integers(0, 3)) == 0:
        kw["max_step"] = draw(st.sampled_from([0.5, 0.1, 0.07]))
    if draw(st.integers(0, 5)) == 0:
        kw["initial_step"] = draw(st.sampled_from([0.01, 0.001]))
    return dict(spec=spec, grid=draw(c07.grid()), solver=kw)


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def exact(spec, times, rtol):
    from scipy.integrate import solve_ivp
    ref = specs.Ref(spec)
    xs = ref.states()
    count = [0]

    def f(t, y):
        count[0] += 1
        if count[0] > 2500:
            raise Skip
        env = ref.eval(t, dict(zip(xs, y)))
        return np.array([float(env[x + "_dot"]) for x in xs])

    y0 = np.array([float(ref.init[x]) for x in xs])
    r = solve_ivp(f, (times[0], times[-1]), y0, method="DOP853", t_eval=times, rtol=rtol, atol=1e-10)
    if not r.success:
        raise Skip
    return xs, r.y


def check(case, ctx):
    spec, g = case["spec"], case["grid"]
    times = np.linspace(g["t0"], g["t1"], g["num"] + 1)
    if not specs.Ref(spec).states():
        raise Skip
    xs, y = exact(spec, times, 1e-9)
    _, y2 = exact(spec, times, 1e-6)
    if np.max(np.abs(y - y2)) > 3e-5:
        raise Skip  # sensitive
    b = specs.build(spec, ctx)
    h = sim.run(b.model, g["t0"], g["t1"], g["num"], strict=True, **case["solver"])
    if len(h.time) != len(times) or not np.allclose(h.time, times, rtol=1e-9, atol=1e-9):
        raise Violation(f"times of the history are {h.time.tolist()}, requested were {times.tolist()}")
    worst = 0.0
    for i, x in enumerate(xs):
        err = np.abs(h[x] - y[i]) / (1 + np.abs(y[i]))
        j = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
        worst = max(worst, err[j])
        if not err[j] < 2e-2:
            raise Violation(f"{x} at t={times[j]} is {h[x][j]!r}, the exact solution is {float(y[i][j])!r} "
                            f"(method {case['solver']['method']})")
    moved = float(np.max(np.abs(y[:, -1] - y[:, 0]))) > 1e-3
    lb = [case["solver"]["method"], "err<1e-%d" % min(8, int(-np.log10(worst + 1e-12)))] + (["maps"] if spec["maps"] else [])
    return dict(labels=lb, nontrivial=moved)
