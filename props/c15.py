"""C15: stepping a simulation is solving it in parts."""
import numpy as np
from hypothesis import strategies as st

from props import c06, c07
from vlib import ext, gen, sim, specs
from vlib.core import Skip, Violation

ID = "C15"
RULE = ("A case is a generated smooth system (part of them with external data) which is simulated by step_solve with generated step "
        "sizes, parameters being changed between steps; rows are compared with the reference evaluated at their time and state, "
        "and states with an independent integration of each step. Non-trivial: 3 steps or more, states move.")
OPTS = dict(c06.OPTS, max_maps=4)


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    fr = []
    if draw(st.integers(0, 3)) == 0:
        fr = draw(ext.frames(spec, nframes=1))
    t = ext.span(fr)[0] if fr else draw(st.sampled_from([0.0, 0.0, 1.0, 2.5]))
    free = [p for p in ext.targets_of(spec) if p not in {c[2] for f in fr for c in f["cols"]}]
    equal = draw(st.booleans())
    dt = draw(st.sampled_from([0.1, 0.25, 0.5]))
    steps = []
    t0 = t
    for i in range(draw(st.integers(1, 10))):
        d = dt if equal else draw(st.sampled_from([0.05, 0.1, 0.25, 0.5, 0.3]))
        if fr and t + d > ext.span(fr)[1]:
            break
        t += d
        w = []
        if i and free and draw(st.integers(0, 2)) == 0:
            w.append([draw(st.sampled_from(["item", "set", "update"])), draw(st.sampled_from(free)), draw(gen.fnum)])
        steps.append(dict(dt=d, set=w))
    kw = dict(method="RK45", rtol=1e-6, atol=1e-8)
    if draw(st.integers(0, 3)) == 0:
        kw["max_step"] = draw(st.sampled_from([0.1, 0.07]))
    if not any(s["set"] for s in steps) and not fr and draw(st.booleans()):
        kw["method"] = "BDF"
    return dict(spec=spec, frames=fr, t0=t0, steps=steps, solver=kw, num=draw(st.sampled_from([1, 3, 100])))


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def check(case, ctx):
    from scipy.integrate import solve_ivp
    spec, fr = case["spec"], case["frames"]
    if not case["steps"] or not specs.Ref(spec).states():
        raise Skip
    kw = {}
    if fr:
        from numerous.utils.data_loader import InMemoryDataLoader
        kw = dict(sub_kw=ext.sub_kw(fr, lambda f: (ext.element(f), InMemoryDataLoader(ext.dataframe(f)))))
    b = specs.build(spec, ctx, **kw)
    m = b.model
    end = case["t0"] + sum(s["dt"] for s in case["steps"])
    s = sim.simulation(m, case["t0"], end, case["num"], **case["solver"])
    ref = specs.Ref(spec)
    xs = ref.states()
    count = [0]

    def data(t):
        for f in fr:
            for col in f["cols"]:
                ref.env[col[2]] = np.float64(ext.expected(f, col, t)[0])

    def f(t, y):
        count[0] += 1
        if count[0] > 4000:
            raise Skip
        data(t)
        env = ref.eval(t, dict(zip(xs, y)))
        return np.array([float(env[x + "_dot"]) for x in xs])

    t = case["t0"]
    y = np.array([float(ref.init[x]) for x in xs])
    y0 = y
    data(t)
    want = [(t, dict(ref.eval(t, dict(zip(xs, y)))))]
    changes = 0
    for i, stp in enumerate(case["steps"]):
        for k, p, v in stp["set"]:
            changes += 1
            if k == "item":
                m.update_local_variables()
                m.path_to_variable[p].value = v
                m.update_all_variables()
            elif k == "set":
                m.set_variables({p: v})
            else:
                m.update_variables({p: v})
            ref.env[p] = np.float64(v)
        t1 = t + stp["dt"]
        with sim.quiet():
            out = s.step_solve(t, stp["dt"])
        if abs(out[0] - t1) > 1e-9 or abs(out[1] - t1) > 1e-9:
            raise Violation(f"step {i} from {t} by {stp['dt']} returns {out}")
        if not fr:
            r = solve_ivp(f, (t, t1), y, method="DOP853", rtol=1e-9, atol=1e-10)
            r2 = solve_ivp(f, (t, t1), y, method="DOP853", rtol=1e-6, atol=1e-10)
            if not r.success or np.max(np.abs(r.y[:, -1] - r2.y[:, -1])) > 3e-5:
                raise Skip
            y = r.y[:, -1]
        t = t1
        want.append((t, dict(ref.eval(t, dict(zip(xs, y)))) if not fr else None))
    with sim.quiet():
        m.create_historian_df()
    h = sim.History(m)
    if len(h.time) != len(want) or not np.allclose(h.time, [w[0] for w in want], rtol=1e-9, atol=1e-9):
        raise Violation(f"rows are at {h.time.tolist()}, steps ended at {[w[0] for w in want]}")
    if fr:
        ext.check_history(spec, fr, h) if not changes else None
    else:
        for i, (t, env) in enumerate(want):
            row = h.row(i)
            for p in specs.all_vars(spec):
                if p in xs and not abs(row[p] - float(env[p])) < 2e-2 * (1 + abs(float(env[p]))):
                    raise Violation(f"row {i}: {p} at t={t} is {row[p]!r}, the exact solution is {float(env[p])!r}")
    # each row is consistent: evaluate with the values of the row itself
    ref2 = specs.Ref(spec)
    inputs = ext.targets_of(spec)
    for i in range(len(h.time)):
        row = h.row(i)
        for p in inputs:
            ref2.env[p] = np.float64(row[p])
            if not fr and not specs.close(row[p], float(want[i][1][p])):
                raise Violation(f"row {i}: {p} is {row[p]!r}, it was set to {float(want[i][1][p])!r}")
        env = ref2.eval(h.time[i], {x: row[x] for x in xs})
        for p in specs.all_vars(spec):
            if not specs.close(row[p], float(env[p]), rtol=1e-7, atol=1e-7):
                raise Violation(f"row {i} (t={h.time[i]}): {p} is {row[p]!r}, with the states of the row it is {float(env[p])!r}")
    moved = any(abs(h[x][-1] - h[x][0]) > 1e-4 for x in xs)
    lb = [case["solver"]["method"]] + (["data"] if fr else []) + (["changes"] if changes else []) + \
        (["overflow"] if len(want) > case["num"] + 1 else [])
    return dict(labels=lb, nontrivial=moved and len(want) > 3)
