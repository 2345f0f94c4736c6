"""C07: every row of the history is the system at that time and state."""
import numpy as np
from hypothesis import strategies as st

from props import c01
from vlib import gen, sim, specs
from vlib.core import Violation

ID = "C07"
RULE = ("A case is a generated system with bounded state equations and arbitrary other equations and mappings, a time grid, a "
        "solver and its options; it is simulated and every row of the history is compared with the reference evaluated at the "
        "time and the states of that row. Non-trivial: the system has states, and variables computed by equations.")
OPTS = dict(globals=True, closure=True, functions=True, sub_eqs=True, max_maps=4, depth=2, stable=True, max_items=3,
            max_states=2, max_out=2)


@st.composite
def grid(draw):
    t0 = draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, 2.5, 10]))
    span = draw(st.sampled_from([0.25, 1, 2.0, 3.3]))
    return dict(t0=t0, t1=t0 + span, num=draw(st.integers(1, 8)))


@st.composite
def solver(draw):
    kw = dict(method=draw(st.sampled_from(["RK45", "RK45", "BDF", "Euler"])))
    if draw(st.integers(0, 2)) == 0:
        kw["max_step"] = draw(st.sampled_from([0.5, 0.1, 0.07]))
    if draw(st.integers(0, 2)) == 0:
        kw["rtol"] = draw(st.sampled_from([1e-2, 1e-5]))
    return kw


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    return dict(spec=spec, grid=draw(grid()), solver=draw(solver()),
                select=draw(st.lists(st.integers(-1, 40), min_size=1, max_size=7)))


def strategy(tier):
    return cases()


def warmup():
    c01.warmup()
    import os
    c = dict(name="C0", nss=[dict(ns="t1", vars=[["x0", "s", 1.0], ["p0", "p", 1.0]],
                                  eqs=[dict(name="eval", body=["scope.x0_dot = -scope.x0"])])])
    spec = dict(classes=[c], root=dict(tag="s", items=[dict(tag="i0", cls="C0", init={})]), maps=[], globals=[])

    class Ctx:
        dir = os.getcwd()
    b = specs.build(spec, Ctx)
    sim.run(b.model)


def check_rows(spec, h, ref=None, rtol=1e-7, atol=1e-7, setenv=None):
    """every row against the reference; returns the number of compared values"""
    ref = ref or specs.Ref(spec)
    vs = specs.all_vars(spec)
    states = ref.states()
    inputs = [p for p, (k, _) in vs.items() if k in "pc" and p not in {m[1] for m in spec["maps"]}]
    written = set()
    for i in ref.order:
        written |= ref.nodes[i][2]
    n = 0
    for i, t in enumerate(h.time):
        row = h.row(i)
        for p in inputs:
            if p not in written:
                if not specs.close(row[p], float(ref.init[p])):
                    raise Violation(f"row {i} (t={t}): {p} is {row[p]!r}, it was set to {float(ref.init[p])!r} and nothing assigns it")
        env = ref.eval(t, {p: row[p] for p in states})
        for p in vs:
            if p not in row:
                raise Violation(f"{p} is not in the history")
            if not specs.close(row[p], float(env[p]), rtol=rtol, atol=atol):
                raise Violation(f"row {i} (t={t}): {p} is {row[p]!r}, with the states of the row it is {float(env[p])!r}")
            n += 1
    return n


def check_selection(model, h, select):
    """columns of the history are found by any names, singly or many at once, in the requested order"""
    paths = sorted(h.cols)
    names = ["time" if k < 0 or not paths else paths[k % len(paths)] for k in select]
    ids = [model.path_to_variable[n].id if n != "time" and i % 2 else n for i, n in enumerate(names)]
    df = model.historian_df
    for form in (names, ids, tuple(names)):
        part = df[form]
        if list(part.columns) != list(form):
            raise Violation(f"the columns {list(form)} of the history are given as {list(part.columns)}")
        for j, n in enumerate(names):
            if not np.array_equal(part.iloc[:, j].to_numpy(), h[n]):
                raise Violation(f"column {n} of the selection {list(form)} differs from the column selected alone")
    for n, i in zip(names, ids):
        if not np.array_equal(df.get(n).to_numpy(), h[n]) or not np.array_equal(df[i].to_numpy(), h[n]):
            raise Violation(f"column {n} of the history differs if it is selected in another way")
    if len(df.index) != len(h.time):
        raise Violation(f"the history has {len(df.index)} rows, its index {len(h.time)}")


def check(case, ctx):
    spec, g = case["spec"], case["grid"]
    b = specs.build(spec, ctx)
    h = sim.run(b.model, g["t0"], g["t1"], g["num"], **case["solver"])
    want = np.linspace(g["t0"], g["t1"], g["num"] + 1)
    if len(h.time) != len(want) or not np.allclose(h.time, want, rtol=1e-9, atol=1e-9):
        raise Violation(f"times of the history are {h.time.tolist()}, requested were {want.tolist()}")
    check_selection(b.model, h, case.get("select", [0, -1, 0]))
    ref = specs.Ref(spec)
    for p in ref.states():
        if not specs.close(h[p][0], float(ref.init[p])):
            raise Violation(f"{p} starts at {h[p][0]!r}, its initial value is {float(ref.init[p])!r}")
    check_rows(spec, h, ref)
    lb = [case["solver"]["method"]] + (["maps"] if spec["maps"] else [])
    has = any(k == "a" for k, _ in specs.all_vars(spec).values())
    return dict(labels=lb + (["no-states"] if not ref.states() else []), nontrivial=bool(ref.states()) and has)
