"""C23: FMUs as subsystems move as their own equations say, whatever else is in the system."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from numerous.engine.system import Item, Subsystem
from numerous.multiphysics import Equation, EquationBase
from vlib import sim
from vlib.core import Skip, Violation

ID = "C23"
RULE = ("A case is a system with 1-3 FMUs of the repository (Dahlquist, Van der Pol, two-way bouncing ball; any of them several times, "
        "at any level, with generated start values) and up to two items driven by their states, simulated over a generated grid, once or up to three times; every "
        "row is compared with the closed form or an independent integration of the same equations. Non-trivial: two FMUs or more, or an "
        "item driven by one.")
BUDGET = {"quick": 50, "thorough": 900}
F = os.path.join(os.path.dirname(os.path.dirname(__import__("numerous").__path__[0] + "/")), "tests", "test_fmu")
FILES = dict(dq="dahlquist/Dahlquist.fmu", vdp="test_vanderpol/VanDerPol.fmu", bb="2_way_bouncing_ball/BouncingBall_2_way.fmu")
STATES = dict(dq=["x"], vdp=["x0", "x1"], bb=["h", "v"])
G = 9.81


def dec(a, b):
    return st.integers(int(a * 100), int(b * 100)).map(lambda v: v / 100)


@st.composite
def cases(draw):
    fs = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 2, 3]))):
        k = draw(st.sampled_from(["dq", "vdp", "bb"] if sum(f["kind"] == "bb" for f in fs) < 2 else ["dq", "vdp"]))
        init = dict(dq=dict(x=dec(-3, 3)), vdp=dict(x0=dec(-2, 2), x1=dec(-1, 1)), bb=dict(h=dec(.3, .95), v=dec(-.3, 1)))[k]
        init = {n: draw(v) for n, v in init.items() if draw(st.integers(0, 3))}
        if k == "bb" and "h" not in init:
            init.pop("v", None)  # the ball would start by hitting the ceiling
        fs.append(dict(kind=k, level=draw(st.integers(0, 2)), init=init))
    items = []
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(fs) - 1))
        items.append(dict(src=i, var=draw(st.sampled_from(STATES[fs[i]["kind"]])), a=draw(dec(-2, 2)), z=draw(dec(-1, 1)),
                          before=draw(st.booleans())))
    return dict(fmus=fs, items=items, t1=draw(st.sampled_from([0.25, 0.5, 0.75, 1.0])), num=draw(st.sampled_from([4, 8, 10, 16])),
                again=draw(st.sampled_from([0, 0, 1, 1, 2])))


def strategy(tier):
    return cases()


class Driven(Item, EquationBase):
    def __init__(self, tag, a, z):
        super().__init__(tag)
        self.t1 = self.create_namespace("t1")
        self.add_constant("a", a)
        self.add_parameter("p", 0.0)
        self.add_parameter("q", 0.0)
        self.add_state("z", z)
        self.t1.add_equations([self])

    @Equation()
    def eval(self, scope):
        scope.q = scope.a * scope.p
        scope.z_dot = scope.q - scope.z


def ball(h, v, t1):
    """Pieces (start, h, v) of the motion of the ball between the floor at 0 and the ceiling at 1, both with factor -1.2."""
    t, pieces, last = 0.0, [], None
    while True:
        pieces.append((t, h, v))
        hits = []
        # floor
        d = (v + np.sqrt(v * v + 2 * G * h)) / G
        if d > 1e-9:
            hits.append((d, 0.0))
        if v > 0 and v * v >= 2 * G * (1 - h) and h < 1:
            hits.append(((v - np.sqrt(v * v - 2 * G * (1 - h))) / G, 1.0))
        d, at = min(hits)
        if v > 0 and abs(v * v - 2 * G * (1 - h)) < .02:
            raise Skip("the ball touches the ceiling with hardly any speed")
        if t + d > t1 + .05:
            return pieces
        if at == last:
            # This FMU only sees the same wall again if another event came in between: it takes part in an event when it leaves the
            # wall, which the solver does not report for an indicator that starts at zero.
            raise Skip("the same wall twice in a row")
        last = at
        t, h, v = t + d, at, -1.2 * (v - G * d)


def reference(kind, init, t1):
    """(function of time -> {variable: value}, times of events)"""
    if kind == "dq":
        x0 = init.get("x", 1.0)
        return (lambda t: dict(x=x0 * np.exp(-t), x_dot=-x0 * np.exp(-t))), []
    if kind == "vdp":
        from scipy.integrate import solve_ivp
        f = lambda t, y: [y[1], (1 - y[0] ** 2) * y[1] - y[0]]  # noqa
        s = solve_ivp(f, (0, t1 + .01), [init.get("x0", 2.0), init.get("x1", 0.0)], method="DOP853", rtol=1e-10, atol=1e-12,
                      dense_output=True).sol

        def at(t):
            y = s(t)
            d = f(t, y)
            return dict(x0=y[0], x1=y[1], x0_dot=d[0], x1_dot=d[1])
        return at, []
    ps = ball(init.get("h", 1.0), init.get("v", 0.0), t1)

    def at(t):
        t0, h, v = [p for p in ps if p[0] <= t + 1e-12][-1]
        d = t - t0
        return dict(h=h + v * d - G * d * d / 2, v=v - G * d, h_dot=v - G * d, v_dot=-G)
    return at, [p[0] for p in ps[1:]]


def warmup():
    tempfile.tempdir = os.getcwd()
    go(dict(fmus=[dict(kind="bb", level=0, init={}), dict(kind="dq", level=1, init={})], items=[dict(src=1, var="x", a=1.0, z=0.0, before=False)],
            t1=0.25, num=4))
    tempfile.tempdir = None


def go(case):
    from numerous.engine.model import Model
    from numerous.engine.system.fmu_subsystem import FMU_Subsystem
    subs = [Subsystem("s"), Subsystem("in1"), Subsystem("in2")]
    fmus, paths = [], []
    for i, f in enumerate(case["fmus"]):
        o = FMU_Subsystem(os.path.join(F, FILES[f["kind"]]), f"f{i}")
        for n, v in f["init"].items():
            getattr(o.t1, n).value = v
        fmus.append(o)
        paths.append(".".join(["s", "in1", "in2"][:f["level"] + 1] + [f"f{i}"]))
    items = []
    for i, d in enumerate(case["items"]):
        o = Driven(f"i{i}", d["a"], d["z"])
        o.t1.p = getattr(fmus[d["src"]].t1, d["var"])
        items.append(o)
    first = [o for o, d in zip(items, case["items"]) if d["before"]]
    last = [o for o, d in zip(items, case["items"]) if not d["before"]]
    subs[0].register_items(first + [o for o, f in zip(fmus, case["fmus"]) if f["level"] == 0] + last + [subs[1]])
    subs[1].register_items([subs[2]] + [o for o, f in zip(fmus, case["fmus"]) if f["level"] == 1])
    subs[2].register_items([o for o, f in zip(fmus, case["fmus"]) if f["level"] == 2] or [Driven("idle", 0.0, 0.0)])
    if not any(f["level"] == 1 for f in case["fmus"]):
        subs[1].register_items([Driven("idle1", 0.0, 0.0)])
    m = Model(subs[0], use_llvm=False)
    hs = [sim.run(m, 0.0, case["t1"], case["num"], max_step=.01, rtol=1e-8, atol=1e-8) for _ in range(1 + case.get("again", 0))]
    return m, hs, paths


def compare(case, h, refs, paths, grid, ev, tol, what):
    from scipy.integrate import solve_ivp
    if len(h.time) != len(grid) + len(ev):
        raise Violation(f"{len(h.time)} rows at {h.time.tolist()}, expected the grid and the events at {ev}{what}")

    def cmp(p, t, got, want):
        if not abs(got - want) <= tol * (1 + abs(want)):
            raise Violation(f"{p} is {got!r} at {t!r}, expected {want!r}{what}")
    for (at, _), path, f in zip(refs, paths, case["fmus"]):
        for i, t in enumerate(h.time):
            if min([abs(t - e) for e in ev] or [1]) < 1e-3:
                continue
            for n, v in at(t).items():
                cmp(f"{path}.t1.{n}", t, h.cols[f"{path}.t1.{n}"][i], v)
    for i, d in enumerate(case["items"]):
        at = refs[d["src"]][0]
        z = solve_ivp(lambda t, y: [d["a"] * at(t)[d["var"]] - y[0]], (0, case["t1"]), [d["z"]], rtol=1e-8, atol=1e-9, max_step=.02,
                      dense_output=True).sol
        for k, t in enumerate(h.time):
            p = f"s.i{i}.t1."
            cmp(p + "z", t, h.cols[p + "z"][k], z(t)[0])
            if min([abs(t - e) for e in ev] or [1]) < 1e-3:
                continue
            cmp(p + "p", t, h.cols[p + "p"][k], at(t)[d["var"]])
            cmp(p + "q", t, h.cols[p + "q"][k], d["a"] * at(t)[d["var"]])


def check(case, ctx):
    t1 = case["t1"]
    refs = [reference(f["kind"], f["init"], t1) for f in case["fmus"]]
    ev = sorted(t for _, e in refs for t in e)
    grid = np.linspace(0, t1, case["num"] + 1)
    for i, t in enumerate(ev):
        if t < .08 or i and t - ev[i - 1] < .03:
            raise Skip("events close to the start or to each other")
    ev = [t for t in ev if t <= t1 + 1e-3]
    if any(abs(t - g) < 2e-3 for t in ev for g in grid):
        raise Skip("an event at a point of the grid")
    tempfile.tempdir = ctx.dir
    try:
        m, hs, paths = go(case)
    finally:
        tempfile.tempdir = None
    tol = 1e-5 if not ev else 2e-3 * 2 ** len(ev)
    for n, h in enumerate(hs):
        compare(case, h, refs, paths, grid, ev, tol, f" in simulation {n + 1} of the model" if n else "")
    kinds = [f["kind"] for f in case["fmus"]]
    return dict(labels=sorted(set(kinds) | ({"events"} if ev else set()) | ({"same twice"} if len(set(kinds)) < len(kinds) else set())
                              | ({"item"} if case["items"] else set()) | ({"again"} if case.get("again") else set())), nontrivial=len(kinds) > 1 or bool(case["items"]))
