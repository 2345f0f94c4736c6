"""C13: simulating a model again gives what a new model gives."""
import numpy as np
from hypothesis import strategies as st

from props import c07, c08
from vlib import evprog, ext, gen, sim, specs
from vlib.core import Violation

ID = "C13"
RULE = ("A case is a generated system (with external data, or with events, or neither) and 2-4 simulations of one model over "
        "generated grids and solvers, as new simulations or by reset and solve, with variables written in between; each "
        "history is compared with that of a newly built model. Non-trivial: a run after the first changes states or has events.")
OPTS = dict(c07.OPTS, max_maps=4)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["plain", "data", "events", "events"]))
    c = dict(kind=kind)
    if kind == "events":
        c.update(draw(evprog.programs(("state", "time"))))
        periodic = True
        spans = [(0.0, 1.0), (0.0, 1.7), (0.0, 2.4), (0.0, 0.5)]
    else:
        c["spec"] = draw(gen.system(**OPTS))
        spans = [(0.0, 1.0), (0.0, 2.0), (1.0, 2.0), (2.5, 3.0)]
        if kind == "data":
            c["frames"] = draw(ext.frames(c["spec"], nframes=1))
            if c["frames"]:
                a, b = ext.span(c["frames"])
                spans = [(a, b), (a, b), (a + (b - a) * 0.25, b), (a, a + (b - a) * 0.5)]
    vs = specs.all_vars(c["spec"])
    paths = list(vs)
    runs = []
    for i in range(draw(st.integers(2, 4))):
        a, b = draw(st.sampled_from(spans))
        r = dict(t0=a, t1=b, num=draw(st.integers(1, 12)))
        if kind == "events":
            r["solver"] = dict(evprog.SOLVER, method=draw(st.sampled_from(["RK45", "RK45", "Euler"])))
            r["num"] = draw(st.sampled_from([5, 11, 48]))
        else:
            r["solver"] = draw(c07.solver())
        r["how"] = draw(st.sampled_from(["new", "new", "again"])) if i else "new"
        r["first"] = []
        for _ in range(draw(st.integers(0, 2)) if i else 0):
            k = draw(st.sampled_from(["item", "set", "update", "numba", "eval", "df"]))
            r["first"].append([k, draw(st.sampled_from(paths)), draw(gen.fnum)])
        runs.append(r)
    for i, r in enumerate(runs):
        if r["how"] == "again":  # of the same simulation object
            for k in ("t0", "t1", "num", "solver"):
                r[k] = runs[i - 1][k]
    c["runs"] = runs
    return c


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def build(case, ctx):
    if case["kind"] == "events":
        return evprog.build(case, ctx)
    if case["kind"] == "data" and case["frames"]:
        from numerous.utils.data_loader import InMemoryDataLoader
        kw = ext.sub_kw(case["frames"], lambda f: (ext.element(f), InMemoryDataLoader(ext.dataframe(f))))
        return specs.build(case["spec"], ctx, sub_kw=kw), []
    return specs.build(case["spec"], ctx), []


def calls(log):
    return [(i, round(float(t), 9), sorted((k, float(v)) for k, v in d.items())) for i, t, d in log]


def check(case, ctx):
    b, log = build(case, ctx)
    m = b.model
    s = None
    moved = fired = False
    for n, r in enumerate(case["runs"]):
        for k, p, v in r["first"]:
            with np.errstate(all="ignore"):
                if k == "item":
                    m.path_to_variable[p].value = v
                elif k == "set":
                    m.set_variables({p: v})
                elif k == "update":
                    m.update_variables({p: v})
                elif k == "numba":
                    m.numba_model.write_variables(v, m.path_to_variable[p].llvm_idx)
                elif k == "df":
                    m.create_historian_df()
                else:
                    m.numba_model.func(v, m.numba_model.get_states())
        del log[:]
        if r["how"] == "new":
            s = sim.simulation(m, r["t0"], r["t1"], r["num"], **r["solver"])
        else:
            with sim.quiet():
                s.reset(r["t0"])
        start = m.get_variables()
        sim.solve(s)
        h = sim.History(m)
        got = calls(log)
        f, flog = build(case, ctx)
        fs = sim.simulation(f.model, r["t0"], r["t1"], r["num"], **r["solver"])
        for p, v in f.model.get_variables().items():
            if not specs.close(v, start[p]):
                raise Violation(f"before run {n} ({r['how']}) {p} is {start[p]!r} in the used model, {v!r} in a new one")
        sim.solve(fs)
        want = sim.History(f.model)
        d = sim.same_history(want, h, what=f"run {n} ({r['how']}) of a new and of the used model")
        if d:
            raise Violation(d)
        if calls(flog) != got:
            raise Violation(f"run {n}: external actions are {got[:6]}, of a new model they are {calls(flog)[:6]}")
        if n:
            ks = [p for p, (k, _) in specs.all_vars(case["spec"]).items() if k == "s"]
            moved |= any(abs(h[p][-1] - h[p][0]) > 1e-9 for p in ks)
            fired |= any(h[p][-1] != h[p][0] for p in h.cols if p.endswith(".h0"))
    return dict(labels=[case["kind"]] + (["fired"] if fired else []) + (["again"] if any(r["how"] == "again" for r in case["runs"])
                                                                        else []), nontrivial=bool(moved or fired))
