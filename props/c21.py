"""C21: a history stored in parts, in memory or in a file, is the whole history."""
import os

import numpy as np
from hypothesis import strategies as st

from props import c07, c09
from vlib import evprog, ext, gen, sim, specs
from vlib.core import Skip, Violation

ID = "C21"
RULE = ("A case is a generated system without or with events (state and time events, which add rows) or external data in chunks, "
        "simulated with a LocalHistorian of 1-20 rows, once or again after a reset or with another grid, and with the historian in "
        "memory; rows of the table and of the file are those of the historian in memory, in order, each once. Non-trivial: at "
        "least two parts were stored.")
warmup = c07.warmup


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["plain", "plain", "events", "data"]))
    c = dict(mode=mode, max_size=draw(st.one_of(st.integers(1, 20), st.integers(2, 6))))
    if mode == "events":
        # the solver package runs external time events early whenever it stops, and cannot always go on if there are others
        c["prog"] = draw(evprog.programs((draw(st.sampled_from(["state", "time", "time"])),)))
        for e in c["prog"]["events"]:
            e["external"] = False
        t0 = 0.0
        g = dict(t0=t0, t1=t0 + draw(st.sampled_from([1.0, 1.7])), num=draw(st.integers(48, 55)))
        c["solver"] = dict(evprog.SOLVER)
        c["runs"] = [dict(g, how="new")]
        c["max_size"] = draw(st.integers(1, 70))
    elif mode == "data":
        c["data"] = d = draw(c09.cases())
        c["solver"] = d["solver"]
        if not d["frames"] or d["frames"][0]["start"]:  # see the known finding of C09
            c["runs"] = []
        else:
            c["runs"] = [dict(g, how="new") for g in d["grids"]]
    else:
        c["spec"] = draw(gen.system(**dict(c07.OPTS, sets=True, min_sets=0, max_sets=1)))
        c["solver"] = dict(method="RK45", rtol=1e-8, atol=1e-10)
        if draw(st.booleans()):
            c["solver"]["max_step"] = draw(st.sampled_from([0.5, 0.1, 0.07]))
        c["runs"] = [dict(draw(c07.grid()), how="new")]
    if c["runs"] and mode != "data" and draw(st.integers(0, 2)) == 0:
        r = dict(c["runs"][0], how=draw(st.sampled_from(["new", "reset"])))
        if r["how"] == "new":
            r["num"] += draw(st.integers(0, 5))
        c["runs"].append(r)
    return c


def strategy(tier):
    return cases()


def build(case, ctx, mod, hist):
    kw = dict(historian=hist) if hist is not None else {}
    if case["mode"] == "events":
        return evprog.build(case["prog"], ctx, model_kw=kw)[0]
    if case["mode"] == "data":
        return c09.build(case["data"], ctx, mod=mod, model_kw=kw)[0]
    return specs.build(case["spec"], ctx, mod=mod, model_kw=kw)


def runs(case, m):
    out = []
    s = None
    for r in case["runs"]:
        if r["how"] == "new" or s is None:
            s = sim.simulation(m, r["t0"], r["t1"], r["num"], **case["solver"])
        else:
            with sim.quiet():
                s.reset(r["t0"])
        sim.solve(s)
        out.append(sim.History(m))
    return out


def check(case, ctx):
    from numerous.utils.historian import LocalHistorian
    if not case["runs"] or case["mode"] == "events" and not ok(case):
        raise Skip
    a = build(case, ctx, None, None)
    want = runs(case, a.model)
    name = os.path.join(ctx.dir, "h.csv")
    b = build(case, ctx, a.mod, LocalHistorian(name, case["max_size"]))
    got = runs(case, b.model)
    for i, (w, g) in enumerate(zip(want, got)):
        # the solver starts anew after each part, which is why values are not exactly the same
        what = f"run {i} in memory and in parts of {case['max_size']} rows"
        if case["mode"] == "data":
            if len(w.time) != len(g.time) or not np.allclose(w.time, g.time, rtol=1e-12, atol=1e-12):
                raise Violation(f"{what}: times are {w.time.tolist()} and {g.time.tolist()}")
            ext.check_history(case["data"]["spec"], case["data"]["frames"], g)
            continue
        if case["mode"] == "events":
            # the solver package finds events less exactly in the first steps after it stopped
            if len(w.time) != len(g.time) or not np.allclose(w.time, g.time, rtol=0, atol=0.03):
                raise Violation(f"{what}: times are {w.time.tolist()} and {g.time.tolist()}")
            for k in w.cols:
                if k.endswith(".h0") and not np.array_equal(w[k], g[k]):
                    raise Violation(f"{what}: {k} counts the events {w[k].tolist()} and {g[k].tolist()}")
            continue
        d = sim.same_history(w, g, what=what, rtol=1e-5, atol=1e-5)
        if d:
            raise Violation(d)
        if case["mode"] == "plain":
            c07.check_rows(case["spec"], g)
    check_file(name, got)
    n = sum(len(w.time) for w in want)
    lb = [case["mode"]] + [r["how"] for r in case["runs"][1:]]
    if any(len(w.time) > r["num"] + 1 for w, r in zip(want, case["runs"])):
        lb.append("event-rows")
    return dict(labels=lb, nontrivial=n > case["max_size"] + 1)


def check_file(name, want):
    import pandas as pd
    if not os.path.isfile(name):
        raise Violation("there is no file of the history")
    df = pd.read_csv(name, index_col=0, float_precision="round_trip")
    names = set(want[0].cols) | {"time"}
    if set(df.columns) != names or len(df.columns) != len(names):
        raise Violation(f"the file has the columns {sorted(df.columns)}, expected {sorted(names)}")
    for k in names:
        exp = np.concatenate([w[k] for w in want])
        if len(df) != len(exp) or not np.allclose(df[k].to_numpy(), exp, rtol=1e-9, atol=1e-9, equal_nan=True):
            raise Violation(f"the file has in column {k} the values {df[k].to_numpy()[:30].tolist()}, expected {exp[:30].tolist()}")


def ok(case):
    """programs within the domain of the solver package (see evprog)"""
    try:
        evprog.reference(case["prog"], case["runs"][0])
    except Skip:
        return False
    return True

