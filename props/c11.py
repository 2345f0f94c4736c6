"""C11: time events."""
from hypothesis import strategies as st

from props import c07
from vlib import evprog, sim

ID = "C11"
RULE = ("A case is a generated system which is affine between events, with 1-3 time events (lists of timestamps or periodic; on items, "
        "subsystems or the model; internal or external), in part of the cases together with state events, simulated and compared "
        "with the exact event-driven reference. Non-trivial: a time event happens.")


@st.composite
def cases(draw):
    mixed = draw(st.integers(0, 2)) == 0
    c = draw(evprog.programs(("time", "time", "state") if mixed else ("time",)))
    if any(e["kind"] == "state" for e in c["events"]):
        c["grid"] = dict(t0=0.0, t1=draw(st.sampled_from([1.0, 1.7, 2.4])), num=draw(st.integers(48, 55)))
        c["solver"] = dict(evprog.SOLVER, method=draw(st.sampled_from(["RK45", "RK45", "Euler"])))
    else:
        t0 = draw(st.sampled_from([0.0, 0.0, 0.7])) if not any("period" in e for e in c["events"]) else 0.0
        c["grid"] = dict(t0=t0, t1=t0 + draw(st.sampled_from([1.0, 1.5, 2.0, 2.4])), num=draw(st.integers(1, 12)))
        # RK45 starts the step after an event with the derivative before it; the tolerance bounds what this does
        c["solver"] = dict(atol=1e-9, rtol=1e-7, method=draw(st.sampled_from(["RK45", "RK45", "Euler"])))
        if draw(st.booleans()):
            c["solver"]["max_step"] = draw(st.sampled_from([0.5, 0.1, 0.07]))
    return c


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def check(case, ctx):
    rows, calls = evprog.reference(case, case["grid"])
    b, log = evprog.build(case, ctx)
    g = case["grid"]
    h = sim.run(b.model, g["t0"], g["t1"], g["num"], **case["solver"])
    evprog.compare(case, rows, calls, h, log)
    lb = {"fired" if calls else "none"}
    for i, _, _ in calls:
        e = case["events"][i]
        lb |= {"external" if e["external"] else "internal", "model" if e["level"] == "model" else "item",
               "state" if e["kind"] == "state" else ("periodic" if "period" in e else "timestamps")}
    return dict(labels=sorted(lb), nontrivial=any(case["events"][i]["kind"] == "time" for i, _, _ in calls))
