"""C10: state events."""
from hypothesis import strategies as st

from props import c07
from vlib import evprog, sim

ID = "C10"
RULE = ("A case is a generated system which is affine between events, with 1-3 state events (conditions on states, parameters, "
        "computed variables and time; every direction; actions on states, rates and parameters; on items, subsystems or the model; "
        "internal or external), simulated and compared with the exact event-driven reference. Non-trivial: an event happens.")


@st.composite
def cases(draw):
    c = draw(evprog.programs(("state",)))
    t0 = draw(st.sampled_from([0.0, 0.0, 0.7]))
    c["grid"] = dict(t0=t0, t1=t0 + draw(st.sampled_from([1.0, 1.7, 2.4])), num=draw(st.integers(48, 55)))
    c["solver"] = dict(evprog.SOLVER, method=draw(st.sampled_from(["RK45", "RK45", "Euler"])))
    return c


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def check(case, ctx):
    rows, calls = evprog.reference(case, case["grid"])
    b, log = evprog.build(case, ctx)
    g = case["grid"]
    h = sim.run(b.model, g["t0"], g["t1"], g["num"], **case["solver"])
    evprog.compare(case, rows, calls, h, log)
    lb = {"fired" if calls else "none"}
    for i, _, _ in calls:
        e = case["events"][i]
        lb |= {"external" if e["external"] else "internal", "model" if e["level"] == "model" else "item", f"dir{e['dir']}"}
    if len(calls) > 4:
        lb.add("many")
    return dict(labels=sorted(lb), nontrivial=bool(calls))
