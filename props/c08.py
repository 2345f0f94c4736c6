"""C08: external data."""
from hypothesis import strategies as st

from props import c07
from vlib import ext, gen, sim, specs
from vlib.core import Skip

ID = "C08"
RULE = ("A case is a generated system and 1-2 data frames with several columns (zero, constant, stepping or arbitrary data; linear "
        "or piecewise; time multiplier; start index; owned by any subsystem; attached at construction or to the model), simulated "
        "once or twice on one model; in every row every mapped variable has the value of its column at this time, every other "
        "parameter its own, and all computed variables follow. Non-trivial: the data changes within the simulated time.")
OPTS = dict(globals=True, functions=False, sub_eqs=True, max_maps=3, depth=1, stable=True, max_items=3, max_states=1, max_out=2,
            sets=True, min_sets=0, max_sets=1, set_ns=1)
warmup = c07.warmup


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    fr = draw(ext.frames(spec))
    if not fr:
        return dict(spec=spec, frames=[])
    a, b = ext.span(fr)
    grids = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        lo, hi = draw(st.sampled_from([(0, 1), (0, 1), (0.25, 1), (0, 0.5)]))
        grids.append(dict(t0=a + (b - a) * lo, t1=a + (b - a) * hi, num=draw(st.integers(1, 9))))
    late = len(fr) == 1 and draw(st.integers(0, 3)) == 0
    return dict(spec=spec, frames=fr, grids=grids, solver=draw(c07.solver()), late=late)


def strategy(tier):
    return cases()


def check(case, ctx):
    from numerous.utils.data_loader import InMemoryDataLoader
    spec, fr = case["spec"], case["frames"]
    if not fr or len({f["owner"] for f in fr}) < len(fr):
        raise Skip
    if case["late"]:
        b = specs.build(spec, ctx)
    else:
        b = specs.build(spec, ctx, sub_kw=ext.sub_kw(fr, lambda f: (ext.element(f), InMemoryDataLoader(ext.dataframe(f)))))
    for i, g in enumerate(case["grids"]):
        s = sim.simulation(b.model, g["t0"], g["t1"], g["num"], **case["solver"])
        if case["late"] and i == 0:
            b.model.set_external_mappings([ext.element(fr[0])], InMemoryDataLoader(ext.dataframe(fr[0])))
        sim.solve(s)
        h = sim.History(b.model)
        if len(h.time) != g["num"] + 1:
            raise AssertionError(f"{len(h.time)} rows, {g['num'] + 1} were requested")
        ext.check_history(spec, fr, h)
    lb = sorted({c[3] for f in fr for c in f["cols"]} | {"late"} if case["late"] else {c[3] for f in fr for c in f["cols"]})
    if len(fr) > 1:
        lb.append("two-frames")
    if any(f["mult"] != 1 for f in fr):
        lb.append("multiplier")
    if any(f["start"] for f in fr):
        lb.append("start")
    if len(case["grids"]) > 1:
        lb.append("again")
    changes = any(len(set(c[1][f["start"]:])) > 1 for f in fr for c in f["cols"])
    return dict(labels=lb, nontrivial=changes)
