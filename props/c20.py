"""C20: the log level decides what is recorded, and nothing else."""
import numpy as np
from hypothesis import strategies as st

from props import c07
from vlib import gen, sim, specs
from vlib.core import Violation

ID = "C20"
RULE = ("A case is a generated system whose variables have log levels (or none), with mappings, sets and globals, simulated with each "
        "log level of the model; the recorded variables are exactly those whose level is high enough, with the values they have if "
        "everything is recorded; the values of the model itself are the same. Non-trivial: a level leaves out some but not all.")
OPTS = dict(c07.OPTS, sets=True, min_sets=0, max_sets=1)
LEVELS = ["ALL", "DEBUG", "INFO"]
warmup = c07.warmup


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    for c in spec["classes"]:
        for ns in c["nss"]:
            ns["levels"] = {t: draw(st.sampled_from(LEVELS)) for t, k, v in ns["vars"] if draw(st.integers(0, 3))}
    return dict(spec=spec, grid=draw(c07.grid()), solver=draw(c07.solver()), order=draw(st.permutations(range(3))),
                reuse=draw(st.booleans()))


def strategy(tier):
    return cases()


def check(case, ctx):
    from numerous.utils.logger_levels import LoggerLevel
    spec, g = case["spec"], case["grid"]
    level = {}
    for p, c, init, node, inset in specs.instances(spec):
        for ns in c["nss"]:
            for tag, kind, v in ns["vars"]:
                lv = LEVELS.index(ns["levels"].get(tag, "ALL"))
                level[f"{p}.{ns['ns']}.{tag}"] = lv
                if kind == "s":
                    level[f"{p}.{ns['ns']}.{tag}_dot"] = lv
    b = specs.build(spec, ctx)
    full = sim.run(b.model, g["t0"], g["t1"], g["num"], **case["solver"])
    end = b.model.get_variables()
    every = set(full.cols)
    if every != set(level) | {"global_vars." + n for n in []}:
        raise Violation(f"with the level ALL {sorted(every ^ set(level))} are recorded too much or not")
    lb = set()
    for i in case["order"]:
        m = specs.build(spec, ctx, mod=b.mod, model_kw=dict(logger_level=LoggerLevel[LEVELS[i]])).model
        h = sim.run(m, g["t0"], g["t1"], g["num"], **case["solver"])
        want = {p for p in level if level[p] >= i}
        if set(h.cols) != want:
            raise Violation(f"with the level {LEVELS[i]} these are recorded too much or not: {sorted(set(h.cols) ^ want)}")
        ids = {m.path_to_variable[p].id for p in want}
        cols = set(m.historian_df.df.columns) - {"time"}
        if cols != ids:
            raise Violation(f"with the level {LEVELS[i]} the history has the columns {sorted(cols)}, expected {sorted(ids)}")
        d = sim.same_history(h, full, what=f"level {LEVELS[i]} and ALL", names={p: p for p in want})
        if d:
            raise Violation(d)
        now = m.get_variables()
        for p in level:
            if not specs.close(now[p], end[p]):
                raise Violation(f"after a simulation with the level {LEVELS[i]} {p} is {now[p]!r}, with ALL {end[p]!r}")
        if want != set(level):
            lb.add("some" if want else "none")
    return dict(labels=sorted(lb), nontrivial="some" in lb)
