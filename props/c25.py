"""C25: clones and exported models do what the original does, each for itself."""
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from props import c07, c09
from vlib import evprog, ext, gen, sim, specs
from vlib.core import Violation

ID = "C25"
RULE = ("A case is a generated system (with state and time events, with external data from files or frames, or with neither), "
        "assembled as clonable and exported, and a program which clones the model and its clones, loads it from its file, and "
        "simulates, resets and writes the original and the copies in turns. Every model is compared after every step with a "
        "model of its own, newly built and given only its own steps, and all others with what they were before the step. "
        "Non-trivial: a copy was simulated.")
OPTS = dict(c07.OPTS, max_maps=4)
BUDGET = {"quick": 40, "thorough": 900}
# the two backends round differently, which moves the steps of the solver; it locates events to about 1e-5
TOL = dict(rtol=1e-3, atol=1e-3)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["plain", "events", "events", "data"]))
    if kind == "events":
        c = draw(evprog.programs(("state", "time")))
        c["kind"] = kind
        if draw(st.booleans()):
            for e in c["events"]:
                e["flat"] = True
        spans = [(0.0, 1.0), (0.0, 1.7)]
    elif kind == "data":
        c = dict(draw(c09.cases()), kind=kind)
        spans = [(g["t0"], g["t1"]) for g in c["grids"]]
    else:
        c = dict(kind=kind, spec=draw(gen.system(**dict(OPTS, sets=draw(st.booleans()), min_sets=0, max_sets=1))))
        spans = [(0.0, 1.0), (2.5, 3.0), (0.0, 2.0)]
    c["export"] = draw(st.booleans()) and (kind != "events" or all(e.get("flat") for e in c["events"]))
    paths = list(specs.all_vars(c["spec"]))
    if kind == "events":
        paths = [p for p in paths if p.endswith(".h1")]
    prog, n = [], 1
    made = ["clone", "file"] if c["export"] else ["clone"]
    for i in range(draw(st.integers(4, 10))):
        k = draw(st.sampled_from(["copy", "sim", "sim", "solve", "solve", "solve", "reset", "set", "set"])) if i else "copy"
        if k == "copy" and n < 4:
            prog.append(dict(op=draw(st.sampled_from(made)), of=draw(st.integers(0, n - 1)), keep=draw(st.integers(0, 2)) > 0))
            n += 1
        elif k == "sim":
            a, b = draw(st.sampled_from(spans))
            prog.append(dict(op=k, of=draw(st.integers(0, n - 1)), t0=a, t1=b, num=draw(st.integers(48, 55) if kind == "events" else st.integers(1, 12)),
                             solver=dict(evprog.SOLVER) if kind == "events" else draw(c07.solver())))
        elif k == "set":
            prog.append(dict(op=k, of=draw(st.integers(0, n - 1)), path=draw(st.sampled_from(paths)), value=draw(gen.fnum),
                             how=draw(st.sampled_from(["item", "set", "update", "kernel"]))))
        elif k != "copy":
            prog.append(dict(op=k, of=draw(st.integers(0, n - 1))))
    a, b = draw(st.sampled_from(spans))
    last = draw(st.integers(0, n - 1))
    prog.append(dict(op="sim", of=last, t0=a, t1=b, num=50 if kind == "events" else 3, solver=dict(evprog.SOLVER) if kind == "events" else {}))
    prog.append(dict(op="solve", of=last))
    for op in prog:  # see C09: BDF cannot resume where a chunk was loaded
        if kind == "data" and op.get("solver", {}).get("method") == "BDF":
            op["solver"]["method"] = "RK45"
    c["prog"] = prog
    c["process"] = bool(c["export"] and kind != "data" and draw(st.integers(0, 11)) == 0)
    return c


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def load(path):
    from numerous.engine.model import Model
    return Model.from_file(path)


def item_events(case):
    return [e for e in case["events"] if e["level"] != "model"]


def build(case, ctx, model_level=True, **kw):
    if case["kind"] == "events":
        if not model_level:
            case = dict(case, events=item_events(case))
        return evprog.build(case, ctx, **kw)
    if case["kind"] == "data" and case["frames"]:
        return c09.build(case, ctx, **kw)[0], []
    return specs.build(case["spec"], ctx, **kw), []


def calls(log):
    return [(i, float(t), {k: float(v) for k, v in d.items()}) for i, t, d in log]


def same_calls(a, b):
    return len(a) == len(b) and all(i == j and abs(t - u) < 1e-3 and d.keys() == e.keys() and
                                    all(specs.close(d[k], e[k], **TOL) for k in d) for (i, t, d), (j, u, e) in zip(a, b))


class One:
    """a model and the simulation of it"""

    def __init__(self, model, log, clonable, made):
        self.model, self.log, self.clonable, self.made = model, log, clonable, made
        self.kernel = specs.compiled(model)
        self.sim = None

    def memory(self):
        return specs.read_all(self.model)

    def do(self, op):
        m = self.model
        del self.log[:]
        with np.errstate(all="ignore"):
            if op["op"] == "sim":
                self.sim = sim.simulation(m, op["t0"], op["t1"], op["num"], **op["solver"])
                self.t0 = op["t0"]
            elif op["op"] == "solve":
                if self.sim:
                    sim.solve(self.sim)
            elif op["op"] == "reset":
                if self.sim:
                    with sim.quiet():
                        self.sim.reset(self.t0)
                else:
                    m._reset()
            elif op["how"] == "item":
                m.path_to_variable[op["path"]].value = op["value"]
            elif op["how"] == "set":
                m.set_variables({op["path"]: op["value"]})
            elif op["how"] == "update":
                m.update_variables({op["path"]: op["value"]})
            else:
                m.numba_model.write_variables(op["value"], m.path_to_variable[op["path"]].llvm_idx)
        return calls(self.log)


def compare(what, want, got):
    for p, v in want.items():
        if p not in got:
            raise Violation(f"{what}: there is no {p}")
        if not specs.close(float(got[p]), float(v), **TOL):
            raise Violation(f"{what}: {p} is {got[p]!r}, in a model of its own it is {v!r}")


def solved(what, twin, one):
    a, b = sim.History(twin.model), sim.History(one.model)
    if len(a.time) == len(b.time) and np.allclose(a.time, b.time, **TOL):
        b.time = a.time
    d = sim.same_history(a, b, what=f"{what}: history of a new model and of this one", **TOL)
    if d:
        raise Violation(d)


def check(case, ctx):
    os.environ["EXPORT_MODEL_PATH"] = os.path.join(ctx.dir, "export")
    with sim.quiet():
        b, log = build(case, ctx, use_llvm=True, model_kw=dict(clonable=True, export_model=case["export"]))
    path = os.path.join(ctx.dir, "export", case["spec"]["root"]["tag"] + ".numerous")
    ones = [One(b.model, log, True, "original")]
    twins = []

    def twin(full=True):
        f, flog = build(case, ctx, model_level=full)
        twins.append(One(f.model, flog, False, "twin"))

    twin()
    lb, nt = {case["kind"]}, False
    if case["kind"] == "events":
        for op in case["prog"]:
            if op["op"] == "sim":  # events which are too close to each other for the solver package
                for full in (True, False):
                    evprog.reference(case if full else dict(case, events=item_events(case)), op)
    for n, op in enumerate(case["prog"]):
        i = op["of"]
        if i >= len(ones):
            continue
        one = ones[i]
        what = f"step {n} ({op['op']} of the {one.made} {i})"
        if op["op"] in ("clone", "file"):
            before = [o.memory() for o in ones]
            if op["op"] == "file":
                with sim.quiet():
                    ones.append(One(load(path), b.mod.LOG if case["kind"] == "events" else [], False, "model from file"))
            else:
                one.model.use_llvm = True
                if not one.clonable:
                    try:
                        one.model.clone()
                    except Exception as e:  # noqa
                        if "clonable" not in str(e):
                            raise
                    else:
                        raise Violation(f"{what}: it is not clonable, yet it was cloned")
                    one.model.use_llvm = False
                    one = ones[0]
                    one.model.use_llvm = True
                with sim.quiet():
                    ones.append(One(one.model.clone(clonable=op["keep"]), one.log, op["keep"], "clone"))
                one.model.use_llvm = False
            twin(op["op"] == "clone" and one.made != "model from file")
            compare(f"{what}: new", twins[-1].memory(), ones[-1].memory())
            same(what, before, ones, None)
            lb.add(op["op"])
            continue
        before = [o.memory() for o in ones]
        want = twins[i].do(op)
        got = one.do(op)
        same(what, before, ones, i)
        compare(what, twins[i].memory(), one.memory())
        if op["op"] == "solve" and one.sim:
            solved(what, twins[i], one)
            if not same_calls(want, got):
                raise Violation(f"{what}: external actions are {got[:6]}, of a new model they are {want[:6]}")
            lb.add(one.made)
            nt |= i > 0
            if got:
                lb.add("external")
            if case["kind"] == "events" and len(set(sim.History(one.model).time)) < len(sim.History(one.model).time):
                lb.add("fired")
    if case["process"]:
        lb.add("process")
        other_process(case, ctx, b.mod, path)
    return dict(labels=sorted(lb), nontrivial=nt)


def same(what, before, ones, but):
    for j, (o, old) in enumerate(zip(ones, before)):
        if j == but:
            continue
        new = o.memory()
        for p, v in old.items():
            if not (new[p] == v or (np.isnan(new[p]) and np.isnan(v))):
                raise Violation(f"{what}: {p} of the {o.made} {j} was {v!r} and became {new[p]!r}")


PROGRAM = """
import importlib.util, json, os, sys
name, source, path, out, sys_path = sys.argv[1:6]
sys.path[:0] = json.loads(sys_path)
sp = importlib.util.spec_from_file_location(name, source)
mod = importlib.util.module_from_spec(sp)
sys.modules[name] = mod
sp.loader.exec_module(mod)
mod.LOG = []
from numerous.engine.model import Model
from vlib import sim
m = Model.from_file(path)
h = sim.run(m, 0.0, 1.0, 5, atol=1e-11, rtol=1e-7, max_step=0.02)
json.dump(dict(time=h.time.tolist(), cols={k: v.tolist() for k, v in h.cols.items()}), open(out, "w"))
"""


def other_process(case, ctx, mod, path):
    out = os.path.join(ctx.dir, "out.json")
    prog = os.path.join(ctx.dir, "other.py")
    with open(prog, "w") as f:
        f.write(PROGRAM)
    r = subprocess.run([sys.executable, prog, mod.__name__, mod.__file__, path, out, json.dumps(sys.path)], capture_output=True,
                       text=True, cwd=ctx.dir)
    if not os.path.exists(out):
        if "min_dt" in r.stderr:
            return
        raise Violation(f"the exported model could not be used in a new process: {r.stderr[-800:]}")
    with open(out) as f:
        got = json.load(f)
    f, _ = build(case, ctx, model_level=False)
    want = sim.run(f.model, 0.0, 1.0, 5, **evprog.SOLVER)

    class H:
        time = np.array(got["time"])
        cols = {k: np.array(v) for k, v in got["cols"].items()}
    if len(H.time) == len(want.time) and np.allclose(H.time, want.time, **TOL):
        H.time = want.time
    d = sim.same_history(want, H, what="in a new process: history of a new model and of the one from the file", **TOL)
    if d:
        raise Violation(d)
