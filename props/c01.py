"""C01: equations mean what their Python source says."""
from hypothesis import strategies as st

from vlib import gen, specs
from vlib.core import Violation

ID = "C01"
RULE = ("A case is a generated system (classes with 1-2 namespaces, 1-3 equations each, hierarchy, mappings, globals) and "
        "1-3 evaluation points (time, states, parameter changes). Non-trivial: at least one equation target was compared "
        "at a point which differs from the initial values.")
OPTS = dict(globals=True, closure=True, functions=True, selffns=True, sub_eqs=True, apart=True, max_maps=3, depth=3,
            map_onto_eq=False, read_dots=True)


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    return dict(spec=spec, points=draw(gen.points(spec)))


def strategy(tier):
    return cases()


def warmup():
    spec = dict(classes=[dict(name="C0", nss=[dict(ns="t1", vars=[["x0", "s", 1.0], ["p0", "p", 1.0]],
                                                   eqs=[dict(name="eval", body=["scope.x0_dot = -scope.x0"])])])],
                root=dict(tag="s", items=[dict(tag="i0", cls="C0", init={})]), maps=[], globals=[])

    class Ctx:
        dir = "."
    import os
    Ctx.dir = os.getcwd()
    b = specs.build(spec, Ctx)
    specs.compiled(b.model)


def compare_env(env, got, spec, where, tol_env=None, rtol=1e-9, only=None):
    n = 0
    for p, (kind, _) in specs.all_vars(spec).items():
        if only and p not in only:
            continue
        if p not in got:
            raise Violation(f"{where}: variable {p} is not addressable in the model")
        tol = 1e-9
        if tol_env is not None:
            d = abs(tol_env[p] - env[p])
            tol = 1e-9 + (20 * d if d == d else float("inf"))
        if not specs.close(got[p], float(env[p]), rtol=rtol, atol=tol):
            raise Violation(f"{where}: {p} is {got[p]!r}, its equations and mappings give {float(env[p])!r}")
        n += 1
    return n


def eval_model(b, cm, pt):
    """set parameters, evaluate the kernel; returns ({path: derivative}, {path: value})"""
    import numpy as np
    if pt["set"]:
        b.model.set_variables(pt["set"])
    order = specs.state_order(b.model)
    y = np.array([pt["y"][p] for p in order], dtype=np.float64)
    with np.errstate(all="ignore"):
        d = cm.func(pt["t"], y)
    got = specs.read_all(b.model)
    for p, v in zip(order, d):
        if not specs.close(float(v), got[p + "_dot"]):
            raise Violation(f"the derivative returned for {p} is {float(v)!r}, {p}_dot is {got[p + '_dot']!r}")
    return {p: float(v) for p, v in zip(order, d)}, got


def eval_ref(ref, pt):
    for k, v in pt["set"].items():
        ref.env[k] = specs.np.float64(v)
    return ref.eval(pt["t"], pt["y"])


def labels_of(spec):
    src = specs.module_source(spec)
    src = src[len(specs.PRELUDE):]
    lb = []
    for k, s in (("if", "\n        if "), ("ifexp", " else "), ("call", "mf"), ("selffn", "self.sf("), ("tuple", ", scope."),
                 ("list", "= ["), ("aug", "+= "), ("global", "global_vars"), ("closure", "KC"), ("inherit", "_base")):
        if s in src:
            lb.append(k)
    if spec["maps"]:
        lb.append("maps")
    if len(specs.instances(spec)) > 2:
        lb.append("many")
    return lb


def check(case, ctx):
    spec = case["spec"]
    b = specs.build(spec, ctx)
    cm = specs.compiled(b.model)
    ref = specs.Ref(spec)
    n = 0
    for i, pt in enumerate(case["points"]):
        dv, got = eval_model(b, cm, pt)
        env = eval_ref(ref, pt)
        where = f"point {i} (t={pt['t']})"
        n += compare_env(env, got, spec, where)
        for p, v in dv.items():
            if not specs.close(v, float(env[p + "_dot"])):
                raise Violation(f"{where}: derivative of {p} is {v!r}, its equation gives {float(env[p + '_dot'])!r}")
    return dict(labels=labels_of(spec), nontrivial=n > 0)


def _self_fn_case():
    c = dict(name="C0", style="own", nss=[dict(ns="t1", selffn=True, off=0.0, vars=[["p0", "p", 1.0], ["a0", "a", 0.0]],
                                               eqs=[dict(name="eval", body=["scope.a0 = self.sf(scope.p0)"])])])
    return dict(known="self-function-last-instance", points=[dict(t=0.0, y={}, set={})],
                spec=dict(classes=[c], maps=[], globals=[],
                          root=dict(tag="s", items=[dict(tag="i0", cls="C0", init=dict(off=1.0)),
                                                    dict(tag="i1", cls="C0", init=dict(off=2.0))])))


CORPUS = [_self_fn_case()]


def known(case, text):
    return case.get("known") if isinstance(case, dict) and "s.i0.t1.a0 is 3.0" in text else None
