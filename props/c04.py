"""C04: a set of items computes what the same items registered one by one compute."""
from hypothesis import strategies as st

from props import c01
from vlib import gen, specs
from vlib.core import Violation

ID = "C04"
RULE = ("A case is a generated system in which 1-2 groups of 1-4 items of one class are registered as a SET, with scalar-set, "
        "set-scalar and set-set mappings, evaluated at 1-3 points, and compared variable by variable with the same items "
        "registered as a LIST and with the reference. Non-trivial: a set has at least two items.")
OPTS = dict(globals=True, depth=2, min_maps=0, max_maps=6, map_onto_eq=True, max_items=2, max_ns=2, functions=True, closure=True,
            max_states=2, max_out=2, max_subs=2, sets=True)
warmup = c01.warmup


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    return dict(spec=spec, points=draw(gen.points(spec)))


def strategy(tier):
    return cases()


def flat(path):
    return ".".join(p for p in path.split(".") if not p.startswith("SET_"))


def check(case, ctx):
    spec = case["spec"]
    ref = specs.Ref(spec)
    b = specs.build(spec, ctx)
    cm = specs.compiled(b.model)
    lb = set()
    res = []
    for i, pt in enumerate(case["points"]):
        dv, got = c01.eval_model(b, cm, pt)
        c01.compare_env(c01.eval_ref(ref, pt), got, spec, f"point {i} (t={pt['t']})")
        res.append(got)
    l = specs.build(spec, ctx, mod=b.mod, set_as_list=True)
    cm = specs.compiled(l.model)
    for i, pt in enumerate(case["points"]):
        fp = dict(t=pt["t"], y={flat(k): v for k, v in pt["y"].items()}, set={flat(k): v for k, v in pt["set"].items()})
        dv, got = c01.eval_model(l, cm, fp)
        for p in specs.all_vars(spec):
            if not specs.close(res[i][p], got[flat(p)]):
                raise Violation(f"point {i}: {p} is {res[i][p]!r} in a set and {got[flat(p)]!r} in a list")
    for op, t, s in spec["maps"]:
        lb.add(("set" if "SET_" in s else "scalar") + "-to-" + ("set" if "SET_" in t else "scalar") + op)
    sizes = {}
    for p, c, init, node, inset in specs.instances(spec):
        if inset:
            sizes[inset] = sizes.get(inset, 0) + 1
    return dict(labels=sorted(lb), nontrivial=max(sizes.values()) > 1)
