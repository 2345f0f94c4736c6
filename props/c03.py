"""C03: a mapped variable always carries its source(s)."""
from hypothesis import strategies as st

from props import c01
from vlib import gen, specs
from vlib.core import Violation

ID = "C03"
RULE = ("A case is a generated system with up to 10 mappings (copies, sums, sums onto equation targets, chains through several "
        "variables, across namespaces and levels), evaluated at 1-3 points; every variable is compared with a reference which "
        "propagates sources to targets, and the same system with the declarations permuted has to give the same values. "
        "Non-trivial: at least one mapping survived the acyclicity filter and its target was compared.")
OPTS = dict(globals=True, depth=1, min_maps=2, max_maps=10, map_onto_eq=True, max_items=5, max_ns=2, functions=False,
            max_states=1, max_out=2, ifs=True, stmts=True, max_subs=3, sub_eqs=True, dup_maps=True)
warmup = c01.warmup


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    if draw(st.integers(0, 9)) == 0:
        # nothing but parameters and mappings
        for c in spec["classes"]:
            for ns in c["nss"]:
                ns["vars"] = [[t, "p" if k in "as" else k, v] for t, k, v in ns["vars"]]
                ns["eqs"] = []
        have = specs.all_vars(spec)
        spec["maps"] = [m for m in spec["maps"] if m[2] in have]
    n = len(spec["maps"])
    return dict(spec=spec, points=draw(gen.points(spec)), perm=draw(st.permutations(range(n))))


def strategy(tier):
    return cases()


def check(case, ctx):
    spec = case["spec"]
    b = specs.build(spec, ctx)
    cm = specs.compiled(b.model)
    ref = specs.Ref(spec)
    res = []
    for i, pt in enumerate(case["points"]):
        dv, got = c01.eval_model(b, cm, pt)
        env = c01.eval_ref(ref, pt)
        c01.compare_env(env, got, spec, f"point {i} (t={pt['t']})")
        res.append((dv, got))
    lb = []
    targets = {}
    for op, t, s in spec["maps"]:
        targets.setdefault(t, []).append(s)
        lb.append("copy" if op == "=" else "sum")
    if any(len(v) > 1 for v in targets.values()):
        lb.append("many-sources")
    if any(s in targets for v in targets.values() for s in v):
        lb.append("chain")
    if any(len(set(v)) < len(v) for v in targets.values()):
        lb.append("same-source-twice")
    if not any(ns["eqs"] for c in spec["classes"] for ns in c["nss"]):
        lb.append("no-equations")
    if ref.rename:
        lb.append("onto-equation")
    perm = [p for p in case["perm"] if p < len(spec["maps"])]
    if len(perm) == len(spec["maps"]) and perm != sorted(perm):
        sp2 = dict(spec, maps=[spec["maps"][p] for p in perm])
        b2 = specs.build(sp2, ctx, mod=b.mod)
        cm2 = specs.compiled(b2.model)
        for i, pt in enumerate(case["points"]):
            dv, got = c01.eval_model(b2, cm2, pt)
            for p in got:
                if not specs.close(got[p], res[i][1][p]):
                    raise Violation(f"point {i}: {p} is {got[p]!r} with the mappings declared in another order, "
                                    f"{res[i][1][p]!r} before")
        lb.append("permuted")
    return dict(labels=sorted(set(lb)), nontrivial=bool(spec["maps"]))
