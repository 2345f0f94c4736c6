"""C19: however equations and variables are declared, they mean the same."""
from hypothesis import strategies as st

from props import c01
from vlib import gen, specs, sim
from vlib.core import Violation

ID = "C19"
RULE = ("A case is a generated system whose equations are declared as decorated methods, from source text (InlineEquation, at "
        "several indentations, with the same names in several classes and instances) or with add_equation, whose variables are "
        "declared one by one or by dictionaries and lists, and with integrals of parameters (integrate=); two variants of it "
        "with other values are built in one process. At 1-3 points all variables and derivatives are compared with the "
        "reference, and the integrals with the integrated parameters. Non-trivial: an equation from text, an added one or an "
        "integral was compared.")
OPTS = dict(globals=True, closure=True, functions=True, max_maps=3, depth=2, map_onto_eq=True, two=False, max_ns=2, max_items=4)
warmup = c01.warmup


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    for c in spec["classes"]:
        c["style"] = "own"
        for ns in c["nss"]:
            ns.pop("dots", None)
            ns["forms"] = {}
            ns["indent"] = draw(st.sampled_from([0, 4, 8, 3]))
            for e in ns["eqs"]:
                how = draw(st.sampled_from(["dec", "inline", "inline", "add"]))
                if how != "dec":
                    ns["forms"][e["name"]] = how
            ns["varforms"] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4))
            ns["integrals"] = []
            for tag, kind, v in list(ns["vars"]):
                if kind in "pa" and draw(st.integers(0, 2)) == 0:
                    s, k = f"int_{tag}", draw(gen.num)
                    ns["integrals"].append([tag, s, k])
                    ns["vars"].append([s, "s", 0.0])
                    ns["eqs"].append(dict(name=f"integrate_{tag}", body=[f"scope.{s}_dot = scope.{tag} * {k!r}"]))
                    ns["forms"][f"integrate_{tag}"] = "integrate"
    # another version of the same classes: other numbers in equations of the same names
    shift = draw(st.integers(0, 3))
    return dict(spec=spec, shift=shift, points=draw(gen.points(spec)), first=draw(st.booleans()))


def strategy(tier):
    return cases()


def shifted(spec, k):
    import copy
    s = copy.deepcopy(spec)
    for c in s["classes"]:
        for ns in c["nss"]:
            outs = [t for t, kind, v in ns["vars"] if kind == "a"]
            for e in ns["eqs"]:
                if ns["forms"].get(e["name"]) == "integrate":
                    for x in ns["integrals"]:
                        if e["name"] == "integrate_" + x[0]:
                            x[2] = x[2] + k
                            e["body"] = [f"scope.{x[1]}_dot = scope.{x[0]} * {x[2]!r}"]
                elif outs:
                    mine = [t for t in outs if any(ln.startswith(f"scope.{t} = ") for ln in e["body"])]
                    e["body"] = e["body"] + [f"scope.{t} = scope.{t} + {float(k)!r}" for t in mine[:1]]
    return s


def check(case, ctx):
    spec = case["spec"]
    built = [specs.build(spec, ctx)]
    sp = [spec]
    if case["shift"]:
        s2 = shifted(spec, case["shift"])
        built.append(specs.build(s2, ctx))
        sp.append(s2)
    order = [0, 1][:len(sp)] if case["first"] else [0, 1][:len(sp)][::-1]
    cms = {i: specs.compiled(built[i].model) for i in order}
    n = 0
    for i in order:
        ref = specs.Ref(sp[i])
        for j, pt in enumerate(case["points"]):
            dv, got = c01.eval_model(built[i], cms[i], pt)
            env = c01.eval_ref(ref, pt)
            where = f"model {i}, point {j} (t={pt['t']})"
            c01.compare_env(env, got, sp[i], where)
            for p, c, init, node, inset in specs.instances(sp[i]):
                for ns in c["nss"]:
                    for tag, s, k in ns["integrals"]:
                        base = f"{p}.{ns['ns']}."
                        if not specs.close(got[base + s + "_dot"], got[base + tag] * k):
                            raise Violation(f"{where}: the derivative of {base + s}, the integral of {tag} scaled by {k}, is "
                                            f"{got[base + s + '_dot']!r} with {tag} = {got[base + tag]!r}")
    lb = set()
    for c in spec["classes"]:
        for ns in c["nss"]:
            lb |= set(ns["forms"].values())
    if case["shift"]:
        lb.add("two-models")
    return dict(labels=sorted(lb), nontrivial=bool(lb - {"two-models"}))
