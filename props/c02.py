"""C02: the compiled (LLVM) and the interpreted backend compute the same values."""
from hypothesis import strategies as st
from numba import carray

from props import c01
from vlib import gen, specs
from vlib.core import Violation

ID = "C02"
RULE = ("Half of the cases are generated systems (hierarchy, mappings, sets, functions, globals) assembled with both backends, "
        "half are hand-built programs of calls, set calls and mappings given to both code generators; all variables and "
        "derivatives are compared at 1-3 points between the backends (and with the reference for systems, with a direct "
        "interpretation for programs). Non-trivial: at least one equation or program step.")
OPTS = dict(globals=True, apart=True, depth=2, min_maps=0, max_maps=5, map_onto_eq=True, max_items=3, max_ns=2, functions=True, closure=True,
            selffns=True, max_states=2, max_out=2, max_subs=2, read_dots=False)


@st.composite
def programs(draw):
    n = draw(st.integers(3, 9))
    names = [f"v{i}" for i in range(n)]
    ns = draw(st.integers(0, min(2, n - 1)))
    perm = list(draw(st.permutations(range(n))))
    states = [names[i] for i in perm[:ns]]
    rest = [names[i] for i in perm[ns:]]
    nd = len(states)
    derivs = [draw(st.sampled_from(rest)) for _ in range(nd)] if rest else []
    derivs = list(dict.fromkeys(derivs))
    states = states[:len(derivs)]
    free = [v for v in names if v not in states]
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["call", "set", "sum", "map", "fan", "call", "set"]))
        if k == "map":
            t = draw(st.sampled_from(free))
            steps.append(["map", [draw(st.sampled_from(names))], [t]])
        elif k == "sum":
            steps.append(["map", [draw(st.sampled_from(names)) for _ in range(draw(st.integers(2, 9)))],
                          [draw(st.sampled_from(free))]])
        elif k == "fan":
            steps.append(["map", [draw(st.sampled_from(names))], list(dict.fromkeys(
                draw(st.lists(st.sampled_from(free), min_size=1, max_size=3))))])
        elif k == "call":
            f = draw(st.integers(0, 2))
            na, tg = FUNCS[f]
            if len(free) < len(tg):
                continue
            tn = list(draw(st.permutations(free)))[:len(tg)]
            rd = [x for x in names if x not in tn]
            if not rd:
                continue
            args = [tn[tg.index(i)] if i in tg else draw(st.sampled_from(rd)) for i in range(na)]
            steps.append(["call", f, args])
        else:
            f = draw(st.integers(0, 2))
            na, tg = FUNCS[f]
            fits = [(z, q) for z in (1, 2, 3, 4, 6) for q in range(0, n - na * z + 1)
                    if not any(names[q + r * na + t] in states for r in range(z) for t in tg)]
            if not fits:
                continue
            size, start = draw(st.sampled_from(fits))
            block = names[start:start + na * size]
            steps.append(["set", f, [block[i * na:(i + 1) * na] for i in range(size)]])
    pts = [dict(y=[draw(gen.fnum) for _ in states], w={v: draw(gen.fnum) for v in free if draw(st.integers(0, 4)) == 0})
           for _ in range(draw(st.integers(1, 3)))]
    return dict(program=dict(names=names, init=[draw(gen.fnum) for _ in names], states=states, derivs=derivs, steps=steps),
                points=pts)


FUNCS = {0: (2, [1]), 1: (3, [0, 2]), 2: (3, [1])}
PYSRC = {0: "def f0(a, b):\n    b = a * 0.5 - 1.0\n    return b\n",
         1: "def f1(a, b, c):\n    a = b + 1.0\n    c = b * 2.0\n    return a, c\n",
         2: "def f2(a, b, c):\n    b = a - c * 0.25\n    return b\n"}


def ll0(a, b):
    carray(b, (1,))[0] = a * 0.5 - 1.0


def ll1(a, b, c):
    carray(a, (1,))[0] = b + 1.0
    carray(c, (1,))[0] = b * 2.0


def ll2(a, b, c):
    carray(b, (1,))[0] = a - c * 0.25


def interp(f, a):
    if f == 0:
        a[1] = a[0] * 0.5 - 1.0
    elif f == 1:
        a[0], a[2] = a[1] + 1.0, a[1] * 2.0
    else:
        a[1] = a[0] - a[2] * 0.25


SIG = {0: "void(float64, CPointer(float64))", 1: "void(CPointer(float64), float64, CPointer(float64))",
       2: "void(float64, CPointer(float64), float64)"}


@st.composite
def cases(draw):
    if draw(st.booleans()):
        return draw(programs())
    o = dict(OPTS)
    if draw(st.integers(0, 1)):
        o["sets"] = True
        o["max_items"] = 1
    spec = draw(gen.system(**o))
    return dict(spec=spec, points=draw(gen.points(spec)))


def strategy(tier):
    return cases()


def warmup():
    c01.warmup()
    check(dict(program=dict(names=["v0", "v1", "v2"], init=[1.0, 2.0, 3.0], states=["v0"], derivs=["v2"],
                            steps=[["call", 0, ["v0", "v1"]], ["map", ["v1", "v0"], ["v2"]]]),
               points=[dict(y=[1.0], w={})]), None)


def check_program(case):
    import ast
    import numpy as np
    from numerous.engine.model.lowering.ast_builder import ASTBuilder
    from numerous.engine.model.lowering.llvm_builder import LLVMBuilder
    from numerous.engine.model.lowering.utils import VariableArgument


    class Imports:
        as_imports = [("numpy", "np")]
        from_imports = []

    p = case["program"]
    names = p["names"]
    order = {n: i for i, n in enumerate(names)}
    init = np.array(p["init"], dtype=np.float64)
    va = lambda xs: [VariableArgument(x, False) for x in xs]  # noqa
    a = ASTBuilder(init.copy(), dict(order), {}, list(p["states"]), list(p["derivs"]))
    b = LLVMBuilder(init.copy(), dict(order), {}, list(p["states"]), list(p["derivs"]))
    used = sorted({s[1] for s in p["steps"] if s[0] != "map"})
    lname = {}
    for f in used:
        a.add_external_function(ast.parse(PYSRC[f]).body[0], None, FUNCS[f][0], FUNCS[f][1])
        lf = (ll0, ll1, ll2)[f]
        lname[f] = b.add_external_function(lf, SIG[f], FUNCS[f][0], FUNCS[f][1])[lf.__qualname__]
    for s in p["steps"]:
        if s[0] == "map":
            a.add_mapping(va(s[1]), va(s[2]))
            b.add_mapping(va(s[1]), va(s[2]))
        elif s[0] == "call":
            a.add_call(f"f{s[1]}", va(s[2]), FUNCS[s[1]][1])
            b.add_call(lname[s[1]], va(s[2]), FUNCS[s[1]][1])
        else:
            a.add_set_call(f"f{s[1]}", s[2], FUNCS[s[1]][1])
            b.add_set_call(lname[s[1]], s[2], FUNCS[s[1]][1])
    ka, ra, wa = a.generate(Imports)
    kb, rb, wb = b.generate(Imports)
    mem = {n: float(v) for n, v in zip(names, p["init"])}
    g = np.zeros(1)
    for i, pt in enumerate(case["points"]):
        for k, v in pt["w"].items():
            wa(v, order[k])
            wb(v, order[k])
            mem[k] = v
        y = np.array(pt["y"], dtype=np.float64)
        mem.update(zip(p["states"], pt["y"]))
        for s in p["steps"]:
            if s[0] == "map":
                t = sum(mem[x] for x in s[1])
                for x in s[2]:
                    mem[x] = t
            else:
                for row in ([s[2]] if s[0] == "call" else s[2]):
                    vals = [mem[x] for x in row]
                    interp(s[1], vals)
                    for j in FUNCS[s[1]][1]:
                        mem[row[j]] = vals[j]
        da = np.array(ka(y.copy(), g), dtype=float)
        db = np.array(kb(y.copy(), g), dtype=float)
        va_, vb_ = np.array(ra(), dtype=float), np.array(rb(), dtype=float)
        for n, ix in order.items():
            if not (specs.close(va_[ix], mem[n]) and specs.close(vb_[ix], mem[n])):
                raise Violation(f"point {i}: variable {n} is {va_[ix]!r} interpreted, {vb_[ix]!r} compiled, expected {mem[n]!r}")
        for j, n in enumerate(p["derivs"]):
            if not (specs.close(da[j], mem[n]) and specs.close(db[j], mem[n])):
                raise Violation(f"point {i}: derivative {n} is {da[j]!r} interpreted, {db[j]!r} compiled, expected {mem[n]!r}")
    return dict(labels=["program"] + sorted({"step-" + s[0] for s in p["steps"]}), nontrivial=bool(p["steps"]))


def check(case, ctx):
    if "program" in case:
        return check_program(case)
    spec = case["spec"]
    a = specs.build(spec, ctx)
    ca = specs.compiled(a.model)
    ref = specs.Ref(spec)
    ra = []
    for i, pt in enumerate(case["points"]):
        ra.append(c01.eval_model(a, ca, pt) + (dict(c01.eval_ref(ref, pt)),))
    b = specs.build(spec, ctx, mod=a.mod, use_llvm=True)
    cb = specs.compiled(b.model)
    for i, pt in enumerate(case["points"]):
        dv, got = c01.eval_model(b, cb, pt)
        for p in specs.all_vars(spec):
            if p not in got:
                raise Violation(f"{p} is not addressable in the compiled model")
            if not specs.close(got[p], ra[i][1][p], rtol=1e-9, atol=1e-9):
                raise Violation(f"point {i}: {p} is {got[p]!r} compiled and {ra[i][1][p]!r} interpreted "
                                f"(reference {float(ra[i][2][p])!r})")
        for p, v in dv.items():
            if not specs.close(v, ra[i][0][p]):
                raise Violation(f"point {i}: derivative of {p} is {v!r} compiled and {ra[i][0][p]!r} interpreted")
    lb = ["system"]
    if any(x[4] for x in specs.instances(spec)):
        lb.append("set")
    if spec["maps"]:
        lb.append("maps")
    return dict(labels=lb, nontrivial=True)
