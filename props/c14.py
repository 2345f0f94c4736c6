"""C14: models do not influence each other."""
import numpy as np
from hypothesis import strategies as st

from props import c01, c07
from vlib import gen, sim, specs
from vlib.core import Violation

ID = "C14"
RULE = ("A case is 2-3 generated systems (of the same or of different classes, tags and variables, some from the same module) and "
        "a program which builds models of them with both backends, evaluates, writes variables and simulates in turns; every "
        "result is compared with the reference model of that system alone. Non-trivial: a model is used after another was built.")
OPTS = dict(c07.OPTS, max_maps=3, max_items=2)


@st.composite
def cases(draw):
    first = draw(gen.system(**OPTS))
    formed = draw(st.integers(0, 2)) == 0
    if formed:
        first = draw(gen.forms(first))
    sp = [first]
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.integers(0, 3))
        if k == 0:  # the same system with other values
            import copy
            s = copy.deepcopy(first)

            def change(node):
                for x in node.get("items", []):
                    if "items" in x:
                        change(x)
                    else:
                        for key in x.get("init", {}):
                            x["init"][key] = draw(gen.fnum)
            change(s["root"])
            sp.append(s)
        else:
            sp.append(draw(gen.system(**OPTS)))
            if formed:
                draw(gen.forms(sp[-1]))
    prog = []
    built = set()
    for _ in range(draw(st.integers(5, 12))):
        i = draw(st.integers(0, len(sp) - 1))
        if i not in built:
            prog.append(dict(op="build", i=i, llvm=draw(st.integers(0, 3)) == 0, same=draw(st.booleans())))
            built.add(i)
            continue
        k = draw(st.sampled_from(["eval", "eval", "eval", "set", "sim", "build"]))
        if k == "build" and draw(st.booleans()):
            prog.append(dict(op="build", i=i, llvm=draw(st.integers(0, 3)) == 0, same=draw(st.booleans()),
                             reuse=draw(st.booleans())))
        elif k == "eval":
            prog.append(dict(op="eval", i=i, pts=draw(gen.points(sp[i], 1))))
        elif k == "sim":
            prog.append(dict(op="sim", i=i, grid=draw(c07.grid()), solver=draw(c07.solver())))
    for i in sorted(built):
        prog.append(dict(op="eval", i=i, pts=draw(gen.points(sp[i], 1))))
    return dict(specs=sp, prog=prog)


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def check(case, ctx):
    sp = case["specs"]
    models, refs, mods, wrote, inits = {}, {}, {}, {}, {}
    last = -1
    used_later = False
    llvm = False
    for n, op in enumerate(case["prog"]):
        i = op["i"]
        spec = sp[i]
        if op["op"] == "build":
            mod = None
            if op["same"]:
                src = specs.module_source(spec)
                mod = mods.get(src) or specs.load_module(src, ctx.dir)
                mods[src] = mod
            if op.get("reuse"):
                from numerous.engine.model import Model
                old, b = models[i], specs.Built()
                b.root = old.root
                mk = dict(global_variables=[(k, v) for k, v in spec["globals"]]) if spec["globals"] else {}
                b.model = Model(b.root, use_llvm=op["llvm"], **mk)
            else:
                b = specs.build(spec, ctx, use_llvm=op["llvm"], mod=mod)
            b.kernel = specs.compiled(b.model)
            b.llvm = op["llvm"]
            b.model.use_llvm = False
            models[i] = b
            refs[i] = specs.Ref(spec)
            if op.get("reuse"):  # set_variables sets the values of the variables of the items
                for p, v in wrote.get(i, {}).items():
                    refs[i].env[p] = refs[i].init[p] = np.float64(v)
            else:
                wrote[i] = {}
                inits[i] = {}
            inits[i] = dict(wrote[i])
            last = i
            llvm |= op["llvm"]
            continue
        if i not in models:
            continue
        b, ref = models[i], refs[i]
        used_later |= last != i
        what = f"step {n}: model {i} ({'llvm' if b.llvm else 'python'})"
        if op["op"] == "eval":
            for pt in op["pts"]:
                wrote[i].update(pt["set"])
                _, got = c01.eval_model(b, b.kernel, pt)
                env = c01.eval_ref(ref, pt)
                c01.compare_env(env, got, spec, what)
        else:
            g = op["grid"]
            h = sim.run(b.model, g["t0"], g["t1"], g["num"], **op["solver"])
            b.kernel = b.model.numba_model
            r = specs.Ref(spec)
            for p, v in inits[i].items():
                r.env[p] = r.init[p] = np.float64(v)
            wrote[i] = dict(inits[i])
            for p in r.states():
                if not specs.close(h[p][0], float(r.init[p])):
                    raise Violation(f"{what}: {p} starts at {h[p][0]!r} and not {float(r.init[p])!r}")
            c07.check_rows(spec, h, r)
            # the simulation left the model in the state of its last row
            refs[i] = r
            for p, v in h.row(len(h.time) - 1).items():
                r.env[p] = np.float64(v)
    return dict(labels=[f"{len(models)}-models"] + (["llvm"] if llvm else []) +
                (["sim"] if any(o["op"] == "sim" for o in case["prog"]) else []), nontrivial=used_later)
