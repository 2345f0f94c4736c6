"""C12: event functions compute what their Python source says."""
import re

import numpy as np
from hypothesis import strategies as st

from props import c07
from vlib import evprog, gen, specs
from vlib.core import Violation

ID = "C12"
RULE = ("A case is a generated system and 1-4 events with generated condition and action functions (locals, nested conditionals, "
        "loops, lists, tuples, numpy and closure functions, closure constants, augmented assignments; paths written as literals, "
        "local constants or closure prefixes; owners at all levels), called at generated values of the variables and compared "
        "with running their Python source. Non-trivial: an action changed a variable.")

NP1 = ["np.sin", "np.cos", "np.abs", "np.floor", "np.sqrt(4.0) * np.tanh"]


@st.composite
def expr(draw, names, depth):
    k = draw(st.integers(0, 13)) if depth > 0 else draw(st.integers(0, 2))
    sub = expr(names, depth - 1)
    if k <= 2:
        return draw(st.sampled_from(names + ["t", "kf", "kf"])) if draw(st.integers(0, 4)) else repr(float(draw(gen.num)))
    if k <= 6:
        return f"({draw(sub)} {draw(st.sampled_from(['+', '-', '*']))} {draw(sub)})"
    if k == 7:
        return f"(-{draw(sub)})"
    if k == 8:
        return f"({draw(sub)} / {float(draw(gen.pos))!r})"
    if k == 9:
        return f"{draw(st.sampled_from(NP1))}({draw(sub)})"
    if k == 10:
        return f"{draw(st.sampled_from(['np.maximum', 'np.minimum', 'jf', 'max', 'min']))}({draw(sub)}, {draw(sub)})"
    if k == 11:
        return f"({draw(sub)} if {draw(test(names, depth - 1))} else {draw(sub)})"
    if k == 12 and draw(st.booleans()):
        return f"np.array([{draw(sub)} * 1.0, {draw(sub)} * 1.0])[{draw(st.sampled_from(['0', '1', '-1', 'int(abs(kf)) % 2']))}]"
    if k == 12:
        return f"abs({draw(sub)})"
    return f"({draw(sub)} ** 2)"


@st.composite
def test(draw, names, depth):
    sub = expr(names, max(depth, 0))
    op = st.sampled_from(["<", "<=", ">", ">=", "!="])
    s = f"{draw(sub)} {draw(op)} {draw(sub)}"
    k = draw(st.integers(0, 5))
    if k == 0:
        s += f" {draw(op)} {draw(sub)}"
    if k == 1:
        s += f" {draw(st.sampled_from(['and', 'or']))} {draw(sub)} {draw(op)} {draw(sub)}"
    if k == 2:
        s = f"not ({s})"
    return s


@st.composite
def block(draw, reads, targets, names, depth, top=False):
    """lines; names: the locals which exist (extended at the top level only)"""
    out = []
    for _ in range(draw(st.integers(1, 3 if top else 2))):
        k = draw(st.integers(0, 9))
        e = expr(reads + names, 2)
        if k <= 1 and top:
            n = f"l{len(names)}"
            if draw(st.integers(0, 3)) == 0:
                out.append(f"{n}, {n}b = {draw(e)} + 0.0, {draw(e)} * 1.0")
                names.append(n + "b")
            elif draw(st.integers(0, 3)) == 0:
                out.append(f"{n}s = [{draw(e)} * 1.0, {draw(e)} * 1.0]")
                out.append(f"{n} = {n}s[{draw(st.integers(0, 1))}]")
            else:
                out.append(f"{n} = {draw(e)} + 0.0")
            names.append(n)
        elif k <= 2 and names:
            out.append(f"{draw(st.sampled_from(names))} {draw(st.sampled_from(['=', '+=', '-=']))} {draw(e)} * 1.0")
        elif k == 3 and depth:
            out.append(f"if {draw(test(reads + names, 1))}:")
            out += ["    " + x for x in draw(block(reads, targets, names, depth - 1))]
            if draw(st.integers(0, 3)) == 0:
                out.append(f"elif {draw(test(reads + names, 1))}:")
                out += ["    " + x for x in draw(block(reads, targets, names, depth - 1))]
            if draw(st.booleans()):
                out.append("else:")
                out += ["    " + x for x in draw(block(reads, targets, names, depth - 1))]
        elif k == 4 and depth:
            i = f"j{depth}"
            out.append(f"for {i} in range({draw(st.integers(1, 4))}):")
            out += ["    " + x for x in draw(block(reads + [f"{i} * 0.25"], targets, names, depth - 1))]
        elif k == 5 and len(targets) > 1:
            a, b = draw(st.lists(st.sampled_from(targets), min_size=2, max_size=2, unique=True))
            out.append(f"{a}, {b} = {draw(e)}, {draw(e)}")
        elif targets:
            op = draw(st.sampled_from(["=", "=", "+=", "-=", "*="]))
            out.append(f"{draw(st.sampled_from(targets))} {op} {draw(e)}")
        elif names:
            out.append(f"{draw(st.sampled_from(names))} = {draw(e)} * 1.0")
        else:
            out.append("pass")
    return out


@st.composite
def cases(draw):
    spec = draw(evprog.systems())
    paths = list(specs.all_vars(spec))
    insts = [p for p, _, _, _, _ in specs.instances(spec)]
    events = []
    for i in range(draw(st.integers(1, 4))):
        level = draw(st.sampled_from(["model"] + insts + evprog.owners(spec)))
        pre = "" if level == "model" else level + "."
        mine = [p for p in paths if p.startswith(pre)]
        reads = [f"V[{p}]" for p in draw(st.lists(st.sampled_from(mine), min_size=1, max_size=4, unique=True))]
        targets = [f"V[{p}]" for p in draw(st.lists(st.sampled_from(mine), min_size=1, max_size=3, unique=True))]
        names = []
        cond = draw(block(reads, [], names, 2, top=True)) if draw(st.booleans()) else []
        cond.append(f"return {draw(expr(reads + names, 3))} + 0.0")
        names = []
        act = draw(block(reads, targets, names, 2, top=True)) + [f"{targets[0]} = {draw(expr(reads + names, 2))}"]
        events.append(dict(level=level, cond=cond, act=act, style=draw(st.integers(0, 2)), thr=float(draw(gen.num)),
                           names=draw(st.integers(0, 1)), time=draw(st.integers(0, 3)) == 0,
                           external=draw(st.integers(0, 4)) == 0, dir=draw(st.sampled_from([-1, 1]))))
    n = draw(st.integers(1, 3))
    pts = [dict(t=float(draw(gen.num)), v=[float(draw(gen.num)) for _ in paths]) for _ in range(n)]
    return dict(spec=spec, events=events, pts=pts)


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def event_source(i, e):
    out = [f"def ev{i}(kf, pre, jf):\n"]
    arg = ["variables", "v", "data"][e["style"]]
    fn = (f"condition{i}", f"action{i}") if e["names"] else ("condition", "action")
    for name, lines in zip(fn, (e["cond"], e["act"])):
        head, paths = [], {}

        def ref(m):
            r = m.group(1) if e["level"] == "model" else m.group(1)[len(e["level"]) + 1:]
            if e["style"] == 0:
                return f"{arg}[{r!r}]"
            if r not in paths:
                paths[r] = f"path{len(paths)}"
                if e["style"] == 1:
                    head.append(f"        {paths[r]} = {r!r}\n")
                else:
                    head.append(f"        {paths[r]} = pre + {r[1:]!r}\n" if e["level"] == "model" else
                                f"        {paths[r]} = pre + {r!r}\n")
            return f"{arg}[{paths[r]}]"
        body = ["        " + re.sub(r"V\[([^\]]*)\]", ref, ln) + "\n" for ln in lines]
        out += [f"    def {name}(t, {arg}):\n"] + head + body + ["\n"]
    out.append(f"    return {fn[0]}, {fn[1]}\n\n\n")
    return "".join(out)


def check(case, ctx):
    from numba import njit
    src = specs.module_source(case["spec"]) + "\n\n" + "".join(event_source(i, e) for i, e in enumerate(case["events"]))
    mod = specs.load_module(src, ctx.dir)

    def jf(x, y):
        return 0.5 * x - y

    jitted = njit(jf)
    fs, py = [], []
    for i, e in enumerate(case["events"]):
        pre = case["spec"]["root"]["tag"][0] if e["level"] == "model" else ""
        fs.append(getattr(mod, f"ev{i}")(e["thr"], pre, jitted))
        py.append(getattr(mod, f"ev{i}")(e["thr"], pre, jf))

    def add(to, i, e):
        if e["time"]:
            to.add_timestamp_event(f"k{i}", fs[i][1], timestamps=[1.0], is_external=e["external"])
        else:
            to.add_event(f"k{i}", fs[i][0], fs[i][1], direction=e["dir"], is_external=e["external"])

    def extra(items):
        for i, e in enumerate(case["events"]):
            if e["level"] != "model":
                add(items[e["level"]], i, e)

    b = specs.build(case["spec"], ctx, mod=mod, extra=extra)
    m = b.model
    for i, e in enumerate(case["events"]):
        if e["level"] == "model":
            add(m, i, e)
    cond, dirs = m.generate_event_condition_ast()
    act = m.generate_event_action_ast(m.events)
    tact = m.generate_event_action_ast(m.timestamp_events) if m.timestamp_events else None
    six = {ev.key: n for n, ev in enumerate(m.events)}
    tix = {ev.key: n for n, ev in enumerate(m.timestamp_events)}
    paths = list(specs.all_vars(case["spec"]))
    idx = {p: v.llvm_idx for p, v in m.path_to_variable.items()}
    if len({idx[p] for p in paths}) != len(paths):
        raise Violation("different variables have the same position")
    size = max(idx.values()) + 1
    changed = False
    for pt in case["pts"]:
        vec = np.zeros(size)
        env = {}
        for p, v in zip(paths, pt["v"]):
            vec[idx[p]] = v
            env[p] = np.float64(v)
        with np.errstate(all="ignore"):
            got = cond(pt["t"], vec.copy())
            for i, e in enumerate(case["events"]):
                pre = "" if e["level"] == "model" else e["level"] + "."
                if not e["time"]:
                    view = {p[len(pre):]: v for p, v in env.items() if p.startswith(pre)}
                    want = py[i][0](pt["t"], view)
                    n = six[f"k{i}"]
                    if float(dirs[n]) != e["dir"]:
                        raise Violation(f"direction of event {i} is {dirs[n]} and not {e['dir']}")
                    if not specs.close(want, float(got[n])):
                        raise Violation(f"condition of event {i} is {float(got[n])!r}, its source gives {float(want)!r} at "
                                        f"t={pt['t']}")
                if e["external"]:
                    continue
                view = {p[len(pre):]: v for p, v in env.items() if p.startswith(pre)}
                py[i][1](pt["t"], view)
                want = dict(env)
                want.update({pre + k: v for k, v in view.items()})
                out = (tact if e["time"] else act)(pt["t"], vec.copy(), (tix if e["time"] else six)[f"k{i}"])
                for p in paths:
                    if not specs.close(want[p], float(out[idx[p]])):
                        raise Violation(f"action of event {i} makes {p} {float(out[idx[p]])!r}, its source {float(want[p])!r} "
                                        f"(before: {float(env[p])!r}) at t={pt['t']}")
                    changed |= float(want[p]) != float(env[p])
    lb = {"model" if e["level"] == "model" else "item" for e in case["events"]}
    lb |= {"time" if e["time"] else "state" for e in case["events"]}
    return dict(labels=sorted(lb), nontrivial=bool(changed))
