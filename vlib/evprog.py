"""Event programs: systems whose variables are affine in time between events, with state and time events, and their exact
reference.

events: [{kind: 'state'|'time', level: 'model' or the path of an item, key, external, style, thr,
          cond: affine, dir, ts: [..] | period, acts: [{target, rhs: affine, add, when?: [path, limit]}]}]
affine: {w: [[path, factor]...], t: factor, c: constant};  'thr' is a closure variable which is subtracted from the condition
and added by an action (once, to the first one).
"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, sim, specs
from vlib.core import Skip, Violation

# The solver package locates an event by interpolating between the last steps it kept: before it has made several steps, and
# within one step of another event (which only the next requested time limits), it is off or lost. Events are kept apart, steps short.
NEAR = 0.06
FIRST = 0.35
# (it also takes its first step after an event with the derivatives of before, unless its tolerance forbids this)
SOLVER = dict(atol=1e-11, rtol=1e-10, max_step=0.02)


# The solver package misses a timestamp when rounding makes it step past it; it cannot for numbers with few binary digits.
TIMES = [0.0, 0.125, 0.25, 0.375, 0.5, 0.56640625, 0.75, 1.0, 1.25, 1.3134765625, 1.5, 1.75, 1.9462890625, 2.0, 5.0]


def k7(i):
    return round(i / 7 + 0.0137, 6)


odd = st.integers(-12, 12).map(k7)
oddpos = st.integers(1, 12).map(k7)
factor = st.sampled_from([1.0, -1.0, 0.5, 2.0, -0.7, 1.3])


@st.composite
def systems(draw):
    n_s = draw(st.integers(1, 2))
    vs = []
    # actions change constants like parameters
    pc = st.sampled_from("pppc")
    eq = []
    for i in range(n_s):
        vs += [[f"x{i}", "s", draw(odd)], [f"r{i}", draw(pc), draw(odd)]]
        eq.append(f"scope.x{i}_dot = scope.r{i}")
    vs += [["p0", draw(pc), draw(odd)], ["h0", draw(pc), 0.0], ["h1", draw(pc), draw(st.integers(0, 3))],
           ["th", draw(pc), 0.0], ["q", "p", 0.25],
           ["a0", "a", 0.0]]
    # the solver package evaluates conditions at another time than that of the states when it refines its search, so
    # conditions do not depend on the time (only on states and parameters)
    reads = [f"scope.x{draw(st.integers(0, n_s - 1))}", "scope.p0", "scope.q", "scope.h0"]
    eq.append("scope.a0 = " + " + ".join(f"{draw(factor)} * {r}" for r in draw(st.permutations(reads))[:draw(st.integers(1, 3))]))
    c = dict(name="E", style="own", nss=[dict(ns="t1", vars=[list(v) for v in draw(st.permutations(vs))],
                                              eqs=[dict(name="eval", body=eq)])])
    root = dict(tag="s", items=[])
    subs = [root]
    if draw(st.booleans()):
        u = dict(tag=draw(st.sampled_from(["u0", "s"])), items=[])
        root["items"].append(u)
        subs.append(u)
    n = draw(st.integers(1, 3))
    for i in range(n):
        init = {f"t1.{t}": draw(odd) for t, k, _ in vs if k == "s" or t[0] == "r"}
        to = draw(st.sampled_from(subs))["items"]
        # items of different subsystems may have the same tag
        to.append(dict(tag=f"i{sum('items' not in x for x in to)}", cls="E", init=init))
    if len(subs) > 1 and draw(st.integers(0, 3)) == 0:
        subs[1]["cls"] = "ES"
        subs[1]["init"] = {}
        cs = dict(c, name="ES", sub=True)
        classes = [c, cs]
    else:
        classes = [c]
    if draw(st.integers(0, 3)) == 0:
        # some of the items are registered as a set
        to = draw(st.sampled_from(subs))
        inset = [x for x in to["items"] if "items" not in x]
        if inset:
            inset = inset[:draw(st.integers(1, len(inset)))]
            to["items"] = [x for x in to["items"] if x not in inset] + [dict(tag="st", set=True, items=inset)]
    spec = dict(classes=classes, root=root, maps=[], globals=[])
    drop_empty(root)
    paths = list(specs.all_vars(spec))
    for _ in range(draw(st.integers(0, 2))):
        t = draw(st.sampled_from([p for p in paths if p.endswith(".q")]))
        s = draw(st.sampled_from([p for p in paths if p.rsplit(".", 1)[1] in ("x0", "a0", "p0", "h0")]))
        if t not in {m[1] for m in spec["maps"]}:
            spec["maps"].append(["=", t, s])
    return specs.prune_cycles(spec)


def drop_empty(node):
    node["items"] = [x for x in node["items"] if "items" not in x or x["items"]]
    for x in node["items"]:
        if "items" in x:
            drop_empty(x)


@st.composite
def affine(draw, paths, n=2, t=True, must=None):
    w = [[p, draw(factor)] for p in draw(st.lists(st.sampled_from(paths), min_size=0, max_size=n, unique=True))]
    if must and must not in [p for p, _ in w]:
        w.append([must, draw(factor)])
    return dict(w=w, t=draw(st.sampled_from([0.0, 0.0, 1.0, -0.5])) if t else 0.0, c=draw(odd))


def crossing(spec, e, tc):
    """let the condition cross zero at t0 + tc (before any other event); the direction in which it does"""
    ref = specs.Ref(spec)
    y = {p: float(ref.init[p]) for p in ref.states()}
    env = dict(ref.eval(0.0, y))
    g0 = value(e["cond"], env, 0.0)
    env = ref.eval(0.0, {p: y[p] + tc * float(env[p + "_dot"]) for p in y})
    g1 = value(e["cond"], env, 0.0)
    if abs(g1 - g0) < 1e-6:
        return -1
    e["thr"] = float(g1)
    return 1 if g1 > g0 else -1


def owners(spec):
    """the subsystems"""
    root = spec["root"]["tag"]
    return [root] + [f"{root}.{k['tag']}" for k in spec["root"]["items"] if "items" in k and not k.get("set")]


@st.composite
def event(draw, spec, i, kinds, used, horizon, internal_states=True):
    paths = list(specs.all_vars(spec))
    mapped = {m[1] for m in spec["maps"]}
    kind = draw(st.sampled_from(kinds))
    levels = ["model"] + [p for p, _, _, _, _ in specs.instances(spec)] + owners(spec)
    level = draw(st.sampled_from(levels))
    pre = "" if level == "model" else level + "."
    mine = [p for p in paths if p.startswith(pre)]
    name = lambda p: p.rsplit(".", 1)[1]  # noqa
    states = [p for p in mine if name(p)[0] == "x" and not name(p).endswith("_dot")]
    external = draw(st.integers(0, 2)) == 0
    e = dict(kind=kind, level=level, key=draw(st.sampled_from([f"e{i}", f"e{i}", "event"])), external=external,
             style=draw(st.integers(0, 3)), thr=draw(odd))
    if kind == "state":
        readable = [p for p in mine if name(p) != "th" and name(p)[0] != "h" and not name(p).endswith("_dot")]
        e["cond"] = draw(affine(readable, 2, must=draw(st.sampled_from(states + [p for p in mine if name(p) == "a0"])), t=False))
        # most conditions cross zero at a chosen time
        s = crossing(spec, e, 0.3637 + draw(st.integers(0, 27)) / 19.73)
        e["dir"] = draw(st.sampled_from([-1, 1, 0, s, s, s, s]))
    elif draw(st.integers(0, 2)) == 0:
        e["period"] = draw(st.sampled_from([0.25, 0.3, 0.5, 0.7, 1.0]))
    else:
        e["array"] = draw(st.booleans())
        e["ts"] = sorted(draw(st.lists(st.sampled_from(TIMES), min_size=1,
                                       max_size=4, unique=True)))
    can = [p for p in mine if name(p)[0] in "rp" and p not in mapped]
    if internal_states and (kind == "state" or external):
        can += states * 2
    acts = [dict(target=draw(st.sampled_from([p for p in mine if name(p) == "h0"])), add=True,
                 rhs=dict(w=[], t=0.0, c=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-8]))))]
    for _ in range(draw(st.integers(0, 2))):
        tg = draw(st.sampled_from(can + [p for p in mine if name(p) == "th"]))
        if name(tg) == "th":
            a = dict(target=tg, add=False, rhs=dict(w=[], t=1.0, c=0.0))
        elif name(tg)[0] == "r" and draw(st.booleans()):
            a = dict(target=tg, add=False, rhs=dict(w=[[tg, -1.0]], t=0.0, c=0.0))
        else:
            a = dict(target=tg, add=draw(st.booleans()),
                     rhs=draw(affine([p for p in mine if not name(p).endswith("_dot") and name(p) != "th"], 2)))
        if draw(st.integers(0, 4)) == 0:
            a["when"] = [draw(st.sampled_from([p for p in mine if name(p)[0] == "h"])), draw(st.sampled_from([0.5, 1.5, 2.5]))]
        acts.insert(draw(st.integers(0, len(acts))), a)
    saw = [p for p, _ in e["cond"]["w"] if p in states] if kind == "state" and internal_states else []
    if saw and draw(st.integers(0, 2)) == 0:
        # a sawtooth: the event sends the state back to where it comes from, again and again
        x = saw[-1]
        f = dict(e["cond"]["w"])[x]
        back = dict(target=x, add=True, rhs=dict(w=[], t=0.0, c=-s * draw(st.sampled_from([0.17, 0.3, 0.55])) / f))
        e["dir"] = s
        acts = [a for a in acts if a["target"][-2:] in ("h0", "th")] + [back]
        if acts[0] is back:
            acts = acts[::-1]
    e["acts"] = acts
    return e


@st.composite
def programs(draw, kinds=("state",), max_events=3):
    spec = draw(systems())
    events = [draw(event(spec, i, list(kinds), set(), 2.0)) for i in range(draw(st.integers(1, max_events)))]
    return dict(spec=spec, events=events)


# ---------------------------------------------------------------- source

def rel(e, path):
    return path if e["level"] == "model" else path[len(e["level"]) + 1:]


def aff_source(e, a, ref):
    parts = [f"{f!r} * {ref(p)}" for p, f in a["w"]]
    if a["t"]:
        parts.append(f"{a['t']!r} * t")
    parts.append(repr(a["c"]))
    return " + ".join(parts)


def event_source(i, e):
    """ev<i>(thr, pre, log) -> (condition or None, action)"""
    if e.get("flat"):
        return flat_source(i, e)
    out = [f"def ev{i}(thr, pre, log):\n"]

    def function(fname, arg, body):
        """body: (statements builder(ref)); paths are written in the style of the event"""
        paths = {}
        head = []

        def ref(p, store=False):
            r = rel(e, p)
            if e["style"] == 0:
                return f"{arg}[{r!r}]"
            if e["style"] == 1:
                if p not in paths:
                    paths[p] = f"path{len(paths)}"
                    head.append(f"        {paths[p]} = {r!r}\n")
                return f"{arg}[{paths[p]}]"
            if e["style"] == 2:
                if p not in paths:
                    paths[p] = f"path{len(paths)}"
                    if e["level"] == "model":
                        head.append(f"        {paths[p]} = pre + {r[1:]!r}\n")
                    else:
                        head.append(f"        {paths[p]} = pre + {r!r}\n")
                return f"{arg}[{paths[p]}]"
            if store:
                return f"{arg}[{r!r}]"
            return f"{arg}[{r!r}]"
        lines = body(ref)
        return [f"    def {fname}(t, {arg}):\n"] + head + lines + ["\n"]

    arg = ["variables", "v", "variables", "data"][e["style"]]
    if e["kind"] == "state":
        if e["style"] == 3:
            def cond(ref):
                ls = []
                names = {}
                for j, (p, _) in enumerate(e["cond"]["w"]):
                    names[p] = f"val{j}"
                    ls.append(f"        val{j} = {ref(p)}\n")
                return ls + [f"        result_ = {aff_source(e, e['cond'], lambda p: names[p])} - thr\n", "        return result_\n"]
        else:
            def cond(ref):
                return [f"        return {aff_source(e, e['cond'], ref)} - thr\n"]
        out += function("condition", arg, cond)
    else:
        out.append("    condition = None\n\n")

    def acts(ref):
        ls = []
        if e["external"]:
            ls.append(f"        log.append(({i}, t, dict({arg})))\n")
        for j, a in enumerate(e["acts"]):
            ind = "        "
            if a.get("when"):
                ls.append(f"{ind}if {ref(a['when'][0])} > {a['when'][1]!r}:\n")
                ind += "    "
            src = aff_source(e, a["rhs"], ref) + (" + thr" if j == 0 and "h0" not in a["target"] else "")
            if a["add"] and e["style"] in (0, 3):
                ls.append(f"{ind}{ref(a['target'], True)} += {src}\n")
            elif a["add"]:
                ls.append(f"{ind}{ref(a['target'], True)} = {ref(a['target'])} + {src}\n")
            else:
                ls.append(f"{ind}{ref(a['target'], True)} = {src}\n")
        return ls
    out += function("action", arg, acts)
    out.append("    return condition, action\n\n\n")
    return "".join(out)


def flat_source(i, e):
    """the same functions at the top level of the module (so that they can be pickled)"""
    src = event_source(i, dict(e, flat=False, style=e["style"] if e["style"] != 2 else 1)).split("\n")[1:]
    src = [ln[4:] for ln in src if not ln.startswith("    return condition")]
    src = "\n".join(src).replace("def condition(", f"def condition{i}(").replace("def action(", f"def action{i}(")
    src = src.replace("thr", repr(e["thr"])).replace("log.append", "LOG.append").replace("condition = None", f"condition{i} = None")
    return f"{src}\n\n\ndef ev{i}(thr, pre, log):\n    return condition{i}, action{i}\n\n\n"


def source(case):
    return specs.module_source(case["spec"]) + "\n\n" + "".join(event_source(i, e) for i, e in enumerate(case["events"]))


def build(case, ctx, **kw):
    """(built, log): log collects the calls of the external actions"""
    mod = specs.load_module(source(case), ctx.dir)
    log = mod.LOG = []
    fs = []
    root = case["spec"]["root"]["tag"]
    for i, e in enumerate(case["events"]):
        pre = root[0] if e["level"] == "model" else ""
        fs.append(getattr(mod, f"ev{i}")(e["thr"], pre, log))

    def add(to, e, f):
        if e["kind"] == "state":
            to.add_event(e["key"], f[0], f[1], direction=e["dir"], is_external=e["external"])
        elif "period" in e:
            to.add_timestamp_event(e["key"], f[1], periodicity=e["period"], is_external=e["external"])
        else:
            to.add_timestamp_event(e["key"], f[1], timestamps=np.array(e["ts"]) if e.get("array") else list(e["ts"]), is_external=e["external"])

    def extra(items):
        for e, f in zip(case["events"], fs):
            if e["level"] != "model":
                add(items[e["level"]], e, f)

    b = specs.build(case["spec"], ctx, mod=mod, extra=extra, **kw)
    for e, f in zip(case["events"], fs):
        if e["level"] == "model":
            add(b.model, e, f)
    return b, log


# ---------------------------------------------------------------- reference

def value(a, env, t):
    return sum(f * float(env[p]) for p, f in a["w"]) + a["t"] * t + a["c"]


class Row:
    def __init__(self, t, env, why):
        self.t, self.env, self.why = t, env, why


def reference(case, grid, max_events=14):
    """(rows, calls): rows in the order of the history; calls [(event index, t, values before the action)]"""
    spec = case["spec"]
    ref = specs.Ref(spec)
    states = ref.states()
    y = {p: float(ref.init[p]) for p in states}
    evs = [dict(e) for e in case["events"]]
    t = float(grid["t0"])
    t1 = float(grid["t1"])
    ge = [float(x) for x in np.linspace(t, t1, grid["num"] + 1)]
    rows, calls = [], []
    n_ev = 0

    def at(tt, yy):
        return {k: float(v) for k, v in ref.eval(tt, yy).items()}

    def slopes(tt, yy):
        env = at(tt, yy)
        return {p: env[p + "_dot"] for p in states}

    def adv(dt, r):
        return {p: y[p] + r[p] * dt for p in states}

    def gval(e, tt, yy):
        return value(e["cond"], at(tt, yy), tt) - e["thr"]

    def act(i, tt):
        """run the action at tt; updates y and the parameters"""
        nonlocal y
        e = evs[i]
        env = at(tt, y)
        calls.append((i, tt, dict(env)))
        for j, a in enumerate(e["acts"]):
            if a.get("when") and not env[a["when"][0]] > a["when"][1]:
                continue
            v = value(a["rhs"], env, tt) + (e["thr"] if j == 0 and "h0" not in a["target"] else 0.0)
            env[a["target"]] = env[a["target"]] + v if a["add"] else v
            if abs(env[a["target"]]) > 1e4:
                raise Skip
        for a in e["acts"]:
            if a["target"] in y:
                y[a["target"]] = env[a["target"]]
            else:
                ref.env[a["target"]] = np.float64(env[a["target"]])

    # pending time events
    if any(e["external"] and e["kind"] == "time" for e in evs) and any(e["external"] and e["kind"] == "state" for e in evs):
        raise Skip  # the solver package runs external time events whenever it stops, here for the state event
    times = []
    for i, e in enumerate(evs):
        if e["kind"] == "time":
            if "period" in e:
                k = 0
                while k * e["period"] <= t1 + 1:
                    times.append((sum([e["period"]] * k), i))
                    k += 1
            else:
                if e["external"] and e["ts"][0] < t:
                    raise Skip  # the solver package counts external timestamps from the first one
                times += [(x, i) for x in e["ts"] if x >= t]
    times = sorted(x for x in times if x[0] <= t1 + 1e-9)

    rows.append(Row(t, at(t, y), "grid"))
    gi = 1
    just = None
    fresh = True
    last = -1.0
    n_time = 0
    while True:
        r = slopes(t, y)
        # next state event
        best = None
        for i, e in enumerate(evs):
            if e["kind"] != "state":
                continue
            g0 = gval(e, t, y)
            B = gval(e, t + 1.0, adv(1.0, r)) - g0
            if fresh and abs(g0) < 0.02:
                if just != i:
                    raise Skip
                # fine when the condition leaves zero without another crossing
                s = float(np.sign(B))
                if e["dir"] and s == e["dir"] and (abs(g0) > 1e-9 or e.get("_set")):
                    raise Skip
                if e["dir"] and s != e["dir"] and g0 * s < -1e-9:
                    raise Skip
                if not e["dir"] and s != e.get("_way"):
                    raise Skip
                if abs(B) < 0.02:
                    raise Skip
            if abs(B) < 1e-9:
                continue
            tc = -g0 / B
            if tc <= (1e-6 if just == i else 0):
                continue
            if abs(B) < 0.02 and t + tc < t1 + NEAR:
                raise Skip
            s = 1 if B > 0 else -1
            if e["dir"] and s != e["dir"]:
                continue
            if best is not None and abs(best[0] - (t + tc)) < NEAR:
                if min(best[0], t + tc) < t1 + NEAR:
                    raise Skip
            if best is None or t + tc < best[0]:
                best = (t + tc, i, s)
        tt = times[0][0] if times else np.inf
        tg = ge[gi] if gi < len(ge) else np.inf
        ts = best[0] if best else np.inf
        if ts < t1 + NEAR and (abs(ts - tt) < NEAR or min(abs(ts - x) for x in ge) < 1e-3 or ts < ge[0] + FIRST or
                               ts - last < NEAR):
            raise Skip
        nxt = min(tt, tg, ts)
        fresh = False
        if nxt == np.inf or nxt > t1 + 1e-9:
            break
        y = adv(nxt - t, r)
        t = nxt
        if ts == nxt:
            i = best[1]
            e = evs[i]
            env0 = {j: gval(q, t, y) for j, q in enumerate(evs) if q["kind"] == "state"}
            act(i, t)
            for j, q in enumerate(evs):
                if q["kind"] != "state":
                    continue
                g1 = gval(q, t, y)
                if j != i and (g1 * env0[j] <= 0 or abs(g1) < 0.02 or abs(env0[j]) < 0.02):
                    raise Skip
                if j == i:
                    q["_set"] = abs(g1 - env0[j]) > 1e-12
                    q["_way"] = best[2]
                    if not q["dir"] and abs(g1) > 1e-9:
                        raise Skip
            just = i
            fresh = True
            last = t
            n_ev += 1
            if not e["external"]:
                rows.append(Row(t, at(t, y), "state"))
        elif tt == nxt or (abs(tt - nxt) < 1e-9):
            now = [i for x, i in times if abs(x - tt) < 1e-9]
            if any(1e-9 < abs(x - tt) < NEAR for x, i in times):
                raise Skip
            times = [(x, i) for x, i in times if abs(x - tt) >= 1e-9]
            if len(now) > 1:
                for i in now:
                    tg_i = {a["target"] for a in evs[i]["acts"]}
                    for j in now:
                        reads = {p for a in evs[j]["acts"] for p, _ in a["rhs"]["w"]} | \
                                {a["when"][0] for a in evs[j]["acts"] if a.get("when")} | \
                                ({a["target"] for a in evs[j]["acts"]})
                        if i != j and (tg_i & reads or any(p.endswith(".a0") or p.endswith(".q") for p in reads)):
                            raise Skip
                if len({evs[i]["external"] for i in now}) > 1:
                    raise Skip
            env0 = {j: gval(q, t, y) for j, q in enumerate(evs) if q["kind"] == "state"}
            for i in now:
                act(i, t)
                n_ev += 1
            n_time += len(now)
            for j, q in enumerate(evs):
                if q["kind"] == "state":
                    g1 = gval(q, t, y)
                    if g1 * env0[j] <= 0 or abs(g1) < 0.02:
                        raise Skip
            just = None
            fresh = True
            last = t
            if not evs[now[0]]["external"]:
                rows.append(Row(t, at(t, y), "time"))
            if abs(tg - t) < 1e-9:
                rows.append(Row(t, at(t, y), "grid"))
                gi += 1
        else:
            rows.append(Row(t, at(t, y), "grid"))
            gi += 1
        if n_ev > max_events:
            raise Skip
    return rows, calls


def same(p, a, b, vtol):
    # the counters do not depend on when the events happened
    return specs.close(a, b, rtol=1e-12, atol=1e-12) if p.rsplit(".", 1)[1] == "h0" else specs.close(a, b, rtol=vtol, atol=vtol)


def compare(case, rows, calls, h, log, ttol=1e-4, vtol=2e-3):
    vs = specs.all_vars(case["spec"])
    got = [(i, t) for i, t, _ in log]
    want = [(i, t) for i, t, _ in calls if case["events"][i]["external"]]
    if [i for i, _ in got] != [i for i, _ in want] and sorted(i for i, _ in got) == sorted(i for i, _ in want):
        # simultaneous events are run in an order of their own
        key = lambda x: (round(x[1], 3), x[0])  # noqa
        got, want = sorted(got, key=key), sorted(want, key=key)
    if [i for i, _ in got] != [i for i, _ in want] or any(abs(a[1] - b[1]) > ttol for a, b in zip(got, want)):
        raise Violation(f"external actions (event, time) were called {got[:20]}, expected {want[:20]}")
    for (i, t, env), (j, t2, env2) in zip(sorted(log, key=lambda x: (round(x[1], 3), x[0])),
                                          sorted([c for c in calls if case["events"][c[0]]["external"]],
                                                 key=lambda x: (round(x[1], 3), x[0]))):
        e = case["events"][i]
        if sum(abs(t2 - c[1]) < 1e-6 for c in calls) > 1:
            continue  # simultaneous events are run in an order of their own
        for p in vs:
            r = p if e["level"] == "model" else (rel(e, p) if p.startswith(e["level"] + ".") else p)
            if r not in env:
                raise Violation(f"the external action of event {i} got no variable {r}: {sorted(env)[:20]}")
            if not same(p, env[r], env2[p], vtol):
                raise Violation(f"the external action of event {i} at t={t} got {r} = {env[r]!r}, it is {env2[p]!r}")
    if len(h.time) != len(rows):
        raise Violation(f"{len(h.time)} rows at {[float(x) for x in h.time][:40]}, expected {len(rows)} at "
                        f"{[(r.t, r.why) for r in rows][:40]}")
    for i, r in enumerate(rows):
        if abs(h.time[i] - r.t) > ttol:
            raise Violation(f"row {i} is at t={h.time[i]}, expected {r.t} ({r.why}); times {[float(x) for x in h.time][:40]}, "
                            f"expected {[(q.t, q.why) for q in rows][:40]}")
        row = h.row(i)
        for p in vs:
            if not same(p, row[p], r.env[p], vtol):
                raise Violation(f"row {i} (t={h.time[i]}, {r.why}): {p} is {row[p]!r}, expected {r.env[p]!r}")
