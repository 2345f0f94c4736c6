"""Hypothesis strategies for system specs."""
from hypothesis import strategies as st

from vlib import specs

num = st.one_of(st.integers(-12, 12).map(lambda i: i / 4), st.integers(-4, 5), st.floats(-3, 3).map(lambda x: round(x, 3)))
fnum = num.map(float)
pos = st.integers(1, 16).map(lambda i: i / 4)


# constants which differ from others in the last digits only
CLOSE = st.sampled_from(["1.0000003", "1.0000006", "0.25000004", "2.0000007", "3.1415926", "3.1415927"])


def lit(v):
    return repr(v)


@st.composite
def expr(draw, names, depth, o):
    """names: readable names ('scope.x', local names...)"""
    k = draw(st.integers(0, 15)) if depth > 0 else 0
    sub = expr(names, depth - 1, o)
    if o.get("smooth"):
        if k == 12:
            return f"{draw(st.sampled_from(['np.sin', 'np.cos', 'np.tanh']))}({draw(sub)})"
        if k > 12:
            k = 7
    if k <= 3 or depth <= 0:
        if names and draw(st.integers(0, 4)) > 0:
            return draw(st.sampled_from(names))
        if o.get("globals") and draw(st.integers(0, 3)) == 0:
            return "scope.global_vars." + draw(st.sampled_from(o["globals"]))
        if o.get("closure") and draw(st.integers(0, 4)) == 0:
            return draw(st.sampled_from(["KC0", "KC1", "np.pi"]))
        if draw(st.integers(0, 7)) == 0:
            return draw(CLOSE)
        return lit(draw(num))
    if k <= 7:
        op = draw(st.sampled_from(["+", "-", "*", "+", "-"]))
        return f"({draw(sub)} {op} {draw(sub)})"
    if k == 8:
        return f"(-{draw(sub)})"
    if k == 9:
        return f"({draw(sub)} / {lit(draw(pos))})"
    if k == 10:
        if o.get("rawdiv") and names and draw(st.booleans()):
            sc = [n for n in names if n.startswith("scope.")]
            if sc:
                return f"({draw(sub)} / {draw(st.sampled_from(sc))})"
        return f"({draw(sub)} / ({lit(draw(pos))} + ({draw(sub)}) ** 2))"
    if k == 11:
        return f"({draw(sub)} ** {draw(st.sampled_from([2, 3]))})"
    if k == 12:
        f = draw(st.sampled_from(["np.sin", "np.cos", "np.tanh", "np.abs", "np.sin"]))
        return f"{f}({draw(sub)})"
    if k == 13:
        if o.get("functions"):
            f = draw(st.sampled_from(["mf0", "mf1"] + (["self.sf"] if o.get("selffn") else [])))
            if f == "mf1":
                a, b, how = draw(sub), draw(sub), draw(st.integers(0, 4))
                return f"mf1({a}, {b})" if how > 1 else f"mf1({a}, y={b})" if how else f"mf1(y={b}, x={a})"
            return f"{f}({draw(sub)})"
        return f"np.maximum({draw(sub)}, {draw(sub)})"
    if k == 14 and o.get("ifexp", True):
        return f"({draw(sub)} if {draw(compare(names, depth - 1, o))} else {draw(sub)})"
    f = draw(st.sampled_from(["np.minimum", "np.maximum"]))
    return f"{f}({draw(sub)}, {draw(sub)})"


@st.composite
def compare(draw, names, depth, o):
    sub = expr(names, max(depth, 0), o)
    ops = st.sampled_from(["<", "<=", ">", ">=", "==", "!="])
    s = f"{draw(sub)} {draw(ops)} {draw(sub)}"
    if draw(st.integers(0, 5)) == 0:
        s += f" {draw(ops)} {draw(sub)}"
    return s


@st.composite
def eq_body(draw, reads, targets, o):
    """statements which assign every target at least once"""
    names = list(reads)
    lines = []
    local = 0
    todo = list(targets)
    done = []
    depth = o.get("depth", 2)
    ex = lambda: draw(expr(names, draw(st.integers(0, depth)), o))  # noqa
    while todo:
        k = draw(st.integers(0, 9)) if o.get("stmts", True) else 0
        if k == 1 and local < 3:
            nm = f"v{local}"
            local += 1
            lines.append(f"{nm} = {ex()}")
            names.append(nm)
            continue
        if k == 2 and len(todo) >= 2:
            a, b = todo.pop(0), todo.pop(0)
            lines.append(f"scope.{a}, scope.{b} = ({ex()}, {ex()})")
            names += [f"scope.{a}", f"scope.{b}"]
            done += [a, b]
            continue
        if k == 3 and len(todo) >= 2 and o.get("functions"):
            a, b = todo.pop(0), todo.pop(0)
            lines.append(f"scope.{a}, scope.{b} = mf2({ex()}, {ex()})")
            names += [f"scope.{a}", f"scope.{b}"]
            done += [a, b]
            continue
        if k == 8 and len(todo) >= 2 and o.get("chains", True):
            # one value for several targets, or a target which is also used for another one
            a, b = todo.pop(0), todo.pop(0)
            lines.append(f"scope.{a} = scope.{b} = {ex()}")
            names += [f"scope.{a}", f"scope.{b}"]
            done += [a, b]
            continue
        if k == 9 and o.get("chains", True):
            # values of a tuple assignment are those before any of its targets changes
            own = [d for d in done if d not in o.get("once", set())]
            loc = [n for n in names if not n.startswith("scope.") and n.startswith("v")]
            t = draw(st.permutations([f"scope.{d}" for d in own] + loc))[:3]
            if len(t) > 1:
                vals = [draw(st.sampled_from(t)) if draw(st.booleans()) else f"{draw(st.sampled_from(t))} + {ex()}"
                        for _ in t]
                lines.append(f"{', '.join(t)} = {', '.join(vals)}" if draw(st.booleans()) else
                             f"{', '.join(t)} = ({', '.join(vals)})")
                continue
        if k == 4 and local < 3 and o.get("lists", True):
            nm = f"w{local}"
            local += 1
            lines.append(f"{nm} = [{ex()}, {ex()}, {ex()}]")
            a = todo.pop(0)
            lines.append(f"scope.{a} = {nm}[{draw(st.integers(0, 2))}] + {nm}[{draw(st.integers(0, 2))}]")
            names.append(f"scope.{a}")
            done.append(a)
            continue
        a = todo.pop(0)
        lines.append(f"scope.{a} = {ex()}")
        names.append(f"scope.{a}")
        done.append(a)
        once = o.get("once", set())
        if a in once:
            continue
        if k == 5:
            op = draw(st.sampled_from(["+", "-", "*"]))
            lines.append(f"scope.{a} {op}= {ex()}")
        elif k == 6 and o.get("ifs", True):
            # functions of self cannot be called inside of an if statement
            oi = dict(o, selffn=False)
            exi = lambda: draw(expr(names, draw(st.integers(0, depth)), oi))  # noqa
            inner = [f"    scope.{draw(st.sampled_from([a] + [d for d in done if d not in once][:1]))} = {exi()}"]
            if draw(st.booleans()):
                inner.append(f"    scope.{a} = {exi()}")
            if o.get("elses", True):
                assign = lambda ind: f"{ind}scope.{draw(st.sampled_from([a] + [d for d in done if d not in once][:2]))} = {exi()}"  # noqa
                n_else = draw(st.integers(0, 4))
                if n_else == 1:
                    inner += ["else:", assign("    ")]
                elif n_else == 2:
                    inner += [f"elif {draw(compare(names, 1, oi))}:", assign("    "), "else:", assign("    ")]
                elif n_else == 3:
                    inner += [f"    if {draw(compare(names, 1, oi))}:", assign("        ")]
                    if draw(st.booleans()):
                        inner += ["    else:", assign("        "), assign("    ")]
            lines.append(f"if {draw(compare(names, 1, oi))}:\n" + "\n".join(inner))
        elif k == 7:
            lines.append(f"scope.{a} = {ex()}")
    return lines


@st.composite
def stable_body(draw, names, n_s, o):
    """state equations with bounded solutions"""
    o = dict(o, smooth=o.get("smooth", False))
    return [f"scope.x{i}_dot = {lit(draw(fnum))} * np.{draw(st.sampled_from(['tanh', 'sin']))}"
            f"({draw(expr(names, draw(st.integers(0, 2)), o))}) - {lit(draw(pos))} * scope.x{i}" for i in range(n_s)]


@st.composite
def klass(draw, name, o):
    """one item class with 1-2 namespaces"""
    c = dict(name=name, style=draw(st.sampled_from(["own", "own", "inherit"])), nss=[])
    nns = draw(st.integers(1, o.get("max_ns", 2)))
    nsn = o["ns_names"][:nns] if o.get("ns_names") else draw(st.permutations(["t1", "m", "t2"]))[:nns]
    for ns in nsn:
        n_s = draw(st.integers(0, o.get("max_states", 2)))
        n_p = draw(st.integers(1, 3))
        n_c = draw(st.integers(0, 1))
        n_a = draw(st.integers(0 if n_s else 1, o.get("max_out", 3)))
        val = draw(st.sampled_from([num, fnum]))
        vs = [[f"x{i}", "s", draw(val)] for i in range(n_s)] + [[f"p{i}", "p", draw(val)] for i in range(n_p)] + \
             [[f"k{i}", "c", draw(val)] for i in range(n_c)] + [[f"a{i}", "a", draw(val)] for i in range(n_a)]
        vs = draw(st.permutations(vs))
        oo = dict(o)
        selffn = bool(o.get("selffns") and draw(st.integers(0, 3)) == 0)
        oo["selffn"] = selffn
        base = [f"scope.{t}" for t, k, _ in vs if k in "spc"]
        outs = [f"a{i}" for i in range(n_a)]
        dots = [] if o.get("stable") else [f"x{i}_dot" for i in range(n_s)]
        targets = draw(st.permutations(outs + dots))
        # split the targets over 1-3 equations; an equation may read what the ones before it in `order` assign
        n_e = max(1, min(len(targets), draw(st.integers(1, 3))))
        parts = [targets[i::n_e] for i in range(n_e)]
        names = draw(st.permutations(["eval", "b_eq", "z_eq"]))[:n_e]
        eqs = []
        avail = list(base)
        for nm, part in zip(names, parts):
            eqs.append(dict(name=nm, body=draw(eq_body(avail, part, oo))))
            avail = avail + [f"scope.{t}" for t in part if not t.endswith("_dot") or o.get("read_dots")]
        if o.get("stable"):
            eqs.append(dict(name="dyn", body=draw(stable_body(base + [f"scope.{a}" for a in outs], n_s, oo))))
        eqs = [e for e in draw(st.permutations(eqs)) if e["body"]]
        c["nss"].append(dict(ns=ns, vars=[list(v) for v in vs], eqs=[dict(e) for e in eqs], selffn=selffn,
                             off=draw(fnum) if selffn else 0.0))
        if o.get("two", True) and draw(st.integers(0, 3)) == 0:
            c["nss"][-1]["two"] = draw(st.integers(1, 60))
        elif draw(st.integers(0, 4)) == 0:
            c["nss"][-1]["dots"] = draw(st.integers(1, 2))
    return c


@st.composite
def item_node(draw, tag, classes, o):
    c = draw(st.sampled_from(classes))
    init = {}
    for ns in c["nss"]:
        for t, k, v in ns["vars"]:
            if k in "spc" and draw(st.integers(0, 2)) == 0:
                init[f"{ns['ns']}.{t}"] = draw(num)
    return dict(tag=tag, cls=c["name"], init=init)


@st.composite
def tree(draw, classes, o, subclasses=(), setclasses=()):
    n = draw(st.integers(1, o.get("max_items", 4)))
    root = dict(tag=draw(st.sampled_from(["s", "sys", "i0"])), items=[])
    subs = [root]
    for i in range(draw(st.integers(0, o.get("max_subs", 2)))):
        par = draw(st.sampled_from(subs))
        s = dict(tag=f"u{i}", items=[])
        par["items"].append(s)
        subs.append(s)
    cnt = {}
    for i in range(n):
        par = draw(st.sampled_from(subs))
        j = cnt.get(id(par), 0)
        cnt[id(par)] = j + 1
        par["items"].append(draw(item_node(f"i{j}", classes, o)))
    for i in range(draw(st.integers(o.get("min_sets", 1), o.get("max_sets", 2))) if setclasses else 0):
        par = draw(st.sampled_from(subs))
        c = draw(st.sampled_from(list(setclasses)))
        k = draw(st.integers(1, o.get("max_set_size", 4)))
        par["items"].append(dict(tag=f"st{i}", set=True,
                                 items=[draw(item_node(f"e{i}{j}", [c], o)) for j in range(k)]))
    for s in subs:
        if subclasses and draw(st.integers(0, 2)) == 0:
            c = draw(st.sampled_from(list(subclasses)))
            s["cls"] = c["name"]
            s["init"] = {}
    return root


def siblings(path, paths):
    """the variables of the same name in the elements of the same set"""
    parts = path.split(".")
    k = next((i for i, q in enumerate(parts) if q.startswith("SET_")), None)
    if k is None:
        return [path]
    return [q for q in paths if q.split(".")[:k + 1] == parts[:k + 1] and q.split(".")[k + 2:] == parts[k + 2:]]


@st.composite
def mappings(draw, spec, o):
    vs = specs.all_vars(spec)
    paths = list(vs)
    tg = [p for p in paths if vs[p][0] == "p"]
    tg_a = [p for p in paths if vs[p][0] == "a"]
    maps = []
    used = {}
    for _ in range(draw(st.integers(o.get("min_maps", 0), o.get("max_maps", 4)))):
        onto_eq = tg_a and o.get("map_onto_eq", True) and draw(st.integers(0, 3)) == 0
        pool = tg_a if onto_eq else tg
        if not pool:
            continue
        t = draw(st.sampled_from(pool))
        s = draw(st.sampled_from(paths))
        if s == t:
            continue
        op = "+=" if onto_eq else draw(st.sampled_from(["=", "+="]))
        if used.get(t) == "=" or (used.get(t) == "+=" and op == "="):
            continue
        if (op, t, s) in [tuple(m) for m in maps] and not (op == "+=" and o.get("dup_maps")):
            continue
        used[t] = op
        maps.append([op, t, s])
        if o.get("sets") and draw(st.integers(0, 2)) == 0:
            # the same between other elements of the sets
            for _ in range(draw(st.integers(1, 4))):
                how = draw(st.integers(0, 2))
                t2 = draw(st.sampled_from(siblings(t, paths))) if how else t
                s2 = draw(st.sampled_from(siblings(s, paths))) if how != 1 else s
                if t2 != s2 and (op == "+=" and used.get(t2) != "=" or t2 not in used) and [op, t2, s2] not in maps:
                    used[t2] = op
                    maps.append([op, t2, s2])
        if op == "+=" and draw(st.integers(0, 2)) == 0:
            # and other sources, of which some are not in a set
            for s2 in draw(st.lists(st.sampled_from(paths), min_size=1, max_size=3)):
                if s2 != t and [op, t, s2] not in maps and not ("SET_" in s2 and draw(st.booleans())):
                    maps.append([op, t, s2])
        if o.get("dup_maps") and op == "+=" and draw(st.integers(0, 5)) == 0:
            # the same source once more, directly or by way of another variable
            vias = [p for p in tg if p not in used and p != s and p not in [m[2] for m in maps]]
            if vias and draw(st.booleans()):
                v = draw(st.sampled_from(vias))
                used[v] = "="
                maps += [["=", v, s], [op, t, v]]
            else:
                maps.append([op, t, s])
    return maps


@st.composite
def system(draw, **o):
    """a whole spec"""
    o = dict(o)
    glob = []
    if o.pop("with_globals", True):
        glob = [[f"g{i}", draw(fnum)] for i in range(draw(st.integers(0, 2)))]
        o["globals"] = ["t"] + [g for g, _ in glob]
    ncl = draw(st.integers(1, o.get("max_classes", 2)))
    classes = [draw(klass(f"C{i}", o)) for i in range(ncl)]
    sub = []
    if o.get("sub_eqs") and draw(st.integers(0, 3)) == 0:
        c = draw(klass("Sub0", o))
        c["sub"] = True
        sub = [c]
    sets = []
    if o.get("sets"):
        # equations of a set cannot use global variables
        os_ = dict(o, selffns=False, max_ns=o.get("set_ns", 2))
        os_.pop("globals", None)
        sets = [draw(klass(f"E{i}", os_)) for i in range(draw(st.integers(1, 2)))]
    spec = dict(classes=classes + sub + sets, root=draw(tree(classes, o, sub, sets)), maps=[], globals=glob)
    used = {n[1]["name"] for n in specs.instances(spec)}
    spec["classes"] = [c for c in spec["classes"] if c["name"] in used]
    if o.get("apart") and len(spec["classes"]) > 1 and draw(st.integers(0, 2)) == 0:
        spec["apart"] = True
    if o.get("max_maps", 4):
        spec["maps"] = draw(mappings(spec, o))
        if draw(st.integers(0, 3)) == 0:
            spec["map_style"] = "method"
        spec = specs.prune_cycles(spec)
    return spec


@st.composite
def points(draw, spec, n_max=3, set_params=True):
    """evaluation points: time, state values, parameter changes"""
    vs = specs.all_vars(spec)
    targets = {m[1] for m in spec.get("maps", [])}
    states = [p for p, (k, _) in vs.items() if k == "s"]
    params = [p for p, (k, _) in vs.items() if k in "pc" and p not in targets]
    out = []
    for _ in range(draw(st.integers(1, n_max))):
        out.append(dict(t=draw(st.sampled_from([0.0, 0.5, 1.25, 7.0])), y={p: draw(fnum) for p in states},
                        set={p: draw(fnum) for p in params if set_params and draw(st.integers(0, 3)) == 0}))
    return out


@st.composite
def forms(draw, spec, forms=("dec", "inline", "inline", "add")):
    """lets equations of the classes be declared from text or as functions"""
    for c in spec["classes"]:
        if c.get("conn"):
            continue
        c["style"] = "own"
        for ns in c["nss"]:
            ns["forms"] = {}
            ns["indent"] = draw(st.sampled_from([0, 4, 8, 3]))
            if ns.get("two") or ns.get("selffn"):
                continue
            for e in ns["eqs"]:
                how = draw(st.sampled_from(forms))
                if how != "dec":
                    ns["forms"][e["name"]] = how
    return spec
