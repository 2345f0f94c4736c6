"""C05: connectors wire the items they are bound to like direct mappings."""
from hypothesis import strategies as st

from props import c01
from vlib import gen, specs
from vlib.core import Violation

ID = "C05"
RULE = ("A case is a generated system with 1-3 connectors (one-way, two-way, multi-way, connector items, connecting subsystems; "
        "several instances of one connector class) whose classes read variables of their bindings, write or add to them, or pass "
        "a variable of one side on to the other, bound to items, set members and other connectors before or after registration "
        "and in any order of the sides; the values at 1-3 points are compared with the reference in which each of these is a "
        "direct mapping. Non-trivial: at least one connection survived the acyclicity filter.")
OPTS = dict(globals=True, depth=1, max_maps=3, max_items=4, max_ns=2, max_states=1, max_out=2, max_subs=2, sets=True, min_sets=0,
            max_sets=1, ns_names=["t1", "m"])
warmup = c01.warmup
BASES = {"ConnectorOneWay": 1, "ConnectorTwoWay": 2, "ConnectorMultiWay": 3, "ConnectorItem": 2, "Subsystem": 2}


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    o = dict(OPTS)
    o.pop("globals")
    subs = []

    def walk(n):
        if "items" in n and not n.get("set"):
            subs.append(n)
            for k in n["items"]:
                walk(k)
    walk(spec["root"])
    ninst = 0
    binds = []
    conns = []
    for ci in range(draw(st.integers(1, 2))):
        base = draw(st.sampled_from(list(BASES)))
        names = draw(st.permutations(["side1", "side2", "inlet", "b"]))[:BASES[base]]
        if draw(st.booleans()) and base == "ConnectorTwoWay":
            names = ["side1", "side2"]
        c = draw(gen.klass(f"K{ci}", o))
        c["conn"] = dict(base=base, bindings=names, vars=[], wires=[])
        if base == "Subsystem":
            c["sub"] = True
        nodes = []
        for _ in range(draw(st.integers(1, 2))):
            nd = dict(tag=f"k{ninst}", cls=c["name"], init={})
            if base == "Subsystem":
                nd["items"] = []
            ninst += 1
            draw(st.sampled_from(subs))["items"].append(nd)
            nodes.append(nd)
        spec["classes"].append(c)
        conns.append((c, nodes))
    insts = specs.instances(spec)
    path_of = {id(nd): p for p, _, _, nd, _ in insts}
    vs = specs.all_vars(spec)
    derived = []
    for c, nodes in conns:
        conn = c["conn"]
        need = {ns["ns"] for ns in c["nss"]}
        ok = {p: cl for p, cl, _, nd, _ in insts if need <= {ns["ns"] for ns in cl["nss"]}}
        mine = []
        for nd in nodes:
            b = {}
            for s in conn["bindings"]:
                cand = [p for p in ok if p != path_of[id(nd)]]
                if cand:
                    b[s] = draw(st.sampled_from(cand)) if not b or draw(st.integers(0, 3)) else list(b.values())[0]
            order = list(draw(st.permutations(list(b))))
            binds.append(dict(path=path_of[id(nd)], to={s: b[s] for s in order}, early=draw(st.booleans()),
                              one_by_one=draw(st.booleans())))
            mine.append((path_of[id(nd)], b))
        sides = [s for s in conn["bindings"] if all(s in b for _, b in mine)]
        # variables which all items bound to a side have
        common = {}
        for s in sides:
            sets = [{(ns["ns"], v[0], v[1]) for ns in ok[b[s]]["nss"] if ns["ns"] in need for v in ns["vars"]} for _, b in mine]
            common[s] = sorted(set.intersection(*sets))
        own = [(ns["ns"], v[0], v[1]) for ns in c["nss"] for v in ns["vars"]]
        own_d = own + [(n, t + "_dot", "d") for n, t, k in own if k == "s"]
        for _ in range(draw(st.integers(1, 5))):
            if not sides:
                break
            s = draw(st.sampled_from(sides))
            kind = draw(st.sampled_from(["pull", "pull", "push", "push", "pass"]))
            op = draw(st.sampled_from(["=", "+="]))
            if kind == "pull":
                tg = [(None,) + x[:2] for x in own if x[2] == "p" or (x[2] == "a" and op == "+=")]
                src = [(s,) + x[:2] for x in common[s]]
            elif kind == "push":
                tg = [(s,) + x[:2] for x in common[s] if x[2] == "p" or (x[2] == "a" and op == "+=")]
                src = [(None,) + x[:2] for x in own_d]
            else:
                s2 = draw(st.sampled_from(sides))
                if s2 == s:
                    continue
                tg = [(s,) + x[:2] for x in common[s] if x[2] == "p" or (x[2] == "a" and op == "+=")]
                src = [(s2,) + x[:2] for x in common[s2]]
            again = [w for w in conn["wires"] if w[0] == "+=" and w[1][0]]
            if again and draw(st.booleans()):
                # another side gets the same source, or the same side another one
                w = draw(st.sampled_from(again))
                op = "+="
                tg = [(x,) + tuple(w[1][1:]) for x in sides if tuple(w[1][1:]) in [y[:2] for y in common[x]]]
                src = [tuple(w[2])] if draw(st.integers(0, 2)) else src
            if not tg or not src:
                continue
            t, q = draw(st.sampled_from(tg)), draw(st.sampled_from(src))
            wire = [op, list(t), list(q)]
            new = [[op, full(p, b, t), full(p, b, q)] for p, b in mine]
            if any(m[1] == m[2] or m[1] not in vs or m[2] not in vs for m in new):
                continue
            all_ = spec["maps"] + derived
            bad = any(m[1] == x[1] and (m[0] == "=" or x[0] == "=") for m in new for x in all_)
            bad = bad or len({m[1] for m in new}) < len(new) and op == "="
            # the same source may be added twice, by both sides of a connector or by a connector and a mapping
            bad = bad or op == "=" and (any(m == x for m in new for x in all_) or len({tuple(m) for m in new}) < len(new))
            bad = bad or wire in conn["wires"]
            if bad or specs.Ref(dict(spec, maps=all_ + new)).cyclic:
                continue
            for e in (t, q):
                if e[0] and list(e) not in conn["vars"]:
                    conn["vars"].append(list(e))
            conn["wires"].append(wire)
            derived += new
    binds = list(draw(st.permutations(binds)))
    return dict(spec=spec, derived=derived, binds=binds, points=draw(gen.points(dict(spec, maps=spec["maps"] + derived))))


def full(path, b, e):
    return f"{path if e[0] is None else b[e[0]]}.{e[1]}.{e[2]}"


def strategy(tier):
    return cases()


def check(case, ctx):
    spec = case["spec"]
    done = set()

    def bind(items, early):
        for b in case["binds"]:
            if b["path"] in done or (early and not b["early"]) or b["path"] not in items:
                continue
            if any(x not in items for x in b["to"].values()):
                continue
            done.add(b["path"])
            if b["one_by_one"]:
                for k, v in b["to"].items():
                    items[b["path"]].bind(**{k: items[v]})
            else:
                items[b["path"]].bind(**{k: items[v] for k, v in b["to"].items()})

    b = specs.build(spec, ctx, before_register=lambda items: bind(items, True), extra=lambda items: bind(items, False))
    if len(done) != len(case["binds"]):
        raise RuntimeError("not everything was bound")
    for x in case["binds"]:
        for s, to in x["to"].items():
            for ns in b.items[to].registered_namespaces.keys():
                w = getattr(getattr(b.items[x["path"]], s), ns, None)
                if w is not None and w is not b.items[to].registered_namespaces[ns]:
                    raise Violation(f"{x['path']}.{s}.{ns} is not the namespace of the bound item {to}")
    cm = specs.compiled(b.model)
    rspec = dict(spec, maps=spec["maps"] + case["derived"])
    ref = specs.Ref(rspec)
    lb = set()
    for i, pt in enumerate(case["points"]):
        dv, got = c01.eval_model(b, cm, pt)
        c01.compare_env(c01.eval_ref(ref, pt), got, rspec, f"point {i} (t={pt['t']})")
    sums = [tuple(m) for m in rspec["maps"] if m[0] == "+="]
    if len(set(sums)) < len(sums):
        lb.add("same-source-twice")
    if any(len(set(x["to"].values())) < len(x["to"]) for x in case["binds"]):
        lb.add("both-sides-one-item")
    for c in spec["classes"]:
        if c.get("conn"):
            lb.add(c["conn"]["base"])
            for op, t, q in c["conn"]["wires"]:
                lb.add(("pass" if t[0] and q[0] else "push" if t[0] else "pull") + op)
    return dict(labels=sorted(lb), nontrivial=bool(case["derived"]))
