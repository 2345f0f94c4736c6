"""C17: paths and lookups follow the hierarchy, whatever the order in which it was put together."""
import numpy as np
from hypothesis import strategies as st

from vlib import specs
from vlib.core import Violation

ID = "C17"
RULE = ("A case is a hierarchy of subsystems, items and sets (1-5 levels, repeated tags) with namespaces and variables, and an order "
        "in which registrations and creations of namespaces happen; every path, every lookup by path, tag or name and lookups of "
        "generated wrong paths are compared with the hierarchy. Non-trivial: at least two levels below the system and 3 variables.")
TAGS = ["s", "i", "i0", "i00", "u", "t1", "x", "SET_a"]
NSS = ["t1", "t2", "i", "x1"]
VARS = ["x", "y", "i", "t1", "xx", "a_b"]

SOURCE = '''
from numerous.engine.system import Item, Subsystem
from numerous.multiphysics import EquationBase, Equation


class Eq(EquationBase):
    def __init__(self, tag, params):
        super().__init__(tag=tag)
        self.add_state("q", 1.0)
        for name, kind, value in params:
            if kind == "p":
                self.add_parameter(name, value)
            elif kind == "c":
                self.add_constant(name, value)
            else:
                self.add_state(name, value)

    @Equation()
    def eval(self, scope):
        scope.q_dot = -scope.q


class I(Item):
    pass


class J(Item):
    pass
'''


@st.composite
def cases(draw):
    nodes = [dict(kind="sub", tag=draw(st.sampled_from(TAGS)), parent=None, nss=[])]
    chain = 0
    for _ in range(draw(st.integers(0, 4))):  # a chain of subsystems
        nodes.append(dict(kind="sub", tag=draw(st.sampled_from(TAGS)), parent=chain, nss=[]))
        chain = len(nodes) - 1
    for _ in range(draw(st.integers(1, 5))):
        subs = [i for i, n in enumerate(nodes) if n["kind"] == "sub"]
        par = draw(st.sampled_from(subs))
        taken = {n["tag"] for n in nodes if n["parent"] == par}
        free = [t for t in TAGS if t not in taken]
        kind = draw(st.sampled_from(["item", "item", "item", "sub", "set"]))
        if kind == "set":
            t = draw(st.sampled_from(["a", "b", "i"]))
            if "SET_" + t in taken:
                continue
            nodes.append(dict(kind="set", tag="SET_" + t, parent=par, nss=[]))
            s = len(nodes) - 1
            for t in draw(st.lists(st.sampled_from(TAGS), min_size=1, max_size=3, unique=True)):
                nodes.append(dict(kind="item", tag=t, parent=s, nss=[]))
        elif free:
            nodes.append(dict(kind=kind, tag=draw(st.sampled_from(free)), parent=par, nss=[]))
    for i, n in enumerate(nodes):
        if n["kind"] == "set" or (n["kind"] == "sub" and draw(st.booleans())):
            continue
        p = n["parent"]
        if p is not None and nodes[p]["kind"] == "set":
            first = min(j for j, m in enumerate(nodes) if m["parent"] == p)
            if first != i:
                n["nss"] = [[ns, [list(v) for v in vs], how] for ns, vs, how in nodes[first]["nss"]]
                continue
        for ns in draw(st.lists(st.sampled_from([x for x in NSS if x != n["tag"]]), min_size=1, max_size=2, unique=True)):
            vs = [[v, draw(st.sampled_from("pcs"))] for v in draw(st.lists(st.sampled_from(VARS), max_size=3, unique=True))]
            n["nss"].append([ns, vs, "eq" if n["parent"] is not None and nodes[n["parent"]]["kind"] == "set"
                             else draw(st.sampled_from(["eq", "eq", "var"]))])
    ops = [["reg", i] for i, n in enumerate(nodes) if n["parent"] is not None and nodes[n["parent"]]["kind"] != "set"]
    ops += [["ns", i, j] for i, n in enumerate(nodes) for j in range(len(n["nss"]))
            if not (n["parent"] is not None and nodes[n["parent"]]["kind"] == "set")]
    order = draw(st.sampled_from(["any", "any", "up", "down"]))
    if order == "any":
        ops = draw(st.permutations(ops))
    elif order == "up":
        ops = [o for o in ops if o[0] == "ns"] + sorted([o for o in ops if o[0] == "reg"], key=lambda o: -o[1])
    else:
        ops = sorted([o for o in ops if o[0] == "reg"]) + [o for o in ops if o[0] == "ns"]
    return dict(nodes=nodes, ops=[list(o) for o in ops], order=order,
                wrong=draw(st.lists(st.lists(st.sampled_from(TAGS), min_size=1, max_size=4), max_size=6)))


def strategy(tier):
    return cases()


def warmup():
    from props import c01
    c01.warmup()


def check(case, ctx):
    from numerous.engine.model import Model
    from numerous.engine.system import Subsystem, ItemPath, ItemsStructure
    mod = specs.load_module(SOURCE, ctx.dir)
    nodes = case["nodes"]
    objs = {}
    serial = [0]
    want = {}      # path -> (object index, ns, tag, value)

    def path(i):
        p = []
        while i is not None:
            p.insert(0, nodes[i]["tag"])
            i = nodes[i]["parent"]
        return p

    def create_ns(i, j):
        ns, vs, how = nodes[i]["nss"][j]
        o = objs[i]
        n = o.create_namespace(ns)
        params = []
        for v, k in vs:
            serial[0] += 1
            params.append((v, "p" if how == "var" else k, serial[0] + 0.5))
        pre = ".".join(path(i)) + "." + ns + "."
        if how == "eq":
            n.add_equations([mod.Eq(f"{ns}_eq", params)])
            want[pre + "q"] = (i, ns, "q", 1.0)
            want[pre + "q_dot"] = (i, ns, "q_dot", None)
        else:
            for v, _, x in params:
                n.create_variable(name=v, value=x)
        for v, k, x in params:
            want[pre + v] = (i, ns, v, x)
            if k == "s":
                want[pre + v + "_dot"] = (i, ns, v + "_dot", None)

    for i, n in enumerate(nodes):
        if n["kind"] == "sub":
            objs[i] = Subsystem(n["tag"])
        elif n["kind"] == "item":
            inset = n["parent"] is not None and nodes[n["parent"]]["kind"] == "set"
            objs[i] = (mod.J if inset else mod.I)(n["tag"])
            if inset:
                for j in range(len(n["nss"])):
                    create_ns(i, j)
    for op in case["ops"]:
        if op[0] == "ns":
            create_ns(op[1], op[2])
        else:
            i = op[1]
            par = objs[nodes[i]["parent"]]
            if nodes[i]["kind"] == "set":
                members = [objs[j] for j, m in enumerate(nodes) if m["parent"] == i]
                par.register_items(members, tag=nodes[i]["tag"][4:], structure=ItemsStructure.SET)
                objs[i] = next(x for x in par.registered_items.values() if x.tag == nodes[i]["tag"])
            elif i % 2:
                par.register_items([objs[i]])
            else:
                par.register_item(objs[i])

    root = objs[0]
    m = Model(root, use_llvm=False)
    # variables
    got = m.path_to_variable
    if set(got) != set(want):
        raise Violation(f"the model has the paths {sorted(set(got) - set(want))} which the hierarchy has not, and has not "
                        f"{sorted(set(want) - set(got))}")
    vals = specs.read_all(m) if False else {p: float(v) for p, v in m.get_variables().items()}
    for p, (i, ns, tag, x) in want.items():
        v = objs[i].registered_namespaces[ns][tag]
        if got[p] is not v:
            raise Violation(f"path {p} leads to the variable {got[p].id}, expected {v.id}")
        if v.get_path_dot() != p and m.system.id in v.path.path and v.path.path[m.system.id] != [p]:
            raise Violation(f"the variable at {p} has the paths {v.path.path[m.system.id]}")
        if x is not None and p in vals and vals[p] != x:
            raise Violation(f"{p} has the value {vals[p]!r}, was created with {x!r}")
        if m.variables[m.aliases[p]] is not v:
            raise Violation(f"alias {p} leads to another variable")
        rel = m.get_variable_path(v.id, root)
        if root.tag + "." + rel != p:
            raise Violation(f"get_variable_path gives {rel!r} for {p}")
    if set(vals) != set(want):
        raise Violation(f"get_variables has {sorted(set(vals) ^ set(want))} too much or not")
    # items
    for i, o in objs.items():
        p = path(i)
        if list(o.path) != p:
            raise Violation(f"item {'.'.join(p)} has the path {o.path}")
        if root.get_item(ItemPath(".".join(p))) is not o:
            raise Violation(f"get_item({'.'.join(p)}) gives {root.get_item(ItemPath('.'.join(p)))}")
        for d in ("/", "::"):
            if root.get_item(ItemPath(d.join(p), delimiter=d)) is not o:
                raise Violation(f"get_item({d.join(p)!r}, delimiter {d!r}) gives {root.get_item(ItemPath(d.join(p), delimiter=d))}")
            if len(p) > 1 and root.get_item(ItemPath(".".join(p), delimiter=d)) is not None:
                raise Violation(f"get_item({'.'.join(p)!r}, delimiter {d!r}) finds an item")
        mine = {(v.id, ns.tag) for v, ns in o.get_variables()}
        exp = {(got[q].id, ns) for q, (j, ns, _, _) in want.items() if j == i}
        if mine != exp:
            raise Violation(f"get_variables of {'.'.join(p)} gives {mine}, expected {exp}")
    real = {".".join(path(i)) for i in objs}
    for w in case["wrong"]:
        for q in (".".join(w), ".".join([nodes[0]["tag"]] + w), ".".join(path(len(nodes) - 1) + w),
                  ".".join(path(len(nodes) - 1)[1:] + w)):
            if q not in real and root.get_item(ItemPath(q)) is not None:
                raise Violation(f"get_item({q}) gives {root.get_item(ItemPath(q))}, there is no such item")
    for t in TAGS + ["nothing"]:
        exp = {objs[i].id for i, n in enumerate(nodes) if n["tag"] == t}
        g = m.search_items(t)
        if len(g) != len(exp) or {o.id for o in g} != exp:
            raise Violation(f"search_items({t!r}) finds {[o.path for o in g]}, there are {len(exp)} such items")
    # names of variables
    suffixes = set()
    for q in want:
        parts = q.split(".")
        suffixes |= {".".join(parts[k:]) for k in range(len(parts))}
    probe = list(want)[:8] + [q + "x" for q in list(want)[:4]] + [q.replace(".", ".u.", 1) for q in list(want)[:4]] + ["nothing"]
    probe += [".".join(w) for w in case["wrong"]]
    for q in probe:
        if root.find_variable(q) != (q in suffixes):
            raise Violation(f"find_variable({q!r}) is {root.find_variable(q)}")
    # the drawing of the hierarchy
    g = root.get_graph_visualisation()
    ex = {(nodes[n["parent"]]["tag"], n["tag"]) for n in nodes if n["parent"] is not None}
    if set(g.edges) != ex or set(g.nodes) != {n["tag"] for n in nodes}:
        raise Violation(f"graph has edges {sorted(g.edges)} and nodes {sorted(g.nodes)}, expected {sorted(ex)}")
    # ports
    for i, n in enumerate(nodes):
        if n["kind"] != "sub":
            continue
        for j, k in enumerate(nodes):
            if k["kind"] == "set":
                continue
            mine = k["parent"] == i
            try:
                objs[i].add_port(f"port{j}", objs[j])
                ok = True
            except ValueError:
                ok = False
            if ok != mine or (ok and objs[i].ports[f"port{j}"] is not objs[j]):
                raise Violation(f"add_port of {'.'.join(path(j))} to {'.'.join(path(i))} {'succeeded' if ok else 'failed'}")
    if m.validate_bindings() is not True:
        raise Violation("validate_bindings is not True without any binding")
    # the states move on their own
    cm = specs.compiled(m)
    order = specs.state_order(m)
    y = np.arange(1.0, len(order) + 1)
    d = cm.func(0.0, y)
    for p, a, b in zip(order, y, d):
        e = -a if p.endswith(".q") else 0.0
        if b != e:
            raise Violation(f"derivative of {p} at {a} is {b}, expected {e}")
    depth = max(len(path(i)) for i in objs)
    return dict(labels=[case["order"], f"depth{depth}"] + (["set"] if any(n["kind"] == "set" for n in nodes) else []),
                nontrivial=depth > 2 and len(want) > 2)
