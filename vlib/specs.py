"""System specifications: JSON -> source module -> numerous system, and the independent reference evaluation.

A spec is

  classes: [{name, style, nss: [{ns, vars: [[tag, kind, init]], eqs: [{name, body: [source line]}]}]}]
  root:    {tag, cls?, items: [node]};   node = {tag, cls, init} | {tag, cls?, items: [node], set?: bool}
  maps:    [[op, target path, source path]]      op is '=' or '+='
  globals: [[name, value]]

kind is s(tate), p(arameter), c(onstant), a (parameter assigned by an equation) or d (derivative, implied).
The reference executes the very same equation source as plain Python, in dataflow order.
"""
import ast
import importlib.util
import linecache
import operator
import os
import sys

import numpy as np

PRELUDE = '''import numpy as np
from numerous.engine.system import Item, Subsystem, ItemsStructure, ConnectorItem, ConnectorOneWay, ConnectorTwoWay, \
    ConnectorMultiWay
from numerous.multiphysics import EquationBase, Equation, NumerousFunction
from numerous.multiphysics.equation_decorators import InlineEquation, add_equation
from numerous.utils.logger_levels import LoggerLevel

KC0 = 1.25
KC1 = -0.5


@NumerousFunction()
def mf0(x):
    return x * 0.5 + 1.0


@NumerousFunction()
def mf1(x, y):
    if x > y:
        return x - y
    return y * 2.0


@NumerousFunction()
def mf2(x, y):
    return x + y, x - y

'''


# ---------------------------------------------------------------- source

def class_source(c):
    out = []
    base = "Subsystem" if c.get("sub") else "Item"
    style = c.get("style", "own")
    names = []
    for i, ns in enumerate(c["nss"]):
        en = f"{c['name']}_{ns['ns']}"
        names.append(en)
        eqs = list(ns["eqs"])
        parent = "EquationBase"
        two = ns["two"] if ns.get("two") and style != "inherit" and not ns.get("selffn") else 0
        if two:
            # the namespace has a second set of equations; its variables in part repeat those of the first
            vs = ns["vars"]
            k = two % (len(vs) + 1)
            ke = (two // 7) % (len(eqs) + 1)
            second = dict(vars=vs[k:] + [[t, kind, 77.25] for t, kind, v in vs[:k] if (two + len(t)) % 3],
                          eqs=eqs[ke:])
            out.append(f"class {en}_2(EquationBase):\n")
            out.append("    def __init__(self, init, off=0.0):\n")
            out.append(f"        super().__init__(tag='{en}_2')\n")
            out.append(vars_source(ns["ns"], second["vars"], 0, ns.get("levels")))
            out.append("\n")
            for e in second["eqs"]:
                out.append(eq_source(e))
            out.append("\n\n")
            ns = dict(ns, vars=vs[:k] + [[t, "p" if kind == "s" else "c", 77.25] for t, kind, v in vs[k:]
                                         if kind in "sp" and (two + ord(t[0])) % 4 == 0])
            eqs = eqs[:ke]
        if style == "inherit" and eqs:
            parent = en + "_base"
            out.append(f"class {parent}(EquationBase):\n")
            for e in eqs[:1]:
                out.append(eq_source(e))
            out.append("\n")
            eqs = eqs[1:]
        forms = ns.get("forms", {})
        made = [e for e in eqs if e["name"] in forms]
        eqs = [e for e in eqs if e["name"] not in forms]
        for e in made:
            if forms[e["name"]] == "add":
                out.append(f"def {en}_{e['name']}(self, scope):\n")
                out += ["    " + ln + "\n" for line in e["body"] for ln in line.split("\n")] + ["\n\n"]
        out.append(f"class {en}({parent}):\n")
        out.append("    def __init__(self, init, off=0.0):\n")
        out.append(f"        super().__init__(tag='{en}')\n")
        if ns.get("varforms"):
            out.append(vars_forms(ns))
        else:
            out.append(vars_source(ns["ns"], ns["vars"], 0 if ns.get("two") else ns.get("dots", 0), ns.get("levels")))
        for e in made:
            how = forms[e["name"]]
            if how == "add":
                out.append(f"        add_equation(self, {en}_{e['name']})\n")
            elif how == "inline":
                ind = " " * ns.get("indent", 0)
                src = "".join(ind + ln + "\n" for ln in [f"def {e['name']}(self, scope):"] +
                              ["    " + ln for line in e["body"] for ln in line.split("\n")])
                out.append(f"        self.equations.append(InlineEquation()({e['name']!r}, {src!r}, dict(globals())))\n")
        if ns.get("selffn"):
            out.append(SELFFN)
        out.append("\n")
        for e in eqs:
            out.append(eq_source(e))
        out.append("\n")
    conn = c.get("conn")
    if conn:
        base = conn["base"]
        bs = conn["bindings"]
        extra = ""
        if base == "ConnectorTwoWay":
            extra = f", side1_name={bs[0]!r}, side2_name={bs[1]!r}"
        elif base == "ConnectorOneWay":
            extra = f", side1_name={bs[0]!r}"
        elif base == "ConnectorMultiWay":
            extra = f", binding_names={bs!r}"
        out.append(f"class {c['name']}({base}):\n")
        out.append("    def __init__(self, tag, init, **kw):\n")
        out.append(f"        super().__init__(tag{extra}, **kw)\n")
        if not extra:
            for b in bs:
                out.append(f"        self.create_binding({b!r})\n")
    else:
        out.append(f"class {c['name']}({base}):\n")
        out.append("    def __init__(self, tag, init, **kw):\n")
        out.append("        super().__init__(tag, **kw)\n")
    for ns, en in zip(c["nss"], names):
        out.append(f"        ns = self.create_namespace('{ns['ns']}')\n")
        off = f", init.get('off', {ns.get('off', 0.0)!r})" if ns.get("selffn") else ""
        two = f", {en}_2(init)" if ns.get("two") and style != "inherit" and not ns.get("selffn") else ""
        out.append(f"        ns.add_equations([{en}(init{off}){two}])\n")
    if conn:
        for b, ns, v in conn["vars"]:
            out.append(f"        self.{b}.{ns}.create_variable(name={v!r})\n")
        for op, tgt, src in conn["wires"]:
            out.append(f"        self.{'.'.join(x for x in tgt if x)} {op} self.{'.'.join(x for x in src if x)}\n")
    out.append("        self._init_done = True\n\n\n")
    return "".join(out)


def vars_source(ns, vs, dots=0, levels=None):
    """dots: 1, 2: the derivatives are declared apart from the states, at the end or at the beginning, in reverse order"""
    lv = lambda tag: f", logger_level=LoggerLevel.{levels[tag]}" if tag in (levels or {}) else ""  # noqa
    ds = [f"        self.add_derivative('{tag}'{lv(tag)})\n" for tag, kind, v in vs if kind == "s"][::-1] if dots else []
    out = []
    for tag, kind, v in vs:
        iv = f"init.get('{ns}.{tag}', {v!r})" if v != 77.25 else repr(v)
        how = {"s": "add_state", "c": "add_constant"}.get(kind, "add_parameter")
        out.append(f"        self.{how}('{tag}', {iv}{', create_derivative=False' if dots and kind == 's' else ''}{lv(tag)})\n")
    return "".join(out + ds) if dots == 1 else "".join(ds + out)


def vars_forms(ns):
    """variables declared by dictionaries, with integrals of parameters"""
    integ = {p: (s, k) for p, s, k in ns.get("integrals", [])}
    out = []
    val = lambda tag, v: f"init.get('{ns['ns']}.{tag}', {v!r})"  # noqa
    for i, (tag, kind, v) in enumerate(ns["vars"]):
        how = ns["varforms"][i % len(ns["varforms"])]
        iv = val(tag, v)
        if kind == "s":
            if tag not in {s for s, _ in integ.values()}:
                out.append(f"self.add_state('{tag}', {iv})")
        elif kind == "c":
            out.append([f"self.add_constant('{tag}', {iv})", f"self.add_constants({{'{tag}': {iv}}})",
                        f"self.add_constants({{'{tag}': dict(value={iv})}})"][how % 3])
        else:
            x = ""
            if tag in integ:
                x = f", integrate=dict(tag={integ[tag][0]!r}, scale={integ[tag][1]!r})"
            if not x and how == 3 and v == 0 and kind == "a":
                out.append(f"self.add_parameters([{tag!r}])")
            else:
                out.append([f"self.add_parameter('{tag}', {iv}{x})", f"self.add_parameters({{'{tag}': dict(init_val={iv}{x})}})",
                            f"self.add_parameters({{'{tag}': {iv}}})" if not x else f"self.add_parameter('{tag}', {iv}{x})"][how % 3])
    return "".join(f"        {x}\n" for x in out)


SELFFN = '''        off = off

        @NumerousFunction()
        def sf(x):
            return x + off

        self.sf = sf
'''


def eq_source(e):
    body = []
    for line in e["body"]:
        for ln in line.split("\n"):
            body.append("        " + ln + "\n")
    return f"\n    @Equation()\n    def {e['name']}(self, scope):\n" + "".join(body or ["        pass\n"])


def prelude(i=0):
    """constants and functions of the module of class i, if each class has a module of its own: same names, other values"""
    return PRELUDE.replace("1.25", str(1.25 + i)).replace("* 0.5 + 1.0", f"* 0.5 + {1.0 + i}").replace("y * 2.0", f"y * {2.0 + i}")


def module_source(spec):
    return PRELUDE + "\n\n" + "\n".join(class_source(c) for c in spec["classes"])


def load_modules(spec, d):
    if not spec.get("apart"):
        return load_module(module_source(spec), d)
    mod = Built()
    for i, c in enumerate(spec["classes"]):
        m = load_module(prelude(i) + "\n\n" + class_source(c), d)
        mod.__dict__.update({k: v for k, v in vars(m).items() if not k.startswith("__")})
    return mod


_loaded = []


def load_module(source, d, stem="gen"):
    n = len(_loaded)
    name = f"verifgen_{os.getpid()}_{n}"
    path = os.path.join(d, f"{stem}{n}.py")
    with open(path, "w") as f:
        f.write(source)
    sp = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(sp)
    sys.modules[name] = mod
    _loaded.append((name, path))
    if n >= 40:
        old, op = _loaded[n - 40]
        m = sys.modules.pop(old, None)
        linecache.cache.pop(op, None)
        if m is not None:
            m.__dict__.pop("__builtins__", None)
    sp.loader.exec_module(mod)
    return mod


# ---------------------------------------------------------------- instances

def instances(spec):
    """[(path, class dict, init dict, node, set id or None)] in tree order; path without the namespace"""
    cl = {c["name"]: c for c in spec["classes"]}
    out = []

    def walk(node, prefix, inset):
        path = prefix + [("SET_" + node["tag"]) if node.get("set") else node["tag"]]
        if node.get("cls"):
            out.append((".".join(path), cl[node["cls"]], node.get("init", {}), node, inset))
        for ch in node.get("items", []):
            walk(ch, path, ".".join(path) if node.get("set") else inset)

    walk(spec["root"], [], None)
    return out


def all_vars(spec):
    """{path: (kind, initial value)}"""
    out = {}
    for p, c, init, _, _ in instances(spec):
        for ns in c["nss"]:
            for tag, kind, v in ns["vars"]:
                out[f"{p}.{ns['ns']}.{tag}"] = (kind, float(init.get(f"{ns['ns']}.{tag}", v)))
                if kind == "s":
                    out[f"{p}.{ns['ns']}.{tag}_dot"] = ("d", 0.0)
    return out


def build_system(spec, mod, extra=None, set_as_list=False, sub_kw=None, before_register=None):
    """instantiate the tree bottom-up and apply the mappings"""
    from numerous.engine.system import Subsystem, ItemsStructure
    items = {}
    sub_kw = sub_kw or {}

    def make(node, prefix):
        pre = prefix + [node["tag"]]
        path = ".".join(pre)
        kw = sub_kw.get(path, {})
        if "items" not in node:
            it = getattr(mod, node["cls"])(node["tag"], node.get("init", {}))
            items[path] = it
            return it
        kids = []
        for ch in node["items"]:
            if ch.get("set"):
                ix = {}
                prefix_ = pre + ["SET_" + ch["tag"]]
                for k in ch["items"]:
                    it = getattr(mod, k["cls"])(k["tag"], k.get("init", {}))
                    items[".".join(prefix_ + [k["tag"]])] = it
                    ix[k["tag"]] = it
                kids.append(("set", ch["tag"], list(ix.values())))
            else:
                kids.append(("item", None, make(ch, pre)))
        if node.get("cls"):
            s = getattr(mod, node["cls"])(node["tag"], node.get("init", {}), **kw)
        else:
            s = Subsystem(node["tag"], **kw)
        if before_register:
            before_register(items)
        for kind, tag, x in kids:
            if kind == "set":
                s.register_items(x, tag=tag,
                                 structure=ItemsStructure.LIST if set_as_list else ItemsStructure.SET)
            else:
                s.register_items([x])
        items[path] = s
        return s

    root = make(spec["root"], [])
    for op, tgt, src in spec.get("maps", []):
        apply_map(items, op, tgt, src, spec.get("map_style"))
    if extra:
        extra(items)
    return root, items


def var_of(items, path):
    ip, ns, tag = path.rsplit(".", 2)
    return getattr(items[ip].registered_namespaces[ns], tag)


def apply_map(items, op, tgt, src, style=None):
    ip, ns, tag = tgt.rsplit(".", 2)
    n = items[ip].registered_namespaces[ns]
    v = var_of(items, src)
    if style == "method":
        t = getattr(n, tag)
        (t.add_mapping if op == "=" else t.add_sum_mapping)(v)
    elif op == "=":
        setattr(n, tag, v)
    else:
        setattr(n, tag, operator.iadd(getattr(n, tag), v))


class Built:
    pass


def build(spec, ctx, use_llvm=False, mod=None, model_kw=None, assemble=True, **kw):
    from numerous.engine.model import Model
    b = Built()
    b.mod = mod or load_modules(spec, ctx.dir)
    b.root, b.items = build_system(spec, b.mod, **kw)
    b.spec = spec
    if assemble:
        mk = dict(model_kw or {})
        if spec.get("globals"):
            mk["global_variables"] = [(n, v) for n, v in spec["globals"]]
        b.model = Model(b.root, use_llvm=use_llvm, **mk)
    return b


def read_all(model):
    """every addressable variable of the model: {path: value}"""
    vals = model.numba_model.read_variables() if model.numba_model is not None else model.var_func()
    return {p: float(vals[v.llvm_idx]) for p, v in model.path_to_variable.items()}


def compiled(model, t0=0.0, n=4):
    """the kernel object; works for both backends without jitting the class"""
    keep = model.use_llvm
    model.use_llvm = False
    try:
        return model._generate_compiled_model(t0, n)
    finally:
        model.use_llvm = keep


def state_order(model):
    """paths of the states in the order of the state vector (one path per state)"""
    by = {}
    for p, v in model.path_to_variable.items():
        by.setdefault(v.llvm_idx, p)
    return [by[int(i)] for i in model.state_idx]


# ---------------------------------------------------------------- reference

class Scope:
    __slots__ = ("_r", "_w", "_pre", "_l", "_g")

    def __init__(self, env, pre, rename, glob):
        object.__setattr__(self, "_r", env)
        object.__setattr__(self, "_pre", pre)
        object.__setattr__(self, "_w", rename)
        object.__setattr__(self, "_g", glob)

    def __getattr__(self, name):
        if name == "global_vars":
            return self._g
        k = self._pre + name
        return self._r[self._w.get(k, k)]

    def __setattr__(self, name, value):
        k = self._pre + name
        self._r[self._w.get(k, k)] = np.float64(value)


class G:
    pass


def rw_of(lines):
    """(names read before being written, names written) of an equation body"""
    tree = ast.parse("\n".join(lines) or "pass")
    reads, writes = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "scope":
            if n.attr == "global_vars":
                continue
            if isinstance(n.ctx, ast.Store):
                writes.add(n.attr)
            else:
                reads.add(n.attr)
    return reads - writes, writes


class Ref:
    """Reference model of a spec. env: path -> np.float64"""

    def __init__(self, spec):
        self.spec = spec
        self.vars = all_vars(spec)
        self.env = {k: np.float64(v) for k, (_, v) in self.vars.items()}
        self.init = dict(self.env)
        self.nodes = []
        self.g = {n: v for n, v in spec.get("globals", [])}
        globs = {}
        for i, c in enumerate(spec["classes"]):
            pre = prelude(i if spec.get("apart") else 0)
            src = pre.replace(pre[pre.index("from numerous.engine"):pre.index("from numerous.multi")], "").replace(
                "from numerous.multiphysics import EquationBase, Equation, NumerousFunction\n", "").replace(
                "@NumerousFunction()\n", "")
            globs[c["name"]] = {}
            exec(src, globs[c["name"]])
        assigned = {}
        by_target = {}
        for op, tgt, s in spec.get("maps", []):
            by_target.setdefault(tgt, []).append(s)
        eqn = []
        for p, c, init, node, inset in instances(spec):
            for ns in c["nss"]:
                pre = f"{p}.{ns['ns']}."
                off = float(init.get("off", ns.get("off", 0.0)))
                for e in ns["eqs"]:
                    r, w = rw_of(e["body"])
                    code = "def f(self, scope):\n" + "".join(
                        "    " + ln + "\n" for line in e["body"] for ln in line.split("\n")) or "pass"
                    loc = dict(globs[c["name"]])
                    exec(code, loc)
                    me = G()
                    me.sf = (lambda x, off=off: x + off)
                    eqn.append((f"eq:{pre}{e['name']}", {pre + x for x in r}, {pre + x for x in w},
                                (loc["f"], pre, me), (inset, c["name"], ns["ns"], e["name"])))
                    for x in w:
                        assigned[pre + x] = True
        self.rename = {}
        for tgt in by_target:
            if tgt in assigned:
                self.rename[tgt] = tgt + "@eq"
                self.env[tgt + "@eq"] = self.env[tgt]
                self.init[tgt + "@eq"] = self.env[tgt]
        for name, r, w, f, key in eqn:
            own = {x: self.rename[x] for x in w if x in self.rename}
            self.nodes.append((name, r, {self.rename.get(x, x) for x in w}, ("eq", f + (own,)), key))
        for tgt, ss in by_target.items():
            r = set(ss)
            if tgt in self.rename:
                r = r | {self.rename[tgt]}
            self.nodes.append((f"map:{tgt}", r, {tgt}, ("map", tgt, ss), None))
        self.order = self._sort()

    def _sort(self):
        # items of one set are evaluated by one vectorised equation: their nodes are merged for cycle purposes
        writer = {}
        for i, n in enumerate(self.nodes):
            for w in n[2]:
                writer.setdefault(w, []).append(i)
        group = {}
        gid = []
        gorder = []
        setof = {}
        for p, c, init, node, inset in instances(self.spec):
            if inset:
                for ns in c["nss"]:
                    for tag, kind, _ in ns["vars"]:
                        for t in ((tag, tag + "_dot") if kind == "s" else (tag,)):
                            setof[f"{p}.{ns['ns']}.{t}"] = f"{inset}|{ns['ns']}.{t}"
        for i, n in enumerate(self.nodes):
            k = ("set",) + tuple(n[4]) if (n[4] and n[4][0]) else \
                (("mset", setof[n[3][1]]) if n[3][0] == "map" and n[3][1] in setof else ("n", i))
            if k not in group:
                group[k] = []
                gorder.append(k)
            group[k].append(i)
            gid.append(k)
        deps = {k: set() for k in gorder}

        def wr(x):
            """all nodes writing the variable, or any member of the set variable it belongs to"""
            out = []
            base = x[:-3] if x.endswith("@eq") else x
            if base in setof:
                suffix = "@eq" if x.endswith("@eq") else ""
                for y, s in setof.items():
                    if s == setof[base]:
                        out += writer.get(y + suffix, [])
            return out or writer.get(x, [])

        for i, n in enumerate(self.nodes):
            for r in n[1]:
                for j in wr(r):
                    deps[gid[i]].add(gid[j])
        done, out, state = set(), [], {}
        self.cyclic = False

        def visit(k):
            if state.get(k) == 1:
                self.cyclic = True
                return
            if state.get(k) == 2:
                return
            state[k] = 1
            for d in sorted(deps[k], key=str):
                visit(d)
            state[k] = 2
            out.extend(group[k])

        for k in gorder:
            visit(k)
        return out

    def eval(self, t, states=None):
        """evaluate all equations and mappings at time t (and states); returns self.env"""
        env = self.env
        if states:
            for k, v in states.items():
                env[k] = np.float64(v)
        g = G()
        g.t = np.float64(t)
        for n, v in self.g.items():
            setattr(g, n, np.float64(v))
        with np.errstate(all="ignore"):
            for i in self.order:
                what = self.nodes[i][3]
                if what[0] == "eq":
                    f, pre, me, own = what[1]
                    f(me, Scope(env, pre, own, g))
                else:
                    tgt, ss = what[1], what[2]
                    acc = np.float64(0.0)
                    for s in ss:
                        acc = acc + env[s]
                    if tgt in self.rename:
                        acc = acc + env[self.rename[tgt]]
                    env[tgt] = acc
        return env

    def states(self):
        return [k for k, (kind, _) in self.vars.items() if kind == "s"]

    def clone_env(self):
        return dict(self.env)


def prune_cycles(spec):
    """drop the mappings which would make the system cyclic (in declaration order)"""
    kept = []
    out = dict(spec)
    for m in spec.get("maps", []):
        out["maps"] = kept + [m]
        if not Ref(out).cyclic:
            kept.append(m)
    out["maps"] = kept
    return out


def close(a, b, rtol=1e-9, atol=1e-9):
    if a == b:
        return True
    if np.isnan(a) and np.isnan(b):
        return True
    if np.isinf(a) or np.isinf(b) or np.isnan(a) or np.isnan(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
