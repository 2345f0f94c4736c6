"""C27: what has no meaning is refused."""
import numpy as np
from hypothesis import strategies as st

from props import c01, c07
from vlib import gen, sim, specs
from vlib.core import Skip, Violation

ID = "C27"
RULE = ("A case is a generated system and either mappings which close an algebraic loop, or one mistake made at a generated place "
        "of it while it is put together or used (a name used twice, a variable, item, binding, column or path which does not "
        "exist, a mapping onto itself, conflicting mappings or bindings, something which is no number ...): an error is raised "
        "at once or when the system is assembled, never a model which computes something; and a system for which a step was "
        "refused is what it was before. Non-trivial: a loop through at least two equations or mappings, or any mistake.")
OPTS = dict(globals=True, closure=True, functions=True, sub_eqs=True, max_maps=3, depth=1, max_items=3, max_states=1, max_out=2)
BUDGET = {"quick": 30, "thorough": 900}

AT_ONCE = ["dup_item", "dup_namespace", "same_namespace", "self_map", "sum_after_map", "dup_binding", "rebind", "rebind_same",
           "unknown_binding", "mixed_set", "two_sets", "port", "value", "state_value", "tag", "unknown_event_path",
           "unknown_set", "unknown_update", "method"]
LATER = ["unregistered", "unknown_read", "unknown_write", "unknown_external", "unknown_column", "unbound",
         "unknown_item_event", "data_end", "two_declared", "unknown_global"]


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    llvm = draw(st.integers(0, 9)) == 0
    c = dict(spec=spec, llvm=llvm, pts=draw(gen.points(spec, 1)))
    if draw(st.integers(0, 4)) == 0:
        vs = specs.all_vars(spec)
        n = draw(st.integers(1, 4))
        paths = list(vs)
        targets = [p for p in paths if vs[p][0] in "pa"]
        extra = []
        for _ in range(n):
            extra.append([draw(st.sampled_from(["=", "+="])), draw(st.sampled_from(targets)), draw(st.sampled_from(paths))])
        if draw(st.booleans()) and len(targets) > 1:  # a ring of variables
            ring = draw(st.permutations(targets))[:draw(st.integers(2, 4))]
            extra += [["=", a, b] for a, b in zip(ring, ring[1:] + ring[:1])][:draw(st.integers(1, 4))]
        c["kind"] = "loop"
        c["extra"] = extra
        return c
    c["kind"] = draw(st.sampled_from(AT_ONCE * 2 + LATER))
    c["pick"] = draw(st.lists(st.integers(0, 30), min_size=4, max_size=4))
    return c


def strategy(tier):
    return cases()


def warmup():
    c07.warmup()


def loop_maps(spec, extra):
    """the extra mappings which neither repeat a target of '=' nor copy a variable onto itself"""
    maps = [list(m) for m in spec["maps"]]
    vs = specs.all_vars(spec)
    for op, t, s in extra:
        if vs[t][0] == "a":
            op = "+="
        if t == s and op == "=" or any(m[1] == t for m in maps if "=" in (m[0], op) and not (m[0] == op == "+=")):
            continue
        maps.append([op, t, s])
    return maps


def check_loop(case, ctx):
    spec = dict(case["spec"], maps=loop_maps(case["spec"], case["extra"]))
    ref = specs.Ref(spec)
    if not ref.cyclic:
        b = specs.build(spec, ctx, use_llvm=case["llvm"])
        cm = specs.compiled(b.model)
        for pt in case["pts"]:
            _, got = c01.eval_model(b, cm, pt)
            c01.compare_env(c01.eval_ref(ref, pt), got, spec, "a system without a loop")
        return dict(labels=["no-loop"], nontrivial=False)
    try:
        b = specs.build(spec, ctx, use_llvm=case["llvm"])
    except Exception:  # noqa
        return dict(labels=["loop"] + (["llvm"] if case["llvm"] else []), nontrivial=True)
    # what an equation reads may not matter to what it computes; then there is no loop
    cm = specs.compiled(b.model)
    for pt in case["pts"]:
        _, got = c01.eval_model(b, cm, pt)
        for what, p, v, w in unsatisfied(ref, spec, pt["t"], got):
            raise Violation(f"a system with an algebraic loop was assembled, and {p} is {v!r}, which {what} does not give ({w!r}); "
                            f"mappings: {spec['maps']}")
    return dict(labels=["loop-assembled"], nontrivial=False)


def unsatisfied(ref, spec, t, got):
    """the equations and mappings which the values do not satisfy"""
    g = specs.G()
    g.t = np.float64(t)
    for n, v in spec.get("globals", []):
        setattr(g, n, np.float64(v))
    base = {k: np.float64(got.get(k, v)) for k, v in ref.env.items()}
    own_values = {}
    with np.errstate(all="ignore"):
        for name, r, w, what, _ in ref.nodes:
            if what[0] == "eq":
                f, pre, me, own = what[1]
                env = dict(base)
                f(me, specs.Scope(env, pre, own, g))
                for x in w:
                    if x.endswith("@eq"):
                        own_values[x] = env[x]
                    elif not specs.close(float(env[x]), float(got[x]), rtol=1e-7, atol=1e-7):
                        yield name, x, got[x], float(env[x])
        for name, r, w, what, _ in ref.nodes:
            if what[0] == "map":
                tgt, ss = what[1], what[2]
                v = sum(float(base[s]) for s in ss) + float(own_values.get(ref.rename.get(tgt), 0.0))
                if not specs.close(v, float(got[tgt]), rtol=1e-7, atol=1e-7):
                    yield name, tgt, got[tgt], v


def known(case, text):
    if isinstance(case, dict) and case.get("kind") == "loop" and "a system with an algebraic loop was assembled, and" in text:
        return "algebraic-loop-assembled"
    return None


class Mistake:
    """a built system, and one mistake"""

    def __init__(self, case, ctx):
        from numerous.engine.system import Subsystem
        self.case, self.ctx, self.spec = case, ctx, case["spec"]
        self.b = None
        self.items = None
        self.Subsystem = Subsystem
        self.pick = case["pick"]

    def choose(self, xs, i=0):
        xs = list(xs)
        if not xs:
            raise Skip
        return xs[self.pick[i] % len(xs)]

    def subsystem(self):
        return self.choose([x for x in self.items.values() if isinstance(x, self.Subsystem) and len(x.registered_items)])

    def instance(self, i=0):
        return self.items[self.choose([p for p, *_ in specs.instances(self.spec)], i)]

    def variable(self, i=0, kinds="pa"):
        return self.choose([p for p, (k, _) in specs.all_vars(self.spec).items() if k in kinds], i)

    def var(self, p):
        return specs.var_of(self.items, p)

    def item_class(self):
        from numerous.engine.system import Item

        class Plain(Item):
            pass
        return Plain

    # -- mistakes before the assembly

    def dup_item(self):
        s = self.subsystem()
        tag = self.choose([x.tag for x in s.registered_items.values()], 1)
        new = self.item_class()(tag) if self.pick[2] % 2 else self.Subsystem(tag)
        if self.pick[3] % 2:
            s.register_item(new)
        else:
            s.register_items([new])

    def dup_namespace(self):
        it = self.instance()
        it.create_namespace(self.choose([n.tag for n in it.registered_namespaces], 1))

    def same_namespace(self):
        it = self.instance()
        it.register_namespace(self.choose(it.registered_namespaces, 1))

    def self_map(self):
        v = self.var(self.variable())
        if self.pick[1] % 2:
            v.add_mapping(v)
        else:
            setattr(v.namespace, v.tag, v)

    def sum_after_map(self):
        p = self.variable()
        if any(m[1] == p and m[0] == "+=" for m in self.spec["maps"]):
            raise Skip
        if self.pick[2] % 2 or any(m[1] == p for m in self.spec["maps"]):
            p = self.choose([m[1] for m in self.spec["maps"] if m[0] == "="])
        else:
            raise Skip
        v = self.var(p)
        v += self.var(self.variable(1))

    def connector(self):
        from numerous.engine.system import ConnectorTwoWay
        c = ConnectorTwoWay("con", side1_name="left", side2_name="right")
        return c

    def dup_binding(self):
        self.connector().create_binding(self.choose(["left", "right"]))

    def rebind(self):
        c = self.connector()
        k = self.choose(["left", "right"])
        c.bind(**{k: self.item_class()("one")})
        c.bind(**{k: self.item_class()("two")})

    def rebind_same(self):
        c = self.connector()
        it = self.item_class()("one")
        c.bind(left=it)
        c.bind(left=it)

    def unknown_binding(self):
        c = self.connector()
        known = dict(right=self.item_class()("other")) if self.pick[1] % 2 else {}
        c.bind(**known, **{self.choose(["side1", "lefft", "LEFT", "con"]): self.item_class()("one")})

    def mixed_set(self):
        from numerous.engine.system import ItemsStructure
        A, B = self.item_class(), self.item_class()
        n = 1 + self.pick[1] % 3
        xs = [A(f"m{i}") for i in range(n)]
        xs.insert(1 + self.pick[2] % n, B("odd"))
        self.Subsystem("ss").register_items(xs, tag="st", structure=ItemsStructure.SET)

    def two_sets(self):
        from numerous.engine.system import ItemsStructure
        A = self.item_class()
        xs = [A(f"m{i}") for i in range(3)]
        s = self.Subsystem("ss")
        s.register_items(xs[:2], tag="sa", structure=ItemsStructure.SET)
        s.register_items(xs[self.pick[1] % 2:], tag="sb", structure=ItemsStructure.SET)

    def port(self):
        s = self.subsystem()
        others = [x for x in self.items.values() if x is not s and x.id not in s.registered_items]
        s.add_port("prt", self.choose(others + [self.item_class()("else")], 1))

    def state_value(self):
        from numerous.multiphysics import EquationBase
        EquationBase("e").add_state("x", self.choose(["1", None, [1.0], (2,), {}]))

    def tag(self):
        self.item_class()(self.choose([5, 1.5, ("a",), ["i"]]))

    # -- mistakes with a model

    def value(self):
        p = self.variable(0, "pcsa")
        self.b.model.path_to_variable[p].value = self.choose(["abc", None, [1, 2], {}, "1 2", object()], 1)

    def bad_path(self):
        p = self.variable(1, "pcsa")
        return self.choose([p + "x", p[1:], p + ".t1", "nothing", p.rsplit(".", 1)[0], ""])

    def unknown_event_path(self):
        src = ("def cond(t, v):\n    return v[%r] - 1.0\n\n\ndef act(t, v):\n    v[%r] = 1.0\n\n\ndef ok(t, v):\n    v[%r] = 1.0\n\n\n"
               "def okc(t, v):\n    return v[%r] - 1.0\n")
        bad, good = self.bad_path(), self.variable(2, "p")
        mod = specs.load_module(src % (bad, bad, good, good), self.ctx.dir)
        k = self.pick[3] % 3
        if k == 0:
            self.b.model.add_event("e", mod.cond, mod.ok)
        elif k == 1:
            self.b.model.add_event("e", mod.okc, mod.act)
        else:
            self.b.model.add_timestamp_event("e", mod.act, timestamps=[0.5])

    def unknown_set(self):
        self.b.model.set_variables({self.bad_path(): 1.0})

    def unknown_update(self):
        self.b.model.update_variables({self.bad_path(): 1.0})

    def method(self):
        if not any(k == "s" for k, _ in specs.all_vars(self.spec).values()):
            raise Skip
        sim.simulation(self.b.model, 0.0, 1.0, 3, method=self.choose(["RK4", "rk45", "euler", "", "Adams"]))

    # -- mistakes which show when the system is assembled

    def unregistered(self):
        from numerous.engine.system import Item
        from numerous.multiphysics import EquationBase, Equation  # noqa

        class Out(Item, EquationBase):
            def __init__(self, tag):
                super().__init__(tag)
                ns = self.create_namespace("t1")
                self.add_parameter("p", 1.0)
                ns.add_equations([self])
        o = Out("out")
        p = self.choose([p for p, (k, _) in specs.all_vars(self.spec).items() if k == "p"
                         and p not in {m[1] for m in self.spec["maps"]}])
        v = self.var(p)
        if self.pick[1] % 2:
            v.add_mapping(o.t1.p)
        else:
            v += o.t1.p

    def add_class(self, body, decl="        self.add_parameter('p', 1.0)\n", name="Extra"):
        src = ("from numerous.engine.system import Item\nfrom numerous.multiphysics import EquationBase, Equation\n\n\n"
               f"class {name}(Item, EquationBase):\n    def __init__(self, tag):\n        super().__init__(tag)\n"
               f"        ns = self.create_namespace('t1')\n{decl}        ns.add_equations([self])\n\n"
               f"    @Equation()\n    def eval(self, scope):\n        {body}\n")
        mod = specs.load_module(src, self.ctx.dir)
        self.subsystem().register_item(getattr(mod, name)("extra"))

    def unknown_read(self):
        self.add_class(self.choose(["scope.p = scope.nothing", "scope.p = 1.0 + scope.P", "scope.p = scope.p_dot * 2.0"]))

    def unknown_write(self):
        self.add_class(self.choose(["scope.nothing = scope.p", "scope.P = 1.0", "scope.p_dot = 2.0 * scope.p"]))

    def unknown_global(self):
        self.add_class(self.choose(["scope.p = scope.global_vars.nothing", "scope.p = 2.0 * scope.global_vars.T"]))

    def two_declared(self):
        self.add_class("scope.q = scope.p", "        self.add_parameter('p', 1.0)\n        self.add_parameter('q', 1.0)\n"
                       f"        self.add_{self.choose(['parameter', 'constant', 'state'])}('p', 2.0)\n")

    def unbound(self):
        from numerous.engine.system import ConnectorTwoWay
        from numerous.multiphysics import EquationBase

        class E(EquationBase):
            def __init__(self):
                super().__init__("e")
                self.add_parameter("p", 1.0)
        c = ConnectorTwoWay("con", side1_name="left", side2_name="right")
        ns = c.create_namespace("t1")
        ns.add_equations([E()])
        for b in (c.left, c.right):
            b.t1.add_equations([E()])
        if self.pick[1] % 2:
            ns.p = c.left.t1.p
        else:
            ns.p += c.left.t1.p
        self.subsystem().register_item(c)

    def unknown_item_event(self):
        src = "def cond(t, v):\n    return v[%r] - 1.0\n\n\ndef act(t, v):\n    pass\n"
        it = self.instance(1)
        bad = self.choose(["t1.nothing", "nothing", "t9.p0", it.tag + ".t1.p0", "t1.p0x"])
        if it.tag + ".t1.p0" == bad and any(("." + p).endswith(f".{it.tag}.{bad}") for p in specs.all_vars(self.spec)):
            raise Skip  # a subsystem with an item of the same tag
        mod = specs.load_module(src % bad, self.ctx.dir)
        it.add_event("e", mod.cond, mod.act)

    def frame(self, path, column):
        import pandas as pd
        from numerous.engine.system.external_mappings import ExternalMappingElement, ExternalMappingUnpacked
        from numerous.engine.system.external_mappings.interpolation_type import InterpolationType
        from numerous.utils.data_loader import InMemoryDataLoader
        el = ExternalMappingElement("inmemory", "time", 0, 1, {path: (column, InterpolationType.LINEAR)})
        df = pd.DataFrame(dict(time=[0.0, 1.0, 2.0], T=[1.0, 3.0, 2.0]))
        self.subsystem().external_mappings = ExternalMappingUnpacked([el], InMemoryDataLoader(df))

    def free(self):
        from vlib import ext
        return self.choose(ext.targets_of(self.spec))

    def unknown_external(self):
        self.frame(self.bad_path(), "T")

    def unknown_column(self):
        self.frame(self.free(), self.choose(["t", "T ", "nothing", ""], 1))

    def data_end(self):
        self.frame(self.free(), "T")
        m = specs_model(self)
        sim.solve(sim.simulation(m, 0.0, self.choose([2.5, 4.0, 30.0], 1), 5), strict=True)


def specs_model(x):
    from numerous.engine.model import Model
    mk = {}
    if x.spec.get("globals"):
        mk["global_variables"] = [(n, v) for n, v in x.spec["globals"]]
    return Model(x.b.root, use_llvm=x.case["llvm"], **mk)


WITH_MODEL = {"value", "unknown_event_path", "unknown_set", "unknown_update", "method"}


def check(case, ctx):
    if case["kind"] == "loop":
        return check_loop(case, ctx)
    kind = case["kind"]
    x = Mistake(case, ctx)
    with sim.quiet():
        x.b = specs.build(case["spec"], ctx, assemble=False)
        x.items = x.b.items
        if kind in WITH_MODEL:
            x.b.model = specs_model(x)
        refused = None
        try:
            getattr(x, kind)()
        except Skip:
            raise
        except Exception as e:  # noqa
            refused = e
        if kind in AT_ONCE and refused is None:
            raise Violation(f"{kind}: no error was raised")
        if refused is None:
            try:
                specs_model(x)
            except Exception as e:  # noqa
                return dict(labels=[kind], nontrivial=True)
            raise Violation(f"{kind}: no error was raised, not even when the system was assembled")
        if kind in LATER:
            return dict(labels=[kind], nontrivial=True)
        if not hasattr(x.b, "model"):
            x.b.model = specs_model(x)
    cm = specs.compiled(x.b.model)
    ref = specs.Ref(case["spec"])
    for pt in case["pts"]:
        _, got = c01.eval_model(x.b, cm, pt)
        c01.compare_env(c01.eval_ref(ref, pt), got, case["spec"], f"after the refused mistake ({kind})")
    return dict(labels=[kind], nontrivial=True)
