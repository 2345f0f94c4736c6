"""C18: an equation is computed as it is written, or refused."""
from hypothesis import strategies as st

from vlib import specs
from vlib.core import Skip, Violation

ID = "C18"
RULE = ("A case is one equation with up to six statements from the whole of Python's statements and expressions (loops, nested "
        "and chained conditions, else branches, returns, chained, annotated and starred assignments, comprehensions, boolean "
        "operators, keyword arguments, ...) and two evaluation points. The model has to give the values the function gives, or to "
        "refuse the equation. Non-trivial: the equation has a construct outside of plain assignments.")
OUT = ["b", "c", "d"]
HEAD = '''
def mf0(x):
    return x * 0.5 + 1.0


def mf1(x, y=2.0, z=0.5):
    if x > y:
        return x - y * z
    return y * 2.0


def mf2(x, y):
    return x + y, x - y

'''
EXOTIC = ["none", "none", "boolop", "ops", "walrus", "comprehension", "lambda", "not", "truth", "annotated", "for", "while", "try",
          "with", "return", "match", "def", "items", "tuple value"]


STATEMENTS = {8: "annotated", 13: "for", 14: "while", 15: "try", 16: "with", 17: "return", 18: "match", 19: "def", 20: "items",
              21: "tuple value"}


class Kinds(set):
    allow = None


# some constants differ from others in the last digits only
num = st.one_of(st.integers(-8, 8).map(lambda i: repr(i / 4 + 0.125)), st.integers(-8, 8).map(lambda i: repr(i / 4 + 0.125)),
                st.sampled_from(["0.12500004", "0.12500008", "1.1250003", "1.125", "2.1250007", "3.1415926", "3.1415927", "2"]))


@st.composite
def expr(draw, names, depth, kinds):
    k = draw(st.integers(0, 29)) if depth > 0 else 0
    sub = expr(names, depth - 1, kinds)
    exotic = {19: "boolop", 20: "ops", 21: "walrus", 22: "comprehension", 23: "lambda"}
    if exotic.get(k, kinds.allow) != kinds.allow:
        k = 9

    def mark(x):
        kinds.add(x)
    if k < 8:
        return draw(st.sampled_from(names)) if draw(st.integers(0, 3)) else draw(num)
    if k < 14:
        return f"({draw(sub)} {draw(st.sampled_from(['+', '-', '*']))} {draw(sub)})"
    if k == 14:
        return f"(-{draw(sub)})"
    if k == 15:
        return f"np.tanh({draw(sub)})"
    if k == 16:
        return f"mf0({draw(sub)})"
    if k == 17:
        mark("keywords")
        a, b, c = draw(sub), draw(sub), draw(sub)
        return draw(st.sampled_from([f"mf1({a}, z={b})", f"mf1(z={a}, x={b})", f"mf1(y={a}, z={b}, x={c})", f"mf1({a}, *[{b}, {c}])",
                                     f"mf1({a})", f"mf1({a}, {b}, {c})", f"mf1({a}, **dict(z={b}))"]))
    if k == 18:
        mark("ifexp")
        return f"({draw(sub)} if {draw(test(names, depth - 1, kinds))} else {draw(sub)})"
    if k == 19:
        mark("boolop")
        return f"({draw(sub)} {draw(st.sampled_from(['and', 'or']))} {draw(sub)})"
    if k == 20:
        mark("ops")
        return draw(st.sampled_from([f"({draw(sub)} % 1.5)", f"({draw(sub)} // 0.75)", f"(+{draw(sub)})", f"({draw(sub)} ** 2)",
                                     f"(({draw(sub)} > 0.0) * 2.0)", f"(not {draw(sub)}) * 1.0"]))
    if k == 21:
        mark("walrus")
        return f"(v{draw(st.integers(0, 2))} := {draw(sub)})"
    if k == 22:
        mark("comprehension")
        return draw(st.sampled_from([f"sum([q * {draw(sub)} for q in [1.0, 2.0]])", f"max({draw(sub)} for q in [1.0, 2.0])",
                                     f"sum({{0: {draw(sub)}, 1: 2.0}}.values())"]))
    if k == 23:
        mark("lambda")
        return f"(lambda q: q * 2.0 + 1.0)({draw(sub)})"
    if k == 24:
        mark("index")
        return draw(st.sampled_from([f"[{draw(sub)}, {draw(sub)}][{draw(st.integers(-2, 1))}]", f"({draw(sub)}, {draw(sub)})[1]",
                                     f"[{draw(sub)}, {draw(sub)}, 2.5][{'1:][0' if kinds.allow == 'items' else '1'}]", f"mf2({draw(sub)}, {draw(sub)})[1]",
                                     f"[[{draw(sub)}, 1.0], [2.0, {draw(sub)}]][1][1]"]))
    if k == 25:
        mark("builtin")
        return draw(st.sampled_from([f"abs({draw(sub)})", f"max({draw(sub)}, {draw(sub)})", f"float({draw(sub)})",
                                     f"min({draw(sub)}, 1.5, {draw(sub)})", f"math.cos({draw(sub)})"]))
    return draw(st.sampled_from(names))


@st.composite
def test(draw, names, depth, kinds):
    sub = expr(names, max(depth, 0), kinds)
    ops = st.sampled_from(["<", "<=", ">", ">=", "==", "!="])
    k = draw(st.integers(0, 9))
    if {1: "boolop", 2: "not", 3: "truth"}.get(k, kinds.allow) != kinds.allow:
        k = 9
    s = f"{draw(sub)} {draw(ops)} {draw(sub)}"
    if k == 0:
        s += f" {draw(ops)} {draw(sub)}"
    elif k == 1:
        kinds.add("boolop")
        s = f"{s} {draw(st.sampled_from(['and', 'or']))} {draw(sub)} < 1.0"
    elif k == 2:
        kinds.add("not")
        s = f"not {s}"
    elif k == 3:
        kinds.add("truth")
        s = draw(sub)
    elif k == 4:
        kinds.add("truth")
        s = f"({s}) {draw(st.sampled_from(['==', '!=']))} ({draw(sub)} > 0.25)"
    return s


@st.composite
def block(draw, names, depth, kinds, n):
    """lines; every name in `names` has a value"""
    lines = []
    names = list(names)
    ex = lambda d=2: draw(expr(names, d, kinds))  # noqa
    tg = lambda: draw(st.sampled_from([f"scope.{o}" for o in OUT] + ["v0", "v1", "v2"]))  # noqa

    def sub(extra=()):
        return ["    " + ln for ln in draw(block(names + list(extra), depth - 1, kinds, draw(st.integers(1, 2))))]
    for _ in range(n):
        k = draw(st.integers(0, 27))
        if STATEMENTS.get(k, kinds.allow) != kinds.allow:
            mine = [i for i, v in STATEMENTS.items() if v == kinds.allow]
            k = mine[0] if mine and draw(st.booleans()) else draw(st.sampled_from([0, 5, 6, 7, 9, 10, 11, 12]))
        t = tg()
        if k < 5:
            lines.append(f"{t} = {ex()}")
        elif k == 5:
            kinds.add("aug")
            lines.append(f"{t} {draw(st.sampled_from(['+=', '-=', '*=']))} {ex()}")
        elif k == 6:
            kinds.add("tuple")
            a, b = tg(), tg()
            lines.append(draw(st.sampled_from([f"{t}, {a} = {a}, {ex()}", f"{t}, {a}, {b} = {ex()}, {t}, {a}", f"{t}, {a} = mf2({ex()}, {a})",
                                               f"{t}, {a} = [{ex()}, {t}]", f"[{t}, {a}] = {a}, {t}", f"({t}, ({a}, {b})) = ({b}, ({t}, {a}))",
                                               f"{t}, ({a}, {b}) = {b}, mf2({t}, {a})", f"{t}, *_w = [{ex()}, {a}, {b}]"])))
        elif k == 7:
            kinds.add("chain")
            a, b = tg(), tg()
            lines.append(draw(st.sampled_from([f"{t} = {a} = {ex()}", f"{t} = {a} = {b} = {t} + {a}", f"{t}, {a} = {a}, {b} = {b}, {t}"])))
        elif k == 8:
            kinds.add("annotated")
            lines.append(f"{t}: float = {ex()}")
        elif k in (9, 10, 11, 12) and depth > 0:
            kinds.add("if")
            lines.append(f"if {draw(test(names, 1, kinds))}:")
            lines += sub()
            if k == 10:
                kinds.add("else")
                lines += ["else:"] + sub()
            elif k == 11:
                kinds.add("elif")
                lines += [f"elif {draw(test(names, 1, kinds))}:"] + sub()
                if draw(st.booleans()):
                    lines += ["else:"] + sub()
        elif k == 13 and depth > 0:
            kinds.add("for")
            lines.append(f"for q in {draw(st.sampled_from(['range(2)', '[1.0, -0.5]', 'range(0)', '(1.5,)']))}:")
            lines += sub(["q"])
            if draw(st.integers(0, 2)) == 0:
                lines += ["    " + draw(st.sampled_from(["break", "continue", "pass"]))]
            if draw(st.integers(0, 3)) == 0:
                lines += ["else:"] + sub()
        elif k == 14 and depth > 0:
            kinds.add("while")
            c = f"_n{depth}"
            lines += [f"{c} = 0", f"while {c} < {draw(st.integers(0, 2))}:"] + sub() + [f"    {c} = {c} + 1"]
        elif k == 15 and depth > 0:
            kinds.add("try")
            lines += ["try:"] + sub() + ["except ValueError:"] + sub()
            if draw(st.booleans()):
                lines += [draw(st.sampled_from(["else:", "finally:"]))] + sub()
        elif k == 16 and depth > 0:
            kinds.add("with")
            lines += ["with np.errstate():"] + sub()
        elif k == 17:
            kinds.add("return")
            lines += ["return"] if draw(st.booleans()) else [f"if {draw(test(names, 1, kinds))}:", "    return"]
        elif k == 18 and depth > 0:
            kinds.add("match")
            lines += [f"match {t}:", f"    case {draw(num).lstrip('-')}:"] + ["    " + ln for ln in sub()] + ["    case _:"] + \
                     ["    " + ln for ln in sub()]
        elif k == 19 and depth > 0:
            kinds.add("def")
            lines += ["def g(q):"] + sub(["q"])
            if draw(st.booleans()):
                lines += [f"    return q * 2.0", f"{t} = g({ex()})"]
        elif k == 20:
            kinds.add("items")
            lines += [f"w = [{ex()}, {ex()}]", f"w[{draw(st.integers(0, 1))}] {draw(st.sampled_from(['=', '+=']))} {ex()}", f"{t} = w[0] + w[1]"]
        elif k == 21:
            kinds.add("tuple value")
            lines += [f"w = ({ex()}, {ex()})", f"{t} = w[{draw(st.integers(0, 1))}]"]
        elif k == 22:
            kinds.add("flag")
            lines += [f"fl = {draw(test(names, 1, kinds))}", f"{t} = {ex()} if fl else {ex()}"]
        elif k == 23:
            kinds.add("misc")
            lines += [draw(st.sampled_from(["pass", "'''text'''", f"mf0({ex()})", "global KC", "import math as mm"]))]
        else:
            lines.append(f"{t} = {ex()}")
    return lines


@st.composite
def cases(draw):
    kinds = Kinds()
    # at most one kind of the constructs which probably are refused in one equation
    kinds.allow = draw(st.sampled_from(EXOTIC))
    names = ["scope.x", "scope.y", "scope.p", "scope.b", "scope.c", "v0", "v1"]
    pro = [f"scope.{o} = {draw(expr(['scope.x', 'scope.y', 'scope.p'], 1, kinds))}" for o in OUT]
    pro += [f"v{i} = {draw(expr(['scope.x', 'scope.y', 'scope.b'], 1, kinds))}" for i in range(3)]
    body = draw(block(names, 2, kinds, draw(st.integers(1, 4))))
    epi = ["scope.d = scope.d + v0 * 0.5 - v1 + v2"] if draw(st.booleans()) else []
    dots = [f"scope.x_dot = {draw(st.sampled_from(['-scope.x', 'v0', 'scope.b']))}"]
    pts = [[draw(st.integers(-8, 8)) / 4 for _ in range(3)] for _ in range(2)]
    return dict(body=pro + body + epi + dots, points=pts, kinds=sorted(kinds), llvm=draw(st.integers(0, 9)) == 0)


def strategy(tier):
    return cases()


MODULE = '''import math

import numpy as np

from numerous.engine.system import Item, Subsystem
from numerous.multiphysics import EquationBase, Equation, NumerousFunction

KC = 4.5
%s

class T(EquationBase):
    def __init__(self):
        super().__init__('t')
        self.add_state('x', 0.5)
        self.add_parameter('y', -1.25)
        self.add_parameter('p', 2.0)
        self.add_parameter('b', 0.0)
        self.add_parameter('c', 0.0)
        self.add_parameter('d', 0.0)

    @Equation()
    def eval(self, scope):
%s


class I(Item):
    def __init__(self):
        super().__init__('i')
        self.create_namespace('t1').add_equations([T()])


class S(Subsystem):
    def __init__(self):
        super().__init__('s')
        self.register_item(I())
'''


class Scope:
    pass


def reference(case, pt):
    import math
    import numpy as np
    g = dict(np=np, math=math, KC=4.5)
    exec(HEAD + "def f(self, scope):\n" + "\n".join("    " + ln for ln in case["body"]) + "\n", g)
    sc = Scope()
    sc.x, sc.y, sc.p = [np.float64(v) for v in pt]
    sc.b = sc.c = sc.d = np.float64(0.0)
    with np.errstate(all="ignore"):
        g["f"](None, sc)
    out = {}
    for v in OUT + ["x_dot"]:
        x = getattr(sc, v)
        if isinstance(x, complex) or np.ndim(x):
            raise Skip("the equation gives no number")
        out[v] = float(x)
    return out


def check(case, ctx):
    import warnings
    import numpy as np
    try:
        want = [reference(case, pt) for pt in case["points"]]
    except Skip:
        raise
    except SyntaxError:
        raise Skip("no program")
    except Exception:  # the function itself fails
        raise Skip("the function fails")
    src = MODULE % (HEAD.replace("def mf", "@NumerousFunction()\ndef mf"), "\n".join("        " + ln for ln in case["body"]))
    labels = list(case["kinds"])
    refused = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mod = specs.load_module(src, ctx.dir)
        try:
            from numerous.engine.model import Model
            m = Model(mod.S(), use_llvm=case["llvm"])
            cm = specs.compiled(m)
            got = []
            for pt in case["points"]:
                m.set_variables({"s.i.t1.y": pt[1], "s.i.t1.p": pt[2]})
                with np.errstate(all="ignore"):
                    cm.func(0.0, np.array([pt[0]]))
                got.append(specs.read_all(m))
        except Exception as e:
            refused = e
    if refused is None:
        for i, (w, g) in enumerate(zip(want, got)):
            for v, x in w.items():
                if not specs.close(g["s.i.t1." + v], x, rtol=1e-9, atol=1e-9):
                    raise Violation(f"point {i} {case['points'][i]}: the equation was accepted; {v} is {g['s.i.t1.' + v]!r}, "
                                    f"as written it is {x!r}")
    elif not case["kinds"]:
        raise Violation(f"an equation of plain assignments is refused: {type(refused).__name__}: {refused}")
    labels.append("refused" if refused is not None else "computed")
    if case["llvm"]:
        labels.append("llvm")
    return dict(labels=labels, nontrivial=bool(case["kinds"]))
