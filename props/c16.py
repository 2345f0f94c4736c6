"""C16: reading and writing the variables of a model."""
import numpy as np
from hypothesis import strategies as st

from props import c01
from vlib import gen, specs
from vlib.core import Violation

ID = "C16"
RULE = ("A case is a generated system, a backend and 2-12 operations (setting values of variables through items, by path in bulk, by "
        "index, setting states, evaluating, pushing or pulling all values, resetting, values which are no numbers), after each of "
        "which every way of reading is compared with a model of two stores. Non-trivial: 3 kinds of operation or more.")
OPTS = dict(globals=True, depth=2, max_maps=5, map_onto_eq=True, functions=True, closure=True, max_items=3)
warmup = c01.warmup


@st.composite
def cases(draw):
    o = dict(OPTS, sets=draw(st.integers(0, 3)) == 0)
    spec = draw(gen.system(**o))
    vs = specs.all_vars(spec)
    paths = list(vs)
    states = [p for p, (k, _) in vs.items() if k == "s"]
    some = st.dictionaries(st.sampled_from(paths), gen.fnum, min_size=1, max_size=4)
    full = st.fixed_dictionaries({p: gen.fnum for p in states})
    one = st.one_of(
        st.tuples(st.just("item"), st.sampled_from(paths), gen.num),
        st.tuples(st.just("attr"), st.sampled_from(paths), gen.num),
        st.tuples(st.just("set"), some), st.tuples(st.just("upd"), some),
        st.tuples(st.just("wr"), st.sampled_from(paths), gen.fnum),
        st.tuples(st.just("push")), st.tuples(st.just("pull")), st.tuples(st.just("reset")),
        st.tuples(st.just("states"), full),
        st.tuples(st.just("eval"), st.sampled_from([0.0, 1.5]), full),
        st.tuples(st.just("own"), st.sampled_from([0.0, 2.5])),
        st.tuples(st.just("bad"), st.sampled_from(paths), st.sampled_from(["None", "text", "list", "dict"])))
    ops = [list(x) for x in draw(st.lists(one, min_size=2, max_size=12))]
    pre = draw(st.dictionaries(st.sampled_from(paths), gen.fnum, max_size=2))
    return dict(spec=spec, llvm=draw(st.sampled_from([False] * 5 + [True])), ops=ops, pre={p: v for p, v in pre.items() if vs[p][0] in "spca"})


def strategy(tier):
    return cases()


BAD = dict(None_=None)


def same(a, b):
    return specs.close(float(a), float(b))


def check(case, ctx):
    spec = case["spec"]
    ref = specs.Ref(spec)
    K = ref.env

    def before(items):
        for p, v in case["pre"].items():
            specs.var_of(items, p).value = v

    b = specs.build(spec, ctx, use_llvm=case["llvm"], extra=before)
    m = b.model
    for p, v in case["pre"].items():
        K[p] = np.float64(v)
        ref.init[p] = K[p]
        if p in ref.rename:
            K[ref.rename[p]] = ref.init[ref.rename[p]] = K[p]
    L = dict(K)
    nm = specs.compiled(m)
    paths = list(ref.vars)
    states = specs.state_order(m)
    var = {p: specs.var_of(b.items, p) for p in paths}
    by_target = {}
    for op, t, s in spec["maps"]:
        by_target.setdefault(t, (op, []))[1].append(s)
    known = set(K)

    def got_value(p):
        if p in by_target:
            op, ss = by_target[p]
            return sum(got_value(s) for s in ss)
        return L[p]

    def compare(i, op):
        where = f"after operation {i} ({op[0]})"
        vals = m.get_variables()
        if set(vals) != set(paths):
            raise Violation(f"{where}: get_variables has {sorted(set(vals) ^ set(paths))} too much or not")
        raw = nm.read_variables()
        for p in paths:
            if not same(vals[p], K[p]):
                raise Violation(f"{where}: get_variables gives {p} = {vals[p]!r}, expected {float(K[p])!r}")
            if raw[var[p].llvm_idx] != vals[p] and not np.isnan(vals[p]):
                raise Violation(f"{where}: read_variables gives {p} = {raw[var[p].llvm_idx]!r}, get_variables {vals[p]!r}")
            if not same(var[p].value, L[p]):
                raise Violation(f"{where}: the value of {p} is {var[p].value!r}, expected {float(L[p])!r}")
            if m.path_to_variable[p].value is not var[p].value and not same(m.path_to_variable[p].value, L[p]):
                raise Violation(f"{where}: {p} has another value by path")
            if not (p in by_target and p in ref.rename) and ref.vars[p][0] == "p" and not same(var[p].get_value(), got_value(p)):
                raise Violation(f"{where}: get_value of {p} is {var[p].get_value()!r}, its sources give {got_value(p)!r}")
        if states:
            for how, v in (("states_as_vector", m.states_as_vector), ("get_states of the numba model", nm.get_states())):
                if len(v) != len(states) or not all(same(x, K[p]) for x, p in zip(v, states)):
                    raise Violation(f"{where}: {how} gives {list(v)}, expected {[float(K[p]) for p in states]}")
        if [v.id for v in m.get_states()] != [var[p].id for p in states]:
            raise Violation(f"{where}: get_states gives {[v.tag for v in m.get_states()]}, the states are {states}")

    init = {p: float(ref.init[p]) for p in paths}
    compare(-1, ["start"])
    kinds = set()
    for i, op in enumerate(case["ops"]):
        k = op[0]
        kinds.add(k)
        if k in ("item", "attr"):
            (var[op[1]] if k == "item" else m.path_to_variable[op[1]]).value = op[2]
            L[op[1]] = K[op[1]] = np.float64(op[2])
        elif k == "set":
            m.set_variables(dict(op[1]))
            for p, v in op[1].items():
                L[p] = K[p] = np.float64(v)
        elif k == "upd":
            m.update_variables(dict(op[1]))
            for p, v in op[1].items():
                K[p] = np.float64(v)
        elif k == "wr":
            nm.write_variables(op[2], var[op[1]].llvm_idx)
            K[op[1]] = np.float64(op[2])
        elif k == "push":
            m.update_all_variables()
            K.update(L)
        elif k == "pull":
            m.update_local_variables()
            L.update(K)
        elif k == "reset":
            m._reset()
            for p in known:
                L[p] = K[p] = ref.init[p]
        elif k == "states":
            nm.set_states(np.array([op[1][p] for p in states], dtype=np.float64))
            for p in states:
                K[p] = np.float64(op[1][p])
        elif k in ("eval", "own"):
            y = op[2] if k == "eval" else {p: float(K[p]) for p in states}
            with np.errstate(all="ignore"):
                d = nm.func(op[1], np.array([y[p] for p in states], dtype=np.float64))
            ref.eval(op[1], y)
            for p, x in zip(states, d):
                if not same(x, K[p + "_dot"]):
                    raise Violation(f"operation {i}: derivative of {p} is {x!r}, expected {float(K[p + '_dot'])!r}")
        elif k == "bad":
            x = dict(None_=None, text="x1", list=[1.0], dict={"a": 1})[op[2].replace("None", "None_")]
            try:
                var[op[1]].value = x
            except ValueError:
                pass
            else:
                raise Violation(f"operation {i}: {op[1]} accepted the value {x!r}")
        compare(i, op)
        gi = m.get_variables_initial_values()
        for p in paths:
            if not same(gi[p], init[p]):
                raise Violation(f"operation {i}: initial value of {p} is {gi[p]!r}, was {init[p]!r}")
    return dict(labels=sorted(kinds) + (["llvm"] if case["llvm"] else []), nontrivial=len(kinds) >= 3)
