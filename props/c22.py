"""C22: bilinear interpolation in tables of one data array."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Violation

ID = "C22"
RULE = ("A case is up to four tables (1 to 6 points per axis, equidistant, anywhere on the axis, any values) laid one after another in "
        "one data array, and points to look up: on grid points, on grid lines, on the borders, inside cells, outside. Each value must be "
        "that of piecewise bilinear interpolation (numpy.interp along x, then along y) at the point moved to the nearest point of the "
        "table. Non-trivial: a point inside a cell of a table with more than one point on both axes.")
BUDGET = {"quick": 25, "thorough": 300}


def num():
    return st.one_of(st.integers(-20, 20).map(float), st.floats(-50, 50).map(lambda v: round(v, 3)))


@st.composite
def axis(draw):
    n = draw(st.integers(1, 6))
    a = draw(num())
    h = draw(st.sampled_from([1.0, 0.5, 2.0, 0.1, 0.3, 7.0, 1e-3, 1 / 3]))
    return n, a, h


@st.composite
def place(draw):
    """A position on an axis: (kind, where)."""
    kind = draw(st.sampled_from(["point", "inside", "outside", "border", "near"]))
    if kind == "inside":
        return kind, draw(st.floats(0, 1))
    if kind in ("point", "near"):
        return kind, draw(st.integers(0, 5))
    if kind == "border":
        return kind, draw(st.integers(0, 1))
    return kind, draw(st.sampled_from([-3.0, -1.0, -0.01, 0.01, 0.7, 1.0, 4.0]))


@st.composite
def cases(draw):
    tables = []
    for _ in range(draw(st.integers(1, 4))):
        x, y = draw(axis()), draw(axis())
        kind = draw(st.sampled_from(["any", "plane", "product", "same"]))
        if kind == "any":
            q = draw(st.lists(num(), min_size=x[0] * y[0], max_size=x[0] * y[0]))
        else:
            q = [dict(plane=3.0 + 2 * i - 5 * j, product=(i - 1.5) * (j + 1.0), same=4.0)[kind] for j in range(y[0]) for i in range(x[0])]
        tables.append(dict(x=x, y=y, q=q))
    looks = draw(st.lists(st.tuples(st.integers(0, len(tables) - 1), place(), place()), min_size=1, max_size=25))
    return dict(tables=tables, looks=looks, lead=draw(st.integers(0, 3)), compiled=draw(st.integers(0, 5)) == 0)


def strategy(tier):
    return cases()


def points(ax):
    n, a, h = ax
    return np.array([a + h * i for i in range(n)])


def at(xs, where):
    kind, v = where
    lo, hi = xs[0], xs[-1]
    if kind == "point":
        return xs[v % len(xs)]
    if kind == "near":
        return xs[v % len(xs)] + 1e-9
    if kind == "inside":
        return lo + v * (hi - lo)
    if kind == "border":
        return (lo, hi)[v]
    return lo + v if v < 0 else hi + v


def warmup():
    from numerous.utils.interpolation.bilinear_interpolation import bilinear_interpolation
    many()


_many = []


def many():
    """A compiled function that looks up several points, as an equation's function would."""
    if not _many:
        from numba import njit
        from numerous.utils.interpolation.bilinear_interpolation import bilinear_interpolation as f

        @njit
        def run(ix, x, y, ddef, data):
            r = np.zeros(len(x))
            for i in range(len(x)):
                r[i] = f(ix[i], x[i], y[i], ddef, data)
            return r
        _many.append(run)
    return _many[0]


def check(case, ctx):
    from numerous.utils.interpolation.bilinear_interpolation import bilinear_interpolation
    data, ddef, tabs = [-77.0] * case["lead"], [], []
    for t in case["tables"]:
        xs, ys = points(t["x"]), points(t["y"])
        ddef.append(len(data))
        data += [len(xs), len(ys), xs[0], xs[-1], ys[0], ys[-1], *xs, *ys, *t["q"]]
        tabs.append((xs, ys, np.array(t["q"]).reshape(len(ys), len(xs))))
    data, ddef = np.array(data, dtype=float), np.array(ddef, dtype=np.int64)
    before = data.copy()
    pts = [(k, float(at(tabs[k][0], a)), float(at(tabs[k][1], b))) for k, a, b in case["looks"]]
    if case["compiled"]:
        got = many()(np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), np.array([p[2] for p in pts]), ddef, data)
    else:
        got = [bilinear_interpolation(k, x, y, ddef, data) for k, x, y in pts]
    lb = set()
    for (k, x, y), (_, a, b), z in zip(pts, case["looks"], got):
        xs, ys, q = tabs[k]
        want = np.interp(y, ys, [np.interp(x, xs, row) for row in q])
        # A point within rounding of a grid line may be taken for one on it.
        tol = 1e-6 * (1 + np.abs(q).max()) * (1 + (1 / case["tables"][k]["x"][2] + 1 / case["tables"][k]["y"][2]) * 1e-3)
        if not abs(z - want) <= tol:
            raise Violation(f"table {k} of {len(tabs)} (x {xs.tolist()}, y {ys.tolist()}, values {q.tolist()}) at ({x!r}, {y!r}) is "
                            f"{z!r}, expected {want!r}")
        if a[0] == b[0] == "inside" and len(xs) > 1 and len(ys) > 1:
            lb.add("cell")
        lb.update({a[0], b[0]})
        if len(xs) == 1 or len(ys) == 1:
            lb.add("one point")
    if not (data == before).all():
        raise Violation("the table was changed by looking it up")
    return dict(labels=sorted(lb), nontrivial="cell" in lb)
