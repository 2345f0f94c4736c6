"""External data: frames, mappings onto parameters, and what they say about a history."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, specs
from vlib.core import Violation


def targets_of(spec):
    """parameters which neither a mapping nor an equation writes"""
    vs = specs.all_vars(spec)
    ref = specs.Ref(spec)
    written = set()
    for i in ref.order:
        written |= ref.nodes[i][2]
    return [p for p, (k, _) in vs.items() if k in "pc" and p not in written and p not in {m[1] for m in spec["maps"]}]


@st.composite
def column(draw, n, close=False):
    kind = "close" if close else draw(st.sampled_from(["any", "any", "any", "zero", "constant", "steps"]))
    if kind == "close":
        # changes which are small compared with the values
        a, d = draw(st.sampled_from([(1.0, 1e-6), (300.0, 0.0015), (-2.5, 4e-6)]))
        return [a + d * draw(st.integers(0, 9)) for _ in range(n)]
    if kind == "zero":
        return [0.0] * n
    if kind == "constant":
        return [draw(gen.fnum)] * n
    if kind == "steps":
        a, b = draw(gen.fnum), draw(gen.fnum)
        k = draw(st.integers(0, n))
        return [a] * k + [b] * (n - k)
    return [draw(gen.fnum) for _ in range(n)]


@st.composite
def frames(draw, spec, max_rows=8, start=True, nframes=2, exact=False):
    """[{rows, t: [raw times], cols: [[name, values, path, LINEAR|PIESEWISE]], mult, start, owner}], all covering the same range"""
    tg = targets_of(spec)
    if not tg:
        return []
    tg = list(draw(st.permutations(tg)))
    nf = draw(st.integers(1, min(nframes, len(tg))))
    ncol = draw(st.integers(1, min(8, max(1, len(tg) // nf))))
    n = draw(st.integers(2, max_rows))
    t0 = draw(st.sampled_from([0.0, 0.0, 0.5, 2.0]))
    out = []
    close = draw(st.integers(0, 5)) == 0
    total = 0
    names = draw(st.permutations(["T", "Dew Point {C}", "x", "t", "value", "time2", "a.b", "x0"]))
    owners = [p for p, _, _, nd, _ in subsystems(spec)]
    for f in range(nf):
        gaps = [draw(st.sampled_from([0.25, 0.5, 1.0, 2.0] if exact else [0.25, 0.5, 1.0, 0.1, 2.0])) for _ in range(n - 1)]
        if f == 0:
            total = sum(gaps)
        elif not exact:
            k = total / sum(gaps)
            gaps = [g * k for g in gaps]
        m = draw(st.sampled_from([1, 1, 2.0, 0.5, 4, 0.125] if exact else [1, 1, 2.0, 0.5, 60, 0.1]))
        ts = [t0]
        for g in gaps:
            ts.append(ts[-1] + g)
        if f:
            ts[-1] = t0 + total
        s = draw(st.sampled_from([0, 0, 0, 1, 2])) if start else 0
        if f and exact:  # frames read in chunks have to have the same times
            out.append(dict(out[0], cols=[[names[c], draw(column(n + out[0]["start"], close)), tg.pop(),
                                           draw(st.sampled_from(["LINEAR", "PIESEWISE"]))] for c in range(ncol)],
                            owner=draw(st.sampled_from(owners))))
            continue
        raw = [t0 / m - (s - i) for i in range(s)] + [t / m for t in ts]
        cols = []
        for c in range(ncol):
            cols.append([names[c], draw(column(n + s, close)), tg.pop(), draw(st.sampled_from(["LINEAR", "PIESEWISE"]))])
        out.append(dict(t=raw, cols=cols, mult=m, start=s, owner=draw(st.sampled_from(owners)),
                        index=draw(st.sampled_from(["time", "timestamp"])), junk=draw(st.integers(0, 2))))
    return out


def subsystems(spec):
    out = []

    def walk(nd, pre):
        p = pre + [nd["tag"]]
        if "items" in nd and not nd.get("set"):
            out.append((".".join(p), None, None, nd, None))
            for k in nd["items"]:
                walk(k, p)
    walk(spec["root"], [])
    return out


def span(fr):
    """range of simulation times which the data covers"""
    t = [x * fr[0]["mult"] for x in fr[0]["t"][fr[0]["start"]:]]
    return t[0], t[-1]


def dataframe(f, index=None):
    import pandas as pd
    d = {}
    if f["junk"] == 1:
        d["unused"] = np.arange(len(f["t"])) * 1.5
    d[index or f["index"]] = np.array(f["t"])
    if f["junk"] == 2:
        d["unused2"] = np.arange(len(f["t"])) * -2.5
    for name, vals, _, _ in f["cols"]:
        d[name] = np.array(vals)
    return pd.DataFrame(d)


def element(f, df_id="inmemory", index=None):
    from numerous.engine.system.external_mappings import ExternalMappingElement
    from numerous.engine.system.external_mappings.interpolation_type import InterpolationType
    return ExternalMappingElement(df_id, index or f["index"], f["start"], f["mult"],
                                  {path: (name, InterpolationType[kind]) for name, _, path, kind in f["cols"]})


def sub_kw(frames_, loader):
    """keyword arguments of the subsystems; one loader per owner: loader(frame) -> (id, loader)"""
    out = {}
    for f in frames_:
        el, ld = loader(f)
        out[f["owner"]] = dict(external_mappings=[el], data_loader=ld)
    return out


def expected(f, col, t):
    """set of acceptable values at time t"""
    ts = np.array(f["t"][f["start"]:]) * f["mult"]
    vals = np.array(col[1][f["start"]:])
    if col[3] == "LINEAR":
        return [float(np.interp(t, ts, vals))]
    ix = int(np.searchsorted(ts, t, side="right")) - 1
    out = [vals[max(ix, 0)]]
    near = np.where(np.abs(ts - t) < 1e-9)[0]
    if any(0 < ts[i] - t <= 1e-14 for i in near):
        return [float(vals[max(i for i in near if ts[i] - t <= 1e-14)])]  # this time but for the rounding of the output times
    for i in near:
        if ts[i] != t:  # the same point up to rounding
            out += [vals[i]] + ([vals[i - 1]] if i else [])
    return [float(x) for x in out]


def check_history(spec, frames_, h, evaluate=True):
    """every row has the external values of its time, and the rest of the system computed from them"""
    ref = specs.Ref(spec)
    states = ref.states()
    vs = specs.all_vars(spec)
    cols = {c[2]: (f, c) for f in frames_ for c in f["cols"]}
    for i, t in enumerate(h.time):
        row = h.row(i)
        for p, (f, c) in cols.items():
            want = expected(f, c, t)
            if not any(specs.close(row[p], w, rtol=1e-9, atol=1e-9) for w in want):
                raise Violation(f"row {i} (t={t}): {p} is {row[p]!r}, the external data ({c[3]}) says {want}")
            ref.env[p] = row[p]
        if evaluate:
            env = ref.eval(t, {p: row[p] for p in states})
            for p in vs:
                if not specs.close(row[p], float(env[p]), rtol=1e-7, atol=1e-7):
                    raise Violation(f"row {i} (t={t}): {p} is {row[p]!r}, with the external data of this time it is "
                                    f"{float(env[p])!r}")
