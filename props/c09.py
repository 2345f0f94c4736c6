"""C09: external data read from files in chunks is the data of the file."""
from hypothesis import strategies as st

from props import c07
from vlib import ext, gen, sim, specs
from vlib.core import Skip

ID = "C09"
RULE = ("A case is a generated system whose parameters are mapped to the columns of 1-2 CSV files (1-30 rows, time column "
        "anywhere, time multiplier, start index) read by a CSVDataLoader with any chunk size (1 to larger than the file, or none), "
        "one loader or one per file; simulated once or twice over any part of the time the file covers. In every row every mapped "
        "variable has the value of the file at this time, whatever the chunk size. Non-trivial: more than one chunk was needed.")
OPTS = dict(globals=True, functions=False, sub_eqs=True, max_maps=2, depth=1, stable=True, max_items=2, max_states=1, max_out=1)
warmup = c07.warmup


@st.composite
def cases(draw):
    spec = draw(gen.system(**OPTS))
    chunk = draw(st.sampled_from([1, 1, 2, 3, 4, 7, 50, 1000, None]))
    fr = draw(ext.frames(spec, max_rows=draw(st.sampled_from([4, 12, 30])), exact=True, start=chunk in (50, 1000, None)))
    if not fr:
        return dict(spec=spec, frames=[])
    a, b = ext.span(fr)
    grids = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        lo, hi = draw(st.sampled_from([(0, 1), (0, 1), (0.25, 1), (0.5, 0.75)]))
        grids.append(dict(t0=a + (b - a) * lo, t1=a + (b - a) * hi, num=draw(st.integers(1, 20))))
    sv = draw(c07.solver())
    if sv["method"] == "BDF":  # the solver package's BDF cannot resume at a point of the grid, where a chunk was loaded
        sv["method"] = "RK45"
    return dict(spec=spec, frames=fr, grids=grids, solver=sv, chunk=chunk,
                index_column=draw(st.booleans()), shared=draw(st.booleans()), one_file=draw(st.booleans()))


CORPUS = [dict(
    spec=dict(classes=[dict(name="C0", style="own", nss=[dict(ns="t1", vars=[["p0", "p", 0.5], ["x0", "s", 1.0]], selffn=False,
                                                              off=0.0, eqs=[dict(name="dyn", body=["scope.x0_dot = -scope.x0"])])])],
              root=dict(tag="s", items=[dict(tag="i0", cls="C0", init={})]), maps=[], globals=[]),
    frames=[dict(t=[0.0, 1.0, 2.0, 3.0, 4.0, 5.0], cols=[["v", [1.0, 2.0, 4.0, 8.0, 16.0, 32.0], "s.i0.t1.p0", "LINEAR"]], mult=1,
                 start=1, owner="s", index="time", junk=0)],
    grids=[dict(t0=1.0, t1=5.0, num=8)], solver=dict(method="RK45"), chunk=2, index_column=False, shared=False)]


def known(case, text):
    """the start index is applied to every chunk of the file, not to the file"""
    if case["frames"] and case["frames"][0]["start"] and case["chunk"] and case["chunk"] < len(case["frames"][0]["t"]):
        return "start-index-of-every-chunk"
    return None


def strategy(tier):
    return cases()


def build(case, ctx, **kwargs):
    import os
    import pandas as pd
    from numerous.utils.data_loader import CSVDataLoader
    spec, fr = case["spec"], case["frames"]
    kw = {}
    loaders = {}
    for i, f in enumerate(fr):
        path = os.path.join(ctx.dir, f"data{i}.csv")
        if case.get("one_file") and len(fr) > 1:
            # all frames are columns of one file
            f = dict(f, cols=[[f"{i}{c[0]}"] + c[1:] for c in f["cols"]])
            path = os.path.join(ctx.dir, "data.csv")
            df = ext.dataframe(f, "time")
            if i:
                df = pd.concat([pd.read_csv(path), df[[c[0] for c in f["cols"]]]], axis=1)
            df.to_csv(path, index=case["index_column"] and i == len(fr) - 1)
        else:
            ext.dataframe(f, "time").to_csv(path, index=case["index_column"])
        o = f["owner"]
        el = ext.element(f, path, "time")
        if o in kw:  # several files of one subsystem have one loader
            kw[o]["external_mappings"].append(el)
            continue
        ld = loaders.get("x") if case["shared"] else None
        ld = ld or CSVDataLoader(chunksize=case["chunk"])
        loaders["x"] = ld
        kw[o] = dict(external_mappings=[el], data_loader=ld)
    return specs.build(spec, ctx, sub_kw=kw, **kwargs), kw


def check(case, ctx):
    spec, fr = case["spec"], case["frames"]
    if not fr:
        raise Skip
    b, kw = build(case, ctx)
    for g in case["grids"]:
        h = sim.run(b.model, g["t0"], g["t1"], g["num"], **case["solver"])
        if len(h.time) != g["num"] + 1:
            raise AssertionError(f"{len(h.time)} rows, {g['num'] + 1} were requested")
        ext.check_history(spec, fr, h)
    n = len(fr[0]["t"])
    many = case["chunk"] is not None and case["chunk"] < n - 1
    lb = ["chunk-" + ("none" if case["chunk"] is None else "1" if case["chunk"] == 1 else "few" if many else "all")]
    if len(fr) > 1:
        lb.append("two-files-one-loader" if len(kw) == 1 or case["shared"] else "two-files")
        if case.get("one_file"):
            lb.append("one-file")
    if any(f["mult"] != 1 for f in fr):
        lb.append("multiplier")
    if any(f["start"] for f in fr):
        lb.append("start")
    if len(case["grids"]) > 1:
        lb.append("again")
    return dict(labels=lb, nontrivial=many)
