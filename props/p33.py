"""P33 - saved feature definitions: a feature or kit against the one reloaded from its (JSON) configuration, on generated tables."""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import expr, feat
from vlib.core import Facet, Skip, require, sut
from vlib.gen import bulk
from props.p32 import kits, make, names_of

PROPERTY = "P33"
RULE = "a case counts if the original feature has at least two different defined values"
ASSUMPTIONS = ["functions given to Feature.apply are the built-in operations (arbitrary functions are documented as not reloadable)",
               "external functions are given by import path; ApproximateEntropy needs a package that is not installed"]


def same_values(label, a, b):
    a, b = feat.outputs(a), feat.outputs(b)
    require(len(a) == len(b), lambda: f"{label}: {len(b)} outputs after reloading, {len(a)} before")
    for x, y in zip(a, b):
        require(x.name == y.name, lambda: f"{label}: output named {y.name!r} after reloading, {x.name!r} before")
        expr.same(f"{label}: reloaded {x.name}", y.to_numpy(dtype=float), x.to_numpy(dtype=float).tolist())


def roundtrip(f):
    from finmlkit.feature.kit import Feature
    cfg = sut(f.to_config)
    text = sut(json.dumps, cfg)
    return sut(Feature.from_config, json.loads(text))


def compare_feature(f, df, be):
    try:
        want = f(df, backend=be)
    except Exception:                                      # noqa: BLE001  not computable on this table: outside the domain
        raise Skip
    g = roundtrip(f)
    require(g.name == f.name, lambda: f"name {g.name!r} after reloading, {f.name!r} before")
    same_values(str(f.name), want, sut(g, df, backend=be))
    h = roundtrip(g)                                       # a second round trip changes nothing either
    require(h.name == f.name, lambda: f"name {h.name!r} after reloading twice, {f.name!r} before")
    same_values(str(f.name) + " twice", want, sut(h, df, backend=be))


def table(c):
    df = feat.frame(c["t"])
    df["prev"] = df["x"] * 3 + 1
    return df


def as_numpy(v):
    """parameters taken out of an array (a grid of windows, say) are NumPy scalars"""
    if isinstance(v, bool):
        return np.bool_(v)
    return np.int64(v) if isinstance(v, int) else np.float64(v) if isinstance(v, float) else v


def check_transform(c):
    from finmlkit.feature.kit import Feature
    p = {k: as_numpy(v) for k, v in c["p"].items()} if c.get("np") else c["p"]
    try:
        f = Feature(feat.SPECS[c["cls"]].build(p))
    except Exception:                                      # noqa: BLE001
        if c.get("np"):
            raise Skip
        raise
    if c["name"]:
        f.name = c["name"] if isinstance(f.name, str) else [f"{c['name']}{i}" for i in range(len(f.name))]
    compare_feature(f, table(c), c["be"])


def check_expr(c):
    f = sut(expr.build, c["e"])
    if c["name"]:
        f.name = c["name"]
        if c["then"]:                                      # operators applied to a renamed feature
            f = {"log": f.log, "lag": lambda: f.lag(1), "mul": lambda: f * 2, "rolling_mean": lambda: f.rolling_mean(2)}[c["then"]]()
    compare_feature(f, table(c), c["be"])


def check_kit(c):
    from finmlkit.feature.kit import FeatureKit
    df = table(c)
    feats = sut(make, c, {} if c["share"] else None)
    flat = [nm for f in feats for nm in names_of(f)]
    if len(set(flat)) != len(flat) or set(flat) & set(c["retain"]):
        raise Skip
    kit = FeatureKit(feats, retain=list(c["retain"]))
    try:
        want = kit.build(df, backend=c["be"], order=c["order"])
    except Exception:                                      # noqa: BLE001
        raise Skip
    d = tempfile.mkdtemp(prefix="p33")
    path = os.path.join(d, "kit.json")
    try:
        sut(kit.save_config, path)
        again = sut(FeatureKit.from_config, path)
        twin = sut(FeatureKit.from_dict, json.loads(json.dumps(kit.to_config())))
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(d)
    for k, label in ((again, "file"), (twin, "dict")):
        got = sut(k.build, df, backend=c["be"], order=c["order"])
        require(list(got.columns) == list(want.columns), lambda: f"columns after reloading ({label}): {list(got.columns)}, before {list(want.columns)}")
        require(list(k.topological_order()) == list(kit.topological_order()), "the topological order changed by reloading")
        for col in want.columns:
            expr.same(f"reloaded ({label}) feature {col!r}", got[col].to_numpy(dtype=float), want[col].to_numpy(dtype=float).tolist())


EXTERNALS = [("numpy.log", ["close"], "lc", [], {}), ("numpy.add", ["close", "volume"], "s", [], {}), ("numpy.modf", ["close"], ["frac", "whole"], [], {}),
             ("numpy.clip", ["x"], "clipped", [-0.5, 0.5], {}), ("numpy.power", ["close"], None, [2], {}), ("numpy.round", ["x"], "r", [], {"decimals": 1}),
             ("numpy.divmod", ["close", "open"], ["q", "r"], [], {}), ("numpy.cumsum", ["volume"], ["total"], [], {})]


def check_external(c):
    from finmlkit.feature.kit import Feature
    from finmlkit.feature.transforms import ExternalFunction
    path, ins, outs, args, kw = c["fn"]
    given = path
    if c["obj"]:                                           # the function itself instead of its path
        given = getattr(np, path.split(".")[1])
        if getattr(given, "__module__", None) != "numpy":
            raise Skip
    if c["npargs"]:
        args, kw = [as_numpy(a) for a in args], {k: as_numpy(v) for k, v in kw.items()}
    t = sut(ExternalFunction, given, ins if len(ins) > 1 or c["list"] else ins[0], outs, args=args, kwargs=kw, pass_numpy=c["np"])
    f = Feature(t)
    df = table(c)
    import numpy
    fn = getattr(numpy, path.split(".")[1])
    want = fn(*[df[i].to_numpy() for i in ins], *args, **kw)
    got = feat.outputs(sut(f, df, backend=c["be"]))
    want = list(want) if isinstance(want, tuple) else [want]
    require(len(got) == len(want), "an external function lost an output")
    for g, w, nm in zip(got, want, feat.names_of(t)):
        require(g.name == nm and g.index.equals(df.index), lambda: f"external output {g.name!r}, declared {nm!r}")
        expr.same(f"{path} as a feature", g.to_numpy(dtype=float), w.tolist(), 0.0)
    compare_feature(f, df, c["be"])


def varied(c, f):
    try:
        v = np.concatenate([o.to_numpy(dtype=float) for o in feat.outputs(f(table(c), backend="nb"))])
        return len(set(v[~np.isnan(v)].tolist())) > 1
    except Exception:                                      # noqa: BLE001
        return False


BE = st.sampled_from(["nb", "pd"])
NAME = st.sampled_from([None, None, "f", "my feature", "close_sma3"])
T = feat.tables(3, 24, kinds=("walk", "walk", "up"))


@st.composite
def any_transform(draw):
    n = draw(st.sampled_from(sorted(feat.SPECS)))
    return {"cls": n, "p": draw(feat.SPECS[n].strategy()), "name": draw(NAME), "be": draw(BE), "t": draw(T), "np": draw(st.sampled_from([False, False, True]))}


F1 = Facet("transforms", any_transform(), check_transform, quick=1500, thorough=25000, nontrivial=lambda c: varied(c, feat.SPECS[c["cls"]].build(c["p"])),
           classify=lambda c: [c["cls"]])
F2 = Facet("expressions", st.fixed_dictionaries({"e": expr.tree(), "name": NAME, "then": st.sampled_from([None, "log", "lag", "mul", "rolling_mean"]), "be": BE, "t": T}), check_expr,
           quick=900, thorough=20000, nontrivial=lambda c: varied(c, expr.build(c["e"])), classify=lambda c: [f"depth {expr.depth(c['e'])}"] + sorted({n[0] for n in expr.subnodes(c["e"])}))
F3 = Facet("kits", kits(), check_kit, quick=400, thorough=10000, classify=lambda c: [f"{len(c['nodes'])} features"])
F4 = Facet("external_functions", st.fixed_dictionaries({"fn": st.sampled_from(EXTERNALS), "list": st.booleans(), "np": st.booleans(), "obj": st.booleans(), "npargs": st.booleans(), "be": BE, "t": T}), check_external, quick=300, thorough=2000,
           classify=lambda c: [c["fn"][0]])
FACETS = [F1, F2, F3, F4]
JIT_WORKERS = 4
NOJIT_WORKERS = 4
