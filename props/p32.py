"""P32 - feature kits: every feature of a kit against the same feature computed alone, for any order, sharing, renaming and caching."""
import contextlib
import io
import json

import numpy as np
from hypothesis import strategies as st

from vlib import expr, feat
from vlib.core import Facet, Skip, require, sut
from vlib.gen import bulk

PROPERTY = "P32"
RULE = "a case counts if one feature's expression contains another feature's, or two transforms share an output column, or a feature is declared on another's output"
ASSUMPTIONS = ["feature names within a kit are distinct and the table has no column named like a computed result",
               "a feature declared on another feature's output column is built after it (given order or topological order)",
               "functions passed to Feature.apply are the built-in ones, whose names identify them"]

leaves = st.one_of(expr.leaf(), expr.compose(hi=2))
small = expr.tree(leaves, 3)


@st.composite
def kits(draw):
    """features: [node, custom name or None]; a node may be ["ref", k]: built on the k-th node, or ["on", k, cls, params]: declared on its output column"""
    nodes = [draw(small)]
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, len(nodes) - 1))
        base = nodes[k]
        kind = draw(st.sampled_from(["new", "grow", "grow", "pair", "twin", "multi", "on", "same"]))
        if kind == "new":
            n = draw(small)
        elif kind == "grow" and base[0] not in ("m", "on"):
            n = draw(st.one_of(expr.unary_args().map(lambda a: ["u", base, *a]), st.tuples(st.sampled_from(expr.CONST), expr.constants).map(lambda t: ["c", t[0], base, t[1]])))
        elif kind == "pair" and base[0] not in ("m", "on"):
            other = nodes[draw(st.integers(0, len(nodes) - 1))]
            n = ["bin", draw(st.sampled_from(expr.BIN)), base, other if other[0] not in ("m", "on") else draw(expr.leaf())]
        elif kind == "twin":
            n = draw(twins(base))
        elif kind == "multi":
            m = draw(st.sampled_from(expr.MULTI))
            n = ["m", m, draw(feat.SPECS[m].strategy())]
        elif kind == "on" and base[0] not in ("m", "on"):
            step = draw(st.sampled_from(["SMA", "Lag", "EWMA", "ZScore"]))
            p = dict(draw(feat.SPECS[step].strategy()))
            p.pop("col")
            n = ["on", k, step, p]
        elif kind == "same":
            n = base
        else:
            n = draw(small)
        nodes.append(n)
    names = [draw(st.sampled_from([None, None, None, f"f{i}", f"my feature {i}"])) for i in range(len(nodes))]
    if draw(st.booleans()) and len(nodes) > 1:             # a custom name that is another feature's computed column would be ambiguous only as a result name
        names[draw(st.integers(0, len(nodes) - 1))] = draw(st.sampled_from(["renamed", "renamed", "close", "x", "volume", "<0>", "<1>"]))   # "<k>": the k-th output column
    return {"nodes": nodes, "names": names, "perm": draw(st.permutations(range(len(nodes)))), "order": draw(st.sampled_from(["defined", "topo"])),
            "share": draw(st.booleans()), "retain": draw(st.lists(st.sampled_from(["close", "x", "volume"]), unique=True, max_size=2)), "be": draw(st.sampled_from(["nb", "pd"])),
            "times": draw(st.integers(1, 2)), "t": draw(feat.tables(2, 16))}


@st.composite
def twins(draw, base):
    """the same expression with other parameters that do not show in the output name"""
    n = json.loads(json.dumps(base))
    for s in expr.subnodes(n) if n[0] not in ("m", "on") else []:
        if s[0] == "t":
            for k in ("is_log", "ddof", "num_std", "is_sample", "ret_type"):
                if k in s[2] and draw(st.booleans()):
                    s[2][k] = {"is_log": lambda v: not v, "ddof": lambda v: 1 - v, "num_std": lambda v: v + 0.5, "is_sample": lambda v: not v,
                               "ret_type": lambda v: "log" if v == "simple" else "simple"}[k](s[2][k])
    if n[0] not in ("m", "on") and draw(st.booleans()):
        n = ["c", "mul", n, 2]
    return n


def make(c, memo=None):
    """[(feature, alone)] in kit order; alone(df) computes the expected series"""
    from finmlkit.feature.kit import Feature
    feats = []
    for n, name in zip(c["nodes"], c["names"]):
        if name in ("<0>", "<1>"):
            name = feats[int(name[1])].transform.output_name if int(name[1]) < len(feats) else None
            name = name if isinstance(name, str) else None
        if n[0] == "m":
            f = Feature(feat.SPECS[n[1]].build(n[2]))
            if name:
                f.name = [f"{name}_{k}" for k in range(len(f.name))]
        elif n[0] == "on":
            f = Feature(feat.SPECS[n[2]].build({**n[3], "col": feats[n[1]].transform.output_name}))
            if name:
                f.name = name
        else:
            f = expr.build(n, memo)
            if name:
                if memo is not None:
                    f = Feature(f.transform)               # renaming must not rename the shared operand
                f.name = name
        feats.append(f)
    return feats


def alone(c, i, df):
    """the values of feature i computed alone (a feature on another's output gets just that column)"""
    import pandas as pd
    n = c["nodes"][i]
    f = make({"nodes": [n], "names": [None]})[0] if n[0] != "on" else None
    if f is None:
        src = alone(c, n[1], df)[0]
        t = feat.SPECS[n[2]].build({**n[3], "col": "src"})
        return [t(pd.DataFrame({"src": src.to_numpy()}, index=df.index), backend=c["be"])]
    return feat.outputs(f.transform(df, backend=c["be"]))


def names_of(f):
    return [f.name] if isinstance(f.name, str) else list(f.name)


def check(c):
    from finmlkit.feature.kit import FeatureKit
    df = feat.frame(c["t"])
    df["prev"] = df["x"] * 3 + 1
    feats = sut(make, c, {} if c["share"] else None)
    order = list(c["perm"])
    if c["order"] == "defined":                            # respect declared dependencies
        done, seq = set(), []
        while order:
            k = next(k for k in order if c["nodes"][k][0] != "on" or c["nodes"][k][1] in done)
            seq.append(k)
            done.add(k)
            order.remove(k)
        order = seq
    flat = [nm for f in feats for nm in names_of(f)]
    if len(set(flat)) != len(flat) or set(flat) & set(c["retain"]):
        raise Skip
    try:
        exp = [alone(c, i, df) for i in range(len(feats))]
    except Exception:                                      # noqa: BLE001  a feature that cannot be computed alone
        raise Skip
    outs = {f.transform.output_name if isinstance(f.transform.output_name, str) else "" for f in feats}
    if outs & set(df.columns):
        raise Skip
    for n in c["nodes"]:
        if n[0] == "on" and ambiguous(c, feats, feats[n[1]].transform.output_name):
            raise Skip                                     # which of several equally named columns is meant is undefined
    if c["order"] == "topo" and any(n[0] == "on" for n in c["nodes"]) and chained_inside(c, feats):
        raise Skip
    before = df.copy()
    kit = sut(FeatureKit, [feats[k] for k in order], retain=list(c["retain"]))
    for again in range(c["times"]):
        with contextlib.redirect_stdout(io.StringIO()):    # the second build also reports its timing
            out = sut(kit.build, df, backend=c["be"], order=c["order"], timeit=again > 0)
        require(df.equals(before) and list(df.columns) == list(before.columns), "building the kit changed the input table")
        require(out.index.equals(df.index), "the result is not on the index of the table")
        require(sorted(out.columns) == sorted(list(c["retain"]) + flat), lambda: f"columns {list(out.columns)}, expected {c['retain'] + flat}")
        if c["order"] == "defined":
            want = list(c["retain"]) + [nm for k in order for nm in names_of(feats[k])]
            require(list(out.columns) == want, lambda: f"columns in order {list(out.columns)}, expected {want}")
        for col in c["retain"]:
            require(out[col].equals(df[col]), f"retained column {col} differs from the table's")
        for k, f in enumerate(feats):
            for nm, e in zip(names_of(f), exp[k]):
                expr.same(f"feature {nm!r} of the kit ({c['be']}, {c['order']})", out[nm].to_numpy(dtype=float), e.to_numpy(dtype=float).tolist())


def definitions(c, feats):
    """output column -> set of definitions (as data) over all sub-expressions"""
    d = {}
    for n, f in zip(c["nodes"], feats):
        if n[0] in ("m", "on"):
            for nm in feat.names_of(f.transform):
                d.setdefault(nm, set()).add(json.dumps(n))
        else:
            for s in expr.subnodes(n):
                d.setdefault(expr.build(s).transform.output_name, set()).add(json.dumps(s))
                if s[0] == "compose":
                    d.setdefault(expr.build(["t", *s[1]]).transform.output_name, set()).add(json.dumps(["t", *s[1]]))
    return d


def ambiguous(c, feats, name):
    return len(definitions(c, feats).get(name, ())) > 1


def chained_inside(c, feats):
    return False


def nontrivial(c):
    subs = [json.dumps(s) for n in c["nodes"] if n[0] not in ("m", "on") for s in expr.subnodes(n)]
    return len(set(subs)) < len(subs) or any(n[0] == "on" for n in c["nodes"])


def labels(c):
    feats = make(c)
    out = [f"{len(feats)} features", c["order"]]
    if any(len(v) > 1 for v in definitions(c, feats).values()):
        out.append("equal output names with different definitions")
    out += sorted({n[0] for n in c["nodes"]} & {"m", "on"})
    return out


# the same output column for different definitions, in every way the built-in transforms allow
@st.composite
def collisions(draw):
    cls, p, q = draw(st.sampled_from([
        ("Return", {"periods": 2, "is_log": True, "col": "close"}, {"periods": 2, "is_log": False, "col": "close"}),
        ("ReturnT", {"window": 60.0, "is_log": True, "col": "close"}, {"window": 60.0, "is_log": False, "col": "close"}),
        ("ZScore", {"window": 3, "col": "close", "ddof": 0}, {"window": 3, "col": "close", "ddof": 1}),
        ("BollingerPercentB", {"window": 3, "num_std": 1.0, "col": "close"}, {"window": 3, "num_std": 2.0, "col": "close"}),
        ("VWAPDistance", {"periods": 2, "is_log": True}, {"periods": 2, "is_log": False}),
        ("RealizedVolatility", {"window": 3, "is_sample": True, "col": "x"}, {"window": 3, "is_sample": False, "col": "x"}),
        ("BarRate", {"window": 60.0, "col": "close"}, {"window": 1800.0, "col": "close"})]))
    a, b = ["t", cls, p], ["t", cls, q]
    wrap = draw(st.sampled_from(["op", "name", "compose", "deep", "pair"]))
    nodes = {"op": [a, ["c", "mul", b, 2]], "name": [a, b], "compose": [a, ["compose", [cls, q], ["SMA", {"window": 2, "col": "x"}]]],
             "deep": [["u", a, "square"], ["u", ["u", b, "square"], "abs"]], "pair": [a, ["bin", "sub", b, ["t", "SMA", {"window": 2, "col": "close"}]], ["c", "add", a, 1]]}[wrap]
    return {"nodes": nodes, "names": [None, "second"] + [None] * (len(nodes) - 2), "perm": draw(st.permutations(range(len(nodes)))), "order": draw(st.sampled_from(["defined", "topo"])),
            "share": draw(st.booleans()), "retain": [], "be": draw(st.sampled_from(["nb", "pd"])), "times": draw(st.integers(1, 2)), "t": draw(feat.tables(4, 16, kinds=("walk",)))}


F1 = Facet("kits", kits(), check, quick=1000, thorough=25000, nontrivial=nontrivial, classify=labels)
F2 = Facet("equal_output_names", collisions(), check, quick=300, thorough=4000, classify=labels)
FB = bulk(F1, lambda r, n, c: {**c["kit"], "t": feat.bulk_table(r, n)}, 40, 800, sizes=(60, 150, 400), extra={"kit": kits()})
FACETS = [F1, F2, FB]
JIT_WORKERS = 4
NOJIT_WORKERS = 4
