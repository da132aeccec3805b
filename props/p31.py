"""P31 - feature expressions: every operator of every tree against plain loops over its evaluated operands; pipelines against their stages."""
import numpy as np
from hypothesis import strategies as st

from vlib import expr, feat
from vlib.core import Facet, Skip, require, sut
from vlib.gen import bulk

PROPERTY = "P31"
RULE = "a case counts if the expression has an operator or a second stage and the result has two different defined values"
ASSUMPTIONS = ["the values of leaves are those of the transform called alone (their definitions are the subject of P23-P27)",
               "rolling operators treat infinite operands as missing, as pandas does",
               "tables hold no column named like an intermediate result (a documented cache)"]


def table_frame(c):
    df = feat.frame(c["t"])
    df["prev"] = df["x"] * 3 + 1                           # an unrelated column some pipeline steps are declared on
    return df


def value(node, df, be):
    f = sut(expr.build, node)
    s = sut(f, df, backend=be)
    require(s.index.equals(df.index), "the result is not on the index of the table")
    require(s.name == f.name, lambda: f"the result is named {s.name!r}, the feature {f.name!r}")
    return f, s


def short(n):
    return f"{n[0]}:{n[1] if n[0] in ('bin', 'mm', 'c') else n[2] if n[0] == 'u' else ''}"


def check(c):
    df, be = table_frame(c), c["be"]
    before = df.copy()
    memo = {}

    def ev(node):
        key = repr(node)
        if key not in memo:
            ops = [ev(k) for k in expr.children(node)]
            _, s = value(node, df, be)
            got = s.to_numpy(dtype=float).tolist()
            if ops:
                exp, tol = expr.step(node, ops)
                expr.same(f"{s.name} ({short(node)}, {be})", got, exp, tol)
            elif node[0] == "compose":
                check_stages(node, df, be, s)
            memo[key] = got
        return memo[key]
    ev(c["e"])
    require(df.equals(before) and list(df.columns) == list(before.columns), "evaluating an expression changed the table")


def check_stages(node, df, be, got):
    import pandas as pd
    cur = None
    for t in sut(expr.stages, node):
        try:
            if cur is None:
                cur = t(df, backend=be)
            else:
                cur = t(pd.DataFrame({t.requires[0]: cur.to_numpy()}, index=df.index), backend=be)
        except Exception:                                  # noqa: BLE001  a stage that rejects its input alone: nothing to compare
            raise Skip
    expr.same(f"pipeline {got.name} ({be})", got.to_numpy(dtype=float).tolist(), cur.to_numpy(dtype=float).tolist(), 0.0)


def operands_shared(c):
    """one Feature object used several times in an expression gives the same as rebuilding it every time"""
    df = table_frame(c)
    a = sut(sut(expr.build, c["e"]), df, backend=c["be"])
    b = sut(sut(expr.build, c["e"], {}), df, backend=c["be"])
    expr.same("expression with shared operands", b.to_numpy(dtype=float), a.to_numpy(dtype=float).tolist())


def nontrivial(c):
    return len(expr.subnodes(c["e"])) > 1 or c["e"][0] == "compose"


def labels(c):
    return sorted({short(n) if n[0] != "t" else "leaf:" + n[1] for n in expr.subnodes(c["e"])}) + [f"depth {expr.depth(c['e'])}"]


BE = st.sampled_from(["nb", "pd"])
base = {"t": feat.tables(1, 24), "be": BE}
simple = st.one_of(st.just(["t", "Lag", {"periods": 0, "col": "x"}]), st.just(["t", "Lag", {"periods": 1, "col": "close"}]), st.just(["t", "SMA", {"window": 1, "col": "y"}]),
                   st.just(["t", "Lag", {"periods": 0, "col": "sig"}]), st.just(["t", "Lag", {"periods": 0, "col": "volume"}]))
F1 = Facet("operators", st.fixed_dictionaries({**base, "e": expr.tree(simple, 4)}), check, quick=1200, thorough=30000, nontrivial=nontrivial, classify=labels)
F2 = Facet("expressions", st.fixed_dictionaries({**base, "e": expr.tree()}), check, quick=900, thorough=20000, nontrivial=nontrivial, classify=labels)
F3 = Facet("pipelines", st.fixed_dictionaries({**base, "e": expr.compose()}), check, quick=900, thorough=20000, nontrivial=nontrivial,
           classify=lambda c: [f"{len(c['e']) - 1} stages"] + ["declared on " + str(s[1].get("col")) for s in c["e"][2:]])
F4 = Facet("shared_operands", st.fixed_dictionaries({**base, "e": st.one_of(expr.tree(simple, 2), expr.compose()).map(lambda n: ["bin", "add", ["u", n, "square"], ["bin", "mul", n, ["u", n, "lag", 1]]])}),
           operands_shared, quick=300, thorough=6000)
F5 = Facet("equal_names", st.fixed_dictionaries({**base, "e": expr.twin_pair()}), check, quick=400, thorough=8000, nontrivial=nontrivial, classify=labels)
FB = bulk(F1, lambda r, n, c: {"t": feat.bulk_table(r, n), "be": c["be"], "e": c["e"]}, 150, 3000, sizes=(60, 150, 500), extra={"be": BE, "e": expr.tree(simple, 4)})
FACETS = [F1, F2, F3, F4, F5, FB]
JIT_WORKERS = 4
NOJIT_WORKERS = 4
