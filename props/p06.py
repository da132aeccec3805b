"""P06 - view range."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.bars import tick_bars
from vlib.core import Facet, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import NS

PROPERTY = "P06"
RULE = "a case counts if some view hides at least one trade and shows at least one trade"
ASSUMPTIONS = ["trades are in time order, as preprocessing leaves them"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 30))
    t, rows = 0, []
    for _ in range(n):
        t += draw(st.sampled_from([0, 0, 1, 1000, 1_000_000, NS["s"], 37 * NS["s"]]))
        rows.append([t, draw(st.integers(1, 9)), draw(st.integers(1, 64))])
    ops = []
    edge = st.tuples(st.integers(0, n - 1), st.sampled_from([0, 0, 1, -1, 1000, -NS["s"], 10 * NS["s"], -100 * NS["s"]])).map(list)
    for _ in range(draw(st.integers(1, 5))):
        ops.append([draw(edge), draw(edge), draw(st.sampled_from(["ts", "str"])), draw(st.sampled_from(["swap", "asis", "asis"]))])
    return {"rows": rows, "base": draw(st.sampled_from([1_609_459_199, 1_700_000_000])), "ops": ops, "bar": draw(st.sampled_from([1, 2, 3]))}


def bounds(c, op):
    a = c["base"] * NS["s"] + c["rows"][op[0][0]][0] + op[0][1]
    b = c["base"] * NS["s"] + c["rows"][op[1][0]][0] + op[1][1]
    if a > b and op[3] != "asis":
        a, b = b, a
    return a, b


def check(c):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.kit import TickBarKit
    ts = np.array([c["base"] * NS["s"] + r[0] for r in c["rows"]], dtype=np.int64)
    px = np.array([r[1] / 2 for r in c["rows"]])
    am = np.array([r[2] / 64 for r in c["rows"]])
    td = sut(TradesData, ts, px, am, np.arange(len(ts)), timestamp_unit="ns")
    lo, hi = -2 ** 63, 2 ** 63 - 1

    def verify(what):
        m = (ts >= lo) & (ts <= hi)
        d = sut(lambda: td.data)
        cmp_exact(f"visible timestamps {what}", d["timestamp"].values, ts[m])
        cmp_float(f"visible prices {what}", d["price"].values, px[m], rtol=0)
        cmp_float(f"visible amounts {what}", d["amount"].values, am[m], rtol=0)
        return m
    verify("before any view")
    for op in c["ops"]:
        a, b = bounds(c, op)
        A, B = pd.Timestamp(a), pd.Timestamp(b)
        if op[2] == "str":
            A, B = str(A), str(B)
        if a >= b:
            expect_raises(ValueError, td.set_view_range, A, B)
        else:
            sut(td.set_view_range, A, B)
            lo, hi = a, b
            require(td.start_date == pd.Timestamp(a) and td.end_date == pd.Timestamp(b), "view bounds are not reported")
        m = verify(f"after set_view_range({A}, {B})")
        k = int(m.sum())
        closes = tick_bars(k, c["bar"]) if k else []
        if len(closes) > 1:
            bars = sut(TickBarKit(td, c["bar"]).build_ohlcv)
            cov = int(bars["trades"].sum())
            require(cov == closes[-1], lambda: f"bars cover {cov} trades, expected {closes[-1]} of {k} visible")
            cmp_float("volume of the bars", bars["volume"].sum(), am[m][1:1 + cov].sum(), rtol=1e-5)
            cmp_exact("bar stamps", bars.index.values.astype("datetime64[ns]").astype(np.int64), ts[m][closes[1:]])
    td.set_view_range(pd.Timestamp(int(ts[0]) - 1), pd.Timestamp(int(ts[-1]) + 1))
    lo, hi = -2 ** 63, 2 ** 63 - 1
    verify("after widening the view")


def nontriv(c):
    ts = [c["base"] * NS["s"] + r[0] for r in c["rows"]]
    for op in c["ops"]:
        a, b = bounds(c, op)
        k = sum(a <= t <= b for t in ts)
        if a < b and 0 < k < len(ts):
            return True
    return False


def labels(c):
    ts = {c["base"] * NS["s"] + r[0] for r in c["rows"]}
    for op in c["ops"]:
        a, b = bounds(c, op)
        yield "rejected" if a >= b else ("bound on a stamp" if a in ts or b in ts else "bound between stamps")


FACETS = [Facet("view", case(), check, quick=600, thorough=20000, jit_quick=150, jit_thorough=3000, classify=labels, nontrivial=nontriv)]
