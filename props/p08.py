"""P08 - tick, volume and dollar bars."""
import numpy as np
from hypothesis import strategies as st

from vlib.bars import arrays, dollar_bars, make_td, tick_bars, volume_bars
from vlib.core import Facet, cmp_exact, cmp_float, require, sut
from vlib.gen import bulk, bulk_rows, gaps_ns, trade_rows

PROPERTY = "P08"
RULE = "a case counts if at least two bars close and at least one bar holds two or more trades"
ASSUMPTIONS = ["amounts are multiples of 1/64, prices multiples of 1/2 and thresholds multiples of 1/128, so threshold comparisons are exact in either precision"]


@st.composite
def case(draw, kind):
    rows = draw(trade_rows(2, 60, amt_hi=draw(st.sampled_from([64, 640, 6400])), gap=st.one_of(st.just(0), gaps_ns())))
    if kind == "tick":
        thr = draw(st.one_of(st.integers(1, 6), st.integers(1, len(rows) + 1)))
    elif kind == "volume":
        # thresholds in 1/64: hit exactly by single trades and partial sums, or in between
        k = draw(st.integers(1, 6))
        s = sum(r[2] for r in rows[:k])
        thr = draw(st.one_of(st.just(s), st.just(max(1, s - 1)), st.just(s + 1), st.integers(1, 2000)))
    else:
        k = draw(st.integers(1, 6))
        s = sum(r[2] * r[1] for r in rows[:k])
        thr = draw(st.one_of(st.just(s), st.just(max(1, s - 1)), st.just(s + 1), st.integers(1, 20000)))
    return {"kind": kind, "rows": rows, "thr": thr, "base": 1_700_000_000, "tick": 0.5}


def expected(c):
    ts, px, am, sd = arrays(c)
    if c["kind"] == "tick":
        return tick_bars(len(ts), c["thr"])
    if c["kind"] == "volume":
        return volume_bars(am, c["thr"] / 64)
    return dollar_bars(px, am, c["thr"] / 128)


def check(c):
    from finmlkit.bar.kit import DollarBarKit, TickBarKit, VolumeBarKit
    ts, px, am, sd = arrays(c)
    td = make_td(ts, px, am, sd)
    if c["kind"] == "tick":
        kit = TickBarKit(td, c["thr"])
    elif c["kind"] == "volume":
        kit = VolumeBarKit(td, c["thr"] / 64)
    else:
        kit = DollarBarKit(td, c["thr"] / 128)
    exp = expected(c)
    ix = sut(lambda: kit.bar_close_indices)
    cmp_exact("close indices", ix, np.array(exp[1:], dtype=np.int64))
    cmp_exact("close stamps", sut(lambda: kit.bar_close_timestamps), ts[exp[1:]] if len(exp) > 1 else np.empty(0, dtype=np.int64))
    if len(exp) > 1:
        df = sut(kit.build_ohlcv)
        cmp_exact("trades", df["trades"].values, np.diff(exp))
        cmp_exact("bar stamps", df.index.values.astype("datetime64[ns]").astype(np.int64), ts[exp[1:]])
        cmp_float("volume", df["volume"].values, [am[a + 1:b + 1].astype(float).sum() for a, b in zip(exp, exp[1:])], rtol=1e-5)
        require(abs(float(df["volume"].astype(float).sum()) - float(am[1:exp[-1] + 1].astype(float).sum())) <= 1e-4 * float(am.astype(float).sum()), "volume lost or counted twice")


def labels(c):
    e = expected(c)
    d = np.diff(e)
    yield f"{'0' if len(d) == 0 else '1' if len(d) == 1 else '2+'} bars"
    if len(d) and (d == 1).all():
        yield "every trade closes a bar"
    if c["kind"] != "tick" and any(r[2] * (r[1] if c["kind"] == "dollar" else 1) >= c["thr"] for r in c["rows"]):
        yield "single trade above threshold"


def nontriv(c):
    d = np.diff(expected(c))
    return len(d) >= 2 and (d > 1).any()


FACETS = [Facet(k, case(k), check, quick=800, thorough=30000, jit_quick=600, jit_thorough=20000, classify=labels, nontrivial=nontriv)
          for k in ("tick", "volume", "dollar")]
JIT_WORKERS = 3


def big(kind):
    def make(r, n, c):
        return {"kind": kind, "rows": bulk_rows(r, n), "thr": r.choice((1, 2, 3, 10, 50, 400)), "base": 1_700_000_000, "tick": 0.5}
    return make


FACETS += [bulk(f, big(f.name), 80, 1500) for f in FACETS[:3]]
