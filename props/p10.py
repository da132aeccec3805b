"""P10 - OHLCV bars."""
import numpy as np
from hypothesis import strategies as st

from vlib.bars import OHLCV, arrays, make_td, ref_ohlcv
from vlib.core import Facet, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import bulk, bulk_closes, bulk_rows, trade_rows

PROPERTY = "P10"
RULE = "a case counts if it has at least two bars, one of which is empty, or holds a single trade, or ten or more trades"
ASSUMPTIONS = ["close indices are non-decreasing, start at -1 or later and stay inside the trades, as every bar kit produces them",
               "amounts are positive multiples of 1/64"]


@st.composite
def boundaries(draw, n, lo=-1):
    """non-decreasing close indices with repeats (empty bars)"""
    if n - 1 < lo:
        return [lo, lo]
    k = draw(st.integers(2, 14))
    mode = draw(st.sampled_from(["any", "any", "dense", "wide"]))
    if mode == "wide":
        xs = [lo, n - 1]
    elif mode == "dense":
        xs = draw(st.lists(st.integers(lo, min(n - 1, lo + 6)), min_size=k, max_size=k))
    else:
        xs = draw(st.lists(st.integers(lo, n - 1), min_size=k, max_size=k))
    xs.sort()
    if xs[0] == -1 and xs[1] == -1:        # an empty bar before the first trade has no price to carry
        xs = [-1] + [max(0, x) for x in xs[1:]]
    return xs


@st.composite
def case(draw, lo=1, hi=70, **kw):
    rows = draw(trade_rows(lo, hi, sides=kw.pop("sides", (-1, 1)), amt_hi=draw(st.sampled_from([64, 640, 64000])), price_hi=draw(st.sampled_from([4, 40, 4000])), **kw))
    return {"rows": rows, "closes": draw(boundaries(len(rows))), "base": 1_700_000_000, "tick": draw(st.sampled_from([0.5, 0.25, 1.0])),
            "f64": draw(st.booleans())}


def inputs(c):
    ts, px, am, sd = arrays(c)
    return ts, px, (am.astype(np.float64) if c.get("f64") else am), sd


def check(c):
    from finmlkit.bar.base import comp_bar_ohlcv
    ts, px, am, sd = inputs(c)
    cl = np.array(c["closes"], dtype=np.int64)
    o, h, l, cs, v, vw, n, med = sut(comp_bar_ohlcv, px, am, cl)
    ref = np.array(ref_ohlcv(px, am, c["closes"]), dtype=np.float64).reshape(-1, 8)
    got = dict(zip(OHLCV, (o, h, l, cs, v, vw, n, med)))
    for k, name in enumerate(OHLCV):
        # volumes are reported in single precision
        cmp_float(name, got[name], ref[:, k], rtol={"volume": 2e-6, "vwap": 2e-6 if not c["f64"] else 1e-9}.get(name, 0), atol=0)
    # conservation and ordering laws, independent of the model
    busy = n > 0
    require(int(n.sum()) == c["closes"][-1] - c["closes"][0], "trade counts do not add up to the covered trades")
    covered = am[c["closes"][0] + 1:c["closes"][-1] + 1].astype(np.float64).sum()
    require(abs(v.astype(np.float64).sum() - covered) <= 1e-5 * (1 + covered), "volumes do not add up to the covered volume")
    require((l <= o).all() and (l <= cs).all() and (o <= h).all() and (cs <= h).all(), "low <= open, close <= high violated")
    eps = 1e-5 * h[busy]
    require((vw[busy] >= l[busy] - eps).all() and (vw[busy] <= h[busy] + eps).all(), "VWAP outside the bar's range")


def labels(c):
    d = np.diff(c["closes"])
    if (d == 0).any():
        yield "empty bar"
    if (d == 1).any():
        yield "single-trade bar"
    if (d >= 10).any():
        yield "bar of ten trades or more"
    if c["closes"][0] == -1:
        yield "first bar holds trade 0"
    yield "float64 amounts" if c["f64"] else "float32 amounts"


def nontriv(c):
    d = np.diff(c["closes"])
    return len(d) >= 2 and bool((d == 0).any() or (d == 1).any() or (d >= 10).any())


@st.composite
def bad(draw):
    return {"n": draw(st.integers(1, 6)), "m": draw(st.integers(1, 6)), "k": draw(st.integers(0, 1))}


def check_bad(c):
    from finmlkit.bar.base import comp_bar_ohlcv
    p, v = np.ones(c["n"]), np.ones(c["m"], dtype=np.float32)
    if c["n"] != c["m"]:
        expect_raises(ValueError, comp_bar_ohlcv, p, v, np.array([-1, 0], dtype=np.int64))
    else:
        expect_raises(ValueError, comp_bar_ohlcv, p, v, np.zeros(c["k"], dtype=np.int64))


# ------------------------------------------------------------------ through the kits: columns, index, view

@st.composite
def kit_case(draw):
    rows = draw(trade_rows(2, 50, sides=(-1, 1)))
    return {"rows": rows, "base": 1_700_000_000, "tick": 0.5, "kit": draw(st.sampled_from(["tick", "volume", "dollar", "time"])),
            "k": draw(st.integers(1, 5))}


def make_kit(c, td):
    import pandas as pd
    from finmlkit.bar.kit import DollarBarKit, TickBarKit, TimeBarKit, VolumeBarKit
    if c["kit"] == "tick":
        return TickBarKit(td, c["k"])
    if c["kit"] == "volume":
        return VolumeBarKit(td, c["k"] * 1.5)
    if c["kit"] == "dollar":
        return DollarBarKit(td, c["k"] * 5.0)
    return TimeBarKit(td, pd.Timedelta(minutes=c["k"] * 10))


def check_kit(c):
    ts, px, am, sd = arrays(c)
    kit = make_kit(c, make_td(ts, px, am, sd))
    ix = [int(x) for x in sut(lambda: kit.bar_close_indices)]
    if not ix:
        return
    first = 0
    if c["kit"] == "time":
        iv = c["k"] * 600 * 10 ** 9
        first = int(np.searchsorted(ts, ts[0] // iv * iv, side="right")) - 1
    df = sut(kit.build_ohlcv)
    ref = np.array(ref_ohlcv(px, am, [first] + ix), dtype=np.float64)
    require(sorted(df.columns) == sorted(OHLCV), lambda: f"columns {list(df.columns)}")
    cmp_exact("index", df.index.values.astype("datetime64[ns]").astype(np.int64), np.asarray(kit.bar_close_timestamps))
    for k, name in enumerate(OHLCV):
        cmp_float(f"column {name}", df[name].values, ref[:, k], rtol=2e-6 if name in ("volume", "vwap") else 0)


FACETS = [
    Facet("kernel", case(), check, quick=1600, thorough=50000, jit_quick=1500, jit_thorough=30000, classify=labels, nontrivial=nontriv),
    Facet("rejects", bad(), check_bad, quick=60, thorough=200, jit=False),
    Facet("kits", kit_case(), check_kit, quick=600, thorough=12000, jit_quick=300, jit_thorough=5000, classify=lambda c: [c["kit"]],
          nontrivial=lambda c: len(c["rows"]) > 4),
]
JIT_WORKERS = 3


def big(r, n, c):
    return {"rows": bulk_rows(r, n, hi=r.choice((4, 40, 4000))), "closes": bulk_closes(r, n), "base": 1_700_000_000, "tick": 0.5, "f64": r.random() < 0.5}


FACETS.append(bulk(FACETS[0], big, 160, 3000))
