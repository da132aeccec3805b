"""P07 - time bars partition the trades on an exact regular clock."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.bars import arrays, close_indices, make_td, time_clock
from vlib.core import Facet, Skip, cmp_exact, require, sut
from vlib.gen import DAY, MIN, NS, bulk

PROPERTY = "P07"
RULE = "a case counts if it has at least two bars and at least one bar is empty, or a trade lies on or within 1 us / 1 ms of a bar boundary"
ASSUMPTIONS = ["trades are in time order; at least one trade lies after the first clock stamp",
               "one further, still empty bar after the last trade is accepted"]
INTERVALS = {"1us": 1000, "333us": 333_000, "1234567us": 1_234_567_000, "10ms": 10 ** 7, "250ms": 25 * 10 ** 7, "100ms": 10 ** 8, "1s": NS["s"], "7s": 7 * NS["s"], "1min": MIN, "90s": 90 * NS["s"], "5min": 5 * MIN,
             "1h": 60 * MIN, "1D": DAY}


@st.composite
def case(draw):
    name = draw(st.sampled_from(list(INTERVALS)))
    i = INTERVALS[name]
    base = draw(st.sampled_from([0, 0, 1, 1_000, 1_609_459_200, 1_700_000_123, 1_709_164_799]))
    fine = draw(st.sampled_from([1_000_000, 1000, 1, 1]))
    # trades are placed by (bar number, position in bar) so that boundary hits are frequent
    n = draw(st.integers(1, 30))
    pts = []
    for _ in range(n):
        k = draw(st.one_of(st.integers(0, 6), st.integers(0, 40)))
        off = draw(st.one_of(st.sampled_from([0, 0, 1, -1, 2]), st.integers(0, 10 ** 6)))
        pts.append(max(0, k * i + (off * fine if abs(off) <= 2 else off * max(1, i // 10 ** 6) % i)))
    if fine > 1:
        pts = [p // fine * fine for p in pts]
    pts.sort()
    return {"interval": name, "base": base, "pts": pts, "px": draw(st.lists(st.integers(1, 9), min_size=n, max_size=n))}


def check(c):
    from finmlkit.bar.kit import TimeBarKit
    iv = INTERVALS[c["interval"]]
    ts = np.array([c["base"] * NS["s"] + p for p in c["pts"]], dtype=np.int64)
    px = np.array([float(x) for x in c["px"]])
    clock = time_clock(ts, iv)
    if len(clock) < 2:
        raise Skip("no trade after the first clock stamp")
    kit = TimeBarKit(make_td(ts, px, np.ones(len(ts), dtype=np.float32)), pd.Timedelta(iv, unit="ns"))
    got_ts = [int(x) for x in sut(lambda: kit.bar_close_timestamps)]
    got_ix = [int(x) for x in sut(lambda: kit.bar_close_indices)]
    require(len(got_ts) == len(got_ix), "stamps and indices differ in length")

    exp = clock[1:]
    # one trailing (still empty) bar is tolerated, anything else is not
    require(got_ts == exp or got_ts == exp + [exp[-1] + iv],
            lambda: f"clock stamps {got_ts[:6]}..{got_ts[-2:]} ({len(got_ts)}), expected {exp[:6]}..{exp[-2:]} ({len(exp)})")
    ix = close_indices(ts, got_ts)
    require(got_ix == ix, lambda: f"close indices {got_ix[:30]}, expected {ix[:30]}")
    df = sut(kit.build_ohlcv)
    cmp_exact("bar index", df.index.values.astype("datetime64[ns]").astype(np.int64), np.array(got_ts))
    first = close_indices(ts, clock[:1])[0]
    cnt = np.diff([first] + ix)
    cmp_exact("trades per bar", df["trades"].values, cnt)
    require(int(df["trades"].sum()) == sum(int(t) > clock[0] for t in ts), "bars do not cover every trade after the first stamp exactly once")


def labels(c):
    iv = INTERVALS[c["interval"]]
    ts = [c["base"] * NS["s"] + p for p in c["pts"]]
    if any(t % iv == 0 for t in ts):
        yield "trade on a boundary"
    if any(0 < t % iv <= 1000 or iv - t % iv <= 1000 for t in ts):
        yield "trade within 1 us of a boundary"
    elif any(0 < t % iv <= 10 ** 6 or iv - t % iv <= 10 ** 6 for t in ts):
        yield "trade within 1 ms of a boundary"
    k = {-(-t // iv) for t in ts}
    if len(k) < max(k) - min(k) + 1:
        yield "empty bar"
    yield "epoch now" if c["base"] > 10 ** 6 else "epoch 1970"
    yield c["interval"]


def nontriv(c):
    iv = INTERVALS[c["interval"]]
    ts = [c["base"] * NS["s"] + p for p in c["pts"]]
    return ts[-1] - ts[0] > iv and any("boundary" in x or x == "empty bar" for x in labels(c))


WITNESS = {"interval": "250ms", "base": 1_700_000_123, "pts": [0, 250_000_000, 500_000_000, 750_000_000], "px": [1, 2, 3, 4]}
FACETS = [Facet("clock", case(), check, quick=2000, thorough=60000, classify=labels, nontrivial=nontriv,
                examples=[WITNESS])]


def big(r, n, c):
    name = r.choice([k for k, v in INTERVALS.items() if v >= 10 ** 9])
    i, t, pts = INTERVALS[name], 0, []
    grid = r.choice((1, 1000))
    for _ in range(n):
        t += r.choice((0, 0, r.randint(0, i // 10 ** 6) * 10 ** 5, r.choice((1, 2, 3)) * i, r.randint(0, i // 10 ** 3)))
        if r.random() < 0.2:
            t = t // i * i + r.choice((0, 0, 1000, i - 1000, 1, i - 1))
        pts.append(t // grid * grid)
    pts.sort()
    return {"interval": name, "base": r.choice((0, 1_609_459_200, 1_700_000_123)), "pts": pts, "px": [r.randint(1, 9) for _ in range(n)]}


FACETS.append(bulk(FACETS[0], big, 100, 2000))
