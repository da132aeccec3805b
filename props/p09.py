"""P09 - CUSUM bars."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.bars import arrays, cusum_bars, make_td
from vlib.core import Facet, Skip, cmp_exact, require, sut
from vlib.gen import bulk, bulk_rows, trade_rows

PROPERTY = "P09"
RULE = "a case counts if at least two bars close, or sigma has a missing value, or several trades share a stamp"
ASSUMPTIONS = ["cases in which an accumulated log return comes within 1e-9 of a threshold are discarded (rounding decides them)",
               "at least one volatility value is present"]


@st.composite
def case(draw):
    rows = draw(trade_rows(2, 60, price_lo=80, price_hi=120, gap=st.sampled_from([0, 0, 1_000_000, 1_000_000, 1_000_000_000])))
    n = len(rows)
    const = draw(st.booleans())
    lvl = draw(st.sampled_from([0.003, 0.011, 0.023, 0.047]))
    if const:
        sig = [lvl] * n
    else:
        sig = [lvl * k / 8 for k in draw(st.lists(st.integers(1, 16), min_size=n, max_size=n))]
    for i in draw(st.lists(st.integers(0, n - 1), max_size=4)):
        sig[i] = None
    lead = draw(st.sampled_from([0, 0, 0, 1, 5]))
    for i in range(min(lead, n - 1)):
        sig[i] = None
    return {"rows": rows, "sigma": sig, "floor": draw(st.sampled_from([5e-4, 0.0123, 0.051])), "mult": draw(st.sampled_from([2.0, 1.0, 0.7, 3.1])),
            "base": 1_700_000_000, "tick": 0.5, "scalar": const and draw(st.booleans())}


def model(c):
    ts, px, am, sd = arrays(c)
    sig = [math.nan if s is None else s for s in c["sigma"]]
    if c["scalar"]:
        sig = [next(s for s in c["sigma"] if s is not None)] * len(sig) if any(s is not None for s in c["sigma"]) else sig
    return cusum_bars(ts.tolist(), px.tolist(), sig, c["floor"], c["mult"]), sig


def check(c):
    from finmlkit.bar.kit import CUSUMBarKit
    ts, px, am, sd = arrays(c)
    (exp, margin), sig = model(c)
    if exp is None or margin < 1e-9:
        raise Skip
    given = sig[0] if c["scalar"] else np.array(sig, dtype=np.float64)
    keep = None if c["scalar"] else given.copy()
    kit = CUSUMBarKit(make_td(ts, px, am, sd), given, sigma_floor=c["floor"], sigma_mult=c["mult"])
    cmp_exact("close indices", sut(lambda: kit.bar_close_indices), np.array(exp[1:], dtype=np.int64))
    cmp_exact("close stamps", sut(lambda: kit.bar_close_timestamps), ts[exp[1:]] if len(exp) > 1 else np.empty(0, np.int64))
    if keep is not None:
        require(np.array_equal(given, keep, equal_nan=True), "the caller's sigma array was modified")
    if len(exp) > 1:
        f, last = [], math.nan
        for s in sig:
            last = last if math.isnan(s) else s
            f.append(last)
        g = sut(kit.get_sigma)
        require(np.allclose(g, np.array(f)[exp[1:]], rtol=1e-12), "get_sigma is not the (forward filled) sigma at the closes")
        df = sut(kit.build_ohlcv)
        cmp_exact("trades", df["trades"].values, np.diff(exp))


def labels(c):
    (e, m), sig = model(c)
    if e is None:
        return
    yield f"{min(len(e) - 1, 3)} bars" + ("+" if len(e) > 3 else "")
    if any(math.isnan(s) for s in sig):
        yield "missing sigma"
    if e[0] > 0:
        yield "leading missing sigma"
    if any(r[0] == 0 for r in c["rows"][1:]):
        yield "shared stamps"
    if c["scalar"]:
        yield "scalar sigma"


def nontriv(c):
    (e, m), sig = model(c)
    return e is not None and (len(e) > 2 or any(math.isnan(s) for s in sig) or any(r[0] == 0 for r in c["rows"][1:]))


FACETS = [Facet("cusum", case(), check, quick=2000, thorough=60000, jit_quick=1000, jit_thorough=30000, classify=labels, nontrivial=nontriv)]


def big(r, n, c):
    sig = [r.choice((0.003, 0.011, 0.023)) * r.randint(1, 16) / 8 for _ in range(n)]
    for _ in range(r.choice((0, 3, n // 10))):
        sig[r.randrange(n)] = None
    for i in range(r.choice((0, 0, 1, n // 5))):
        sig[i] = None
    if all(x is None for x in sig):
        sig[0] = 0.011
    rows = bulk_rows(r, n, lo=80, hi=120)
    return {"rows": rows, "sigma": sig, "floor": r.choice((5e-4, 0.0123, 0.051)), "mult": r.choice((2.0, 1.0, 0.7)), "base": 1_700_000_000, "tick": 0.5, "scalar": False}


FACETS.append(bulk(FACETS[0], big, 150, 3000))
