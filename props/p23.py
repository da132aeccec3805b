"""P23 - moving averages and volatility estimators against their definitions on every window."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import feat, featprop
from vlib.core import Facet, Violation, require, sut
from vlib.gen import bulk

PROPERTY = "P23"
RULE = featprop.RULE
ASSUMPTIONS = ["values are finite or NaN (the documented missing value); prices are positive; stamps increase",
               "estimators computed from weighted sums are compared up to the rounding of those sums (absolute error ~1e-14 times the mean square); windows without variation beyond rounding are not compared",
               "an entry with a missing value in its window is NaN for windowed averages and Bollinger positions, skipped by exponential weights, realised volatility and ATR (as documented)",
               "Bollinger and normalised outputs are compared to 1e-6 relative"]
FACETS = featprop.facets("P23", holes={"ATR": [0, 1, 2], "SMA": [1, 5], "BollingerPercentB": [1, 5], "EWMA": [1]})


# ---- kernels without a transform of their own
@st.composite
def series(draw):
    return {"t": draw(feat.tables(1, 40)), "p": {"span": draw(st.integers(2, 40)), "half_life": draw(feat.SECS), "col": draw(st.sampled_from(["ret", "y", "x", "close"]))},
            "holes": draw(st.lists(st.tuples(st.integers(0, 30), st.integers(0, 2)).map(list), max_size=3))}


def kernel(name):
    def check(c):
        import finmlkit.feature.core.volatility as V
        t = {**c["t"], "holes": c.get("holes", [])}
        ts, cols = feat.columns(t)
        p = c["p"]
        if name == "ewms":
            got, exp = sut(V.ewms, cols[p["col"]], p["span"]), feat.r_ewms(ts, cols, p)[0]
        elif name == "ewmst_mean0":
            got, exp = sut(V.ewmst_mean0, ts, cols[p["col"]], p["half_life"]), feat.r_ewmst_mean0(ts, cols, p)[0]
        else:
            got, exp = sut(V.true_range, cols["high"], cols["low"], cols["close"]), feat.r_true_range(ts, cols, p)[0]
        feat.compare(f"{name} {p}", got, exp, 1e-9, 1e-9)
    return check


def single(c):
    """a single observation has no spread: the floor or NaN, never a rounding residue"""
    from finmlkit.feature.core.volatility import ewms, ewmst
    ts = np.array([0, c["dt"]], dtype=np.int64)
    v = c["v"] / c["d"]
    g = float(sut(ewmst, ts, np.array([np.nan, v]), c["hl"])[1])
    require(math.isnan(g) or g <= 1e-9, lambda: f"time-decayed volatility of one observation is {g}")
    y = np.array([np.nan] * c["lead"] + [v] + [np.nan] * c["trail"])
    g = sut(ewms, y, c["span"])
    require(np.isnan(g).all() or np.nanmax(g) <= 1e-9, lambda: f"exponential deviation of one observation is {g}")


FACETS += [Facet(k, series(), kernel(k), quick=300, thorough=8000, nontrivial=lambda c: len(c["t"]["rows"]) > 4) for k in ("ewms", "ewmst_mean0", "true_range")]
FACETS.append(Facet("single_observation", st.fixed_dictionaries({"dt": st.integers(1, 10 ** 12), "v": st.integers(-10 ** 6, 10 ** 6), "d": st.integers(1, 999), "hl": feat.SECS,
                                                                   "lead": st.integers(0, 4), "trail": st.integers(0, 6), "span": st.integers(2, 50)}), single, quick=300, thorough=5000))
JIT_WORKERS = 6
NOJIT_WORKERS = 4
