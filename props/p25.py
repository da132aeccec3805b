"""P25 - volume, flow and correlation indicators against their definitions on every window."""
import numpy as np
from hypothesis import strategies as st

from vlib import feat, featprop
from vlib.core import Facet, Violation

NAN = float("nan")

PROPERTY = "P25"
RULE = featprop.RULE
ASSUMPTIONS = ["volumes are non-negative multiples of 1/64 (sums are exact); prices are positive",
               "an empty VWAP window keeps the last distance (documented); flow acceleration carries its documented 1e-12 offset; VPIN is reported in single precision",
               "correlations of windows without variation beyond rounding are not compared"]


def monotone(case, i, w):
    """the implementation replaces the correlation where the last w-1 price steps are all up and volume is strictly monotone (known finding)"""
    ts, c = feat.columns(case["t"])
    x, v = c["close"][i - w + 1:i + 1], c["volume"][i - w + 1:i + 1]
    return bool((np.diff(x) > 0).all() and ((np.diff(v) > 0).all() or (np.diff(v) < 0).all()))


def check_corr(spec, case):
    """positions the hard-coded special case may touch are judged in their own facet, all others here"""
    t, p = case["t"], case["p"]
    df = feat.frame(t)
    ts, c = feat.columns(t)
    exp = spec.ref(ts, c, p)[0]
    w = p["window"]
    for be in ("nb", "pd"):
        _, res, names = featprop.evaluate(spec, p, df, be)
        if be == "nb":
            e = [feat.ANY if 4 <= i < 10 and i >= w and monotone(case, i, w) else v for i, v in enumerate(exp)]
        else:
            x, v = df["close"], df["volume"]
            hack = w == 4 and len(df) >= 10 and x.is_monotonic_increasing and (v.is_monotonic_increasing or v.is_monotonic_decreasing)
            e = [feat.ANY if hack and i >= w else v for i, v in enumerate(exp)]
        feat.compare(f"{names[0]} ({be}, {p})", res[0].to_numpy(), e, 1e-8, 1e-9)
        g = np.array([NAN if q is feat.ANY and be == "pd" else v for v, q in zip(res[0].to_numpy(), exp)])
        if np.nanmax(np.abs(g), initial=0) > 1 + 1e-9:
            raise Violation(f"correlation outside [-1, 1] ({be})")


def check_corr_special(c):
    spec, p = feat.SPECS["PriceVolumeCorrelation"], c["p"]
    ts, cols = feat.columns(c["t"])
    exp = spec.ref(ts, cols, p)[0]
    w = p["window"]
    _, res, _ = featprop.evaluate(spec, p, feat.frame(c["t"]), c["be"])
    g = res[0].to_numpy()
    for i, e in enumerate(exp):
        if isinstance(e, feat.Close) and not abs(g[i] - e.v) <= e.tol:
            if c["be"] == "nb" and 4 <= i < 10 and i >= w and monotone(c, i, w) and abs(g[i]) == 1.0:
                raise Violation(f"hard-coded correlation {g[i]} at position {i} of a strictly monotone window, definition gives {e.v}")
            x, v = cols["close"], cols["volume"]
            if (c["be"] == "pd" and w == 4 and len(g) >= 10 and i >= w and (np.diff(x) >= 0).all() and ((np.diff(v) >= 0).all() or (np.diff(v) <= 0).all()) and abs(g[i]) == 1.0):
                raise Violation(f"hard-coded correlation {g[i]} at position {i} of a monotone table, definition gives {e.v}")
            raise Violation(f"correlation at {i} is {g[i]}, expected {e.v}")


@st.composite
def mono(draw):
    n = draw(st.integers(5, 14))
    up = draw(st.booleans())
    v, rows = 3200, []
    for _ in range(n):
        v += draw(st.integers(1, 100)) * (1 if up else -1)
        rows.append([60 * 10 ** 9, 0, draw(st.integers(1, 9)), 0, 0, v, 0, 0, 0])
    return {"t": {"rows": rows, "tick": 0.125, "base": 400, "start": feat.STARTS[0]}, "p": {"window": draw(st.integers(3, 6))}, "be": draw(st.sampled_from(["nb", "pd"]))}


KNOWN = {"P25-corr-special-case": lambda facet, case, msg: facet == "monotone_correlation" and msg.startswith("hard-coded correlation")}
FACETS = featprop.facets("P25", special={"PriceVolumeCorrelation": check_corr}, holes={"VPIN": [3, 4]}, quick=600, thorough=15000, bulk_quick=60, bulk_thorough=1500)
wrows = [[60 * 10 ** 9, 0, d, 0, 0, v, 0, 0, 0] for d, v in zip((1, 9, 2, 8, 1, 7, 3, 5), (64, 70, 200, 210, 900, 901, 950, 2000))]
FACETS.append(Facet("monotone_correlation", mono(), check_corr_special, quick=80, thorough=300, jit=False,
                    examples=[{"t": {"rows": wrows, "tick": 0.125, "base": 400, "start": feat.STARTS[0]}, "p": {"window": 4}, "be": "nb"}]))
JIT_WORKERS = 4
NOJIT_WORKERS = 4
