"""P24 - momentum, trend, range and return indicators against their definitions on every window."""
from hypothesis import strategies as st

from vlib import feat, featprop
from vlib.core import Facet, Violation

PROPERTY = "P24"
RULE = featprop.RULE
ASSUMPTIONS = ["prices are positive and finite; stamps increase; windows without variation beyond rounding are not compared",
               "RSI of a window without losses is 100; the stochastic of a window without range, the z-score and kurtosis of a window without variation are NaN; ADX is 0 before it is defined (as implemented)",
               "the scale of the variance ratio is judged in a facet of its own (known finding P24-variance-ratio-scale)"]


def check_vr(spec, case):
    """the documented ratio up to the constant judged by variance_ratio_scale: everything else about it must be right"""
    import numpy as np
    t, p = case["t"], case["p"]
    ts, c = feat.columns(t)
    exp = spec.ref(ts, c, p)[0]
    _, res, names = featprop.evaluate(spec, p, feat.frame(t), "nb")
    errs = []
    for k in (1, 4):
        try:
            feat.compare(f"{names[0]} ({p})", res[0].to_numpy(), [e if e is feat.ANY else feat.Close(e.v * k, e.tol * k) if isinstance(e, feat.Close) else e for e in exp], 1e-8, 1e-9)
            return
        except Violation as e:
            errs.append(e)
    raise errs[0]


def check_vr_scale(c):
    import math
    spec = feat.SPECS["VarianceRatio14"]
    t, p = c["t"], c["p"]
    ts, cols = feat.columns(t)
    exp = spec.ref(ts, cols, p)[0]
    _, res, names = featprop.evaluate(spec, p, feat.frame(t), "nb")
    g = res[0].to_numpy()
    k = [i for i, e in enumerate(exp) if isinstance(e, feat.Close)]
    if k and all(abs(g[i] - 4 * exp[i].v) <= 4 * exp[i].tol for i in k):
        raise Violation("the variance ratio is 4 times var(1-bar return) / var(4-bar return) on every window")
    feat.compare(names[0], g, exp, 1e-8, 1e-9)


KNOWN = {"P24-variance-ratio-scale": lambda facet, case, msg: facet == "variance_ratio_scale" and msg.startswith("the variance ratio is 4 times")}

FACETS = featprop.facets("P24", special={"VarianceRatio14": check_vr}, bulk_quick=15)
rows = [[60 * 10 ** 9, 0, d, 1, 1, 64, 32, 2, 0] for d in (3, -2, 5, 1, -4, 2, 2, -7, 3, 1, -1, 4)]
FACETS.append(Facet("variance_ratio_scale", st.fixed_dictionaries({"t": feat.tables(8, 30, kinds=("walk",)), "p": feat.SPECS["VarianceRatio14"].strategy()}), check_vr_scale, quick=40, thorough=200,
                    nojit=True, jit=False, nontrivial=lambda c: featprop.informative(feat.SPECS["VarianceRatio14"], c),
                    examples=[{"t": {"rows": rows, "tick": 0.125, "base": 400, "start": feat.STARTS[0]}, "p": {"window": 4, "col": "close", "ret_type": "log", "ddof": 0}}]))


@st.composite
def zero_prices(draw):
    n = draw(st.integers(2, 12))
    return {"gap": draw(st.lists(st.sampled_from([1, 10 ** 9, 10 ** 9, 3 * 10 ** 9]), min_size=n, max_size=n)), "px": draw(st.lists(st.sampled_from([0, 0, 1, 2, 3]), min_size=n, max_size=n)),
            "win": draw(st.sampled_from([1e-9, 1.0, 2.0])), "log": draw(st.booleans())}


def check_zero(c):
    """documented: a return over a base of zero is infinite, one without a base is NaN"""
    import bisect
    import math

    import numpy as np
    from finmlkit.feature.core.utils import comp_lagged_returns
    from vlib.core import require, sut
    ts = (1_700_000_000_000_000_000 + np.cumsum(c["gap"])).astype(np.int64)
    px = np.array(c["px"], dtype=np.float64)
    got = sut(comp_lagged_returns, ts, px, c["win"], c["log"]).tolist()
    t = ts.tolist()
    for i, g in enumerate(got):
        j = bisect.bisect_right(t, t[i] - round(c["win"] * 1e9)) - 1
        b = c["px"][j] if j >= 0 else None
        e = math.nan if b is None else math.inf if b == 0 else c["px"][i] / b - 1 if not c["log"] else math.log(c["px"][i] / b) if c["px"][i] else -math.inf
        require(g == e or (g != g and e != e) or abs(g - e) < 1e-12, lambda: f"return {i} is {g}, expected {e}")


FACETS.append(Facet("zero_price", zero_prices(), check_zero, quick=40, thorough=400, nontrivial=lambda c: 0 in c["px"][:-1]))
JIT_WORKERS = 6
NOJIT_WORKERS = 6
