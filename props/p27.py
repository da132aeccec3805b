"""P27 - Chu-Stinchcombe-White CUSUM statistics against the direct maximum over reference points."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, Violation, cmp_float, expect_raises, require, sut

PROPERTY = "P27"
RULE = "a case counts if at least one statistic has three admissible reference points or more and the prices are not constant"
ASSUMPTIONS = ["admissible reference points of observation t are the second observation of the sample up to two observations before t (as implemented; the sources differ in the end points)",
               "warm-up is two observations or more", "without price variation or reference points the statistic is reported as no departure (zero up to 1e-6) or NaN",
               "where several reference points tie, the critical value of any of them is accepted"]
B = 4.6


@st.composite
def case(draw):
    n = draw(st.integers(2, 45))
    kind = draw(st.sampled_from(["walk", "walk", "up", "down", "flat", "step"]))
    p, px = 500, []
    for i in range(n):
        d = {"walk": st.integers(-9, 9), "up": st.integers(0, 9), "down": st.integers(-9, 0), "flat": st.sampled_from([0, 0, 0, 0, 1]), "step": st.sampled_from([0, 0, 100, -100])}[kind]
        p = max(20, p + draw(d))
        px.append(p)
    return {"px": px, "scale": draw(st.sampled_from([1.0, 1.0, 2.0 ** -20, 1e6])), "warm": draw(st.integers(2, 8)), "win": draw(st.one_of(st.integers(2, 20), st.integers(3, 60))),
            "fn": draw(st.sampled_from(["rolling", "rolling", "developing", "last"]))}


def stat(y):
    """statistics of the last observation of the sample y (log prices): (up, down, reference candidates)"""
    t = len(y) - 1
    s2 = sum((b - a) ** 2 for a, b in zip(y, y[1:])) / (t - 1)
    sd = math.sqrt(s2)
    if sd <= 0:
        return None
    v = [((y[t] - y[n]) / (sd * math.sqrt(t - n)), math.sqrt(B + math.log(t - n))) for n in range(1, t - 1)]
    return v or None


def verify(i, got, y):
    v = stat(y) if len(y) > 2 else None
    for name, sign, g, cv in (("up", 1, got[0], got[2]), ("down", -1, got[1], got[3])):
        if v is None:
            require(math.isnan(g) or -1e-5 <= g <= 1e-12, lambda: f"{name} statistic {g} at {i} although there is no variation or no reference point")
            continue
        m = max(max(0.0, sign * s) for s, _ in v)
        if abs(g - m) > 1e-6 * (1 + m):
            raise Violation(f"{name} statistic at {i} is {g}, the maximum over reference points is {m}")
        cand = [c for s, c in v if max(0.0, sign * s) >= m - 1e-7 * (1 + m)]
        require(any(abs(cv - c) <= 1e-9 for c in cand), lambda: f"{name} critical value at {i} is {cv}, the maximising reference point has {cand}")


def check(c):
    from finmlkit.feature.core.structural_break import cusum as M
    px = np.array(c["px"], dtype=np.float64) * c["scale"]
    keep = px.copy()
    y = [math.log(p) for p in c["px"]]                     # scaling cancels in log differences
    n, warm = len(px), c["warm"]
    if c["fn"] == "last":
        if n < 3:
            return
        verify(n - 1, [float(x) for x in sut(M.cusum_test_last, px)], y)
    else:
        if c["fn"] == "developing":
            out = sut(M.cusum_test_developing, px, warm)
            win = 10 ** 9
        else:
            out = sut(M.cusum_test_rolling, px, c["win"], warm)
            win = max(c["win"], warm + 2)
        require(len(out) == 4 and all(len(o) == n for o in out), "four arrays of the input's length expected")
        for i in range(n):
            g = [float(o[i]) for o in out]
            if i < warm:
                require(all(math.isnan(x) for x in g), lambda: f"value {g} at {i}, inside the warm-up of {warm}")
            else:
                verify(i, g, y[max(0, i - win):i + 1])
    require(np.array_equal(px, keep), "the prices were changed")


def check_window(c):
    """observations outside the window are irrelevant"""
    from finmlkit.feature.core.structural_break.cusum import cusum_test_rolling
    win = max(c["win"], c["warm"] + 2)
    px = np.array(c["px"], dtype=np.float64)
    n = len(px)
    if n < win + 2:
        return
    base = sut(cusum_test_rolling, px, c["win"], c["warm"])
    i = n - 1
    q = px.copy()
    q[:i - win] *= 7.0
    mod = sut(cusum_test_rolling, q, c["win"], c["warm"])
    cmp_float("statistics after changing prices before the window", [float(o[i]) for o in mod], [float(o[i]) for o in base], rtol=0, atol=0)
    q = px.copy()
    q[-1] *= 3
    mod = sut(cusum_test_rolling, q, c["win"], c["warm"])
    for a, b in zip(mod, base):
        cmp_float("statistics after changing the last price", np.asarray(a)[:-1], np.asarray(b)[:-1], rtol=0, atol=0)


def check_reject(c):
    from finmlkit.feature.core.structural_break.cusum import cusum_test_rolling
    px = np.array([5.0] * c["n"])
    px[c["k"] % c["n"]] = c["v"]
    expect_raises(ValueError, cusum_test_rolling, px, 5, 2)


def nontrivial(c):
    return len(set(c["px"])) > 1 and len(c["px"]) > max(c["warm"], 5)


FACETS = [
    Facet("maximum", case(), check, quick=1600, thorough=40000, nontrivial=nontrivial,
          classify=lambda c: [c["fn"], "constant" if len(set(c["px"])) == 1 else "moving", "window-shorter-than-data" if c["win"] < len(c["px"]) else "window-longer"]),
    Facet("window", case(), check_window, quick=500, thorough=8000, nontrivial=nontrivial),
    Facet("rejects", st.fixed_dictionaries({"n": st.integers(1, 9), "k": st.integers(0, 8), "v": st.sampled_from([0.0, -1.0])}), check_reject, quick=20, thorough=40),
]
JIT_WORKERS = 2
