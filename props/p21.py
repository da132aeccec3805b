"""P21 - the symmetric CUSUM event filter."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, Skip, cmp_exact, expect_raises, require, sut
from vlib.gen import bulk
from vlib.kern import log

PROPERTY = "P21"
RULE = "a case counts if at least two events are sampled"
ASSUMPTIONS = ["prices are positive", "an event needs the accumulation to exceed the threshold; only the side that triggered restarts (downward side is tested first)",
               "cases in which a decision is within 1e-11 of its threshold without being exact by construction are discarded"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["walk", "walk", "exact", "jump"]))
    n = draw(st.integers(2, 60))
    if kind == "exact":                                   # prices 1, 2, 4: log returns are exact multiples of log 2, thresholds can be met exactly
        px = draw(st.lists(st.sampled_from([1, 2, 4]), min_size=n, max_size=n))
        thr = st.sampled_from([["log2", 0], ["log2", 1], ["log2", 2], ["x", 0.5], ["x", 0.1]])
    else:
        p, px = 400, []
        for _ in range(n):
            p = min(max(p + draw(st.integers(-6, 6) if kind == "walk" else st.sampled_from([0, 1, -1, 90, -80])), 20), 4000)
            px.append(p)
        thr = st.sampled_from([["x", 0.003], ["x", 0.01], ["x", 0.02], ["x", 0.1], ["x", 1e-4]])
    const = draw(st.booleans())
    return {"px": px, "thr": [draw(thr)] if const else draw(st.lists(thr, min_size=n, max_size=n)), "exact": kind == "exact"}


def inputs(c):
    l2 = float(log(np.array([2.0]))[0])
    return np.array(c["px"], dtype=np.float64), np.array([l2 * v if k == "log2" else v for k, v in c["thr"]])


def ref(c, until=None, check_margin=True):
    px, thr = inputs(c)
    n = len(px) if until is None else until
    if len(thr) == 1:
        thr = np.repeat(thr, len(px))
    lr = log(px[1:] / px[:-1])
    up = dn = 0.0
    out = []
    for i in range(1, n):
        r = float(lr[i - 1])
        up, dn = max(0.0, up + r), min(0.0, dn + r)
        for s in (up, -dn):
            if check_margin and abs(s - thr[i]) < 1e-11 and not c["exact"]:
                raise Skip("decision within rounding of the threshold")
        if -dn > thr[i]:
            dn = 0.0
            out.append(i)
        elif up > thr[i]:
            up = 0.0
            out.append(i)
    return out


def check(c):
    from finmlkit.sampling.filters import cusum_filter
    px, thr = inputs(c)
    k1, k2 = px.copy(), thr.copy()
    exp = ref(c)
    got = sut(cusum_filter, px, thr)
    cmp_exact("events", got, exp)
    require(np.array_equal(px, k1) and np.array_equal(thr, k2), "the inputs were changed")
    # past prices only: the events of a prefix are the prefix of the events
    m = 2 + len(px) // 2
    if m <= len(px):
        cmp_exact("events of a prefix", sut(cusum_filter, px[:m].copy(), thr if len(thr) == 1 else thr[:m].copy()), [e for e in exp if e < m])
    # log returns do not depend on the price unit (powers of two keep the arithmetic exact; so do differences of the logs of 1/4, 1/2 and 1)
    cmp_exact("events with prices in another unit", sut(cusum_filter, px * (0.25 if c["exact"] else 1024.0), thr), exp)
    if len(thr) == 1:
        cmp_exact("events with the threshold given per observation", sut(cusum_filter, px, np.repeat(thr, len(px))), exp)


def check_reject(c):
    from finmlkit.sampling.filters import cusum_filter
    n = c["n"]
    if n < 2:
        expect_raises(ValueError, cusum_filter, np.ones(n), np.array([0.1]))
    else:
        m = n + c["d"]
        if m != 1:
            expect_raises(ValueError, cusum_filter, np.ones(n), np.full(max(m, 0), 0.1))


def count(c):
    return len(ref(c, check_margin=False))


FACETS = [
    Facet("events", case(), check, quick=3000, thorough=80000, nontrivial=lambda c: count(c) > 1,
          classify=lambda c: [f"events:{min(count(c), 5)}", "constant-threshold" if len(c["thr"]) == 1 else "threshold-series", "exact" if c["exact"] else "general"]),
    Facet("rejects", st.fixed_dictionaries({"n": st.integers(0, 6), "d": st.sampled_from([-2, -1, 1, 2])}), check_reject, quick=30, thorough=60),
]
JIT_WORKERS = 1


def big(r, n, c):
    p, px = 400, []
    for _ in range(n):
        p = min(max(p + r.choice((0, 1, -1, 3, -4, 6, -6)), 20), 4000)
        px.append(p)
    t = lambda: ["x", r.choice((0.003, 0.0107, 0.0213, 0.0517))]  # noqa: E731
    return {"px": px, "thr": [t()] if r.random() < 0.5 else [t() for _ in range(n)], "exact": False}


FACETS.append(bulk(FACETS[0], big, 150, 3000))
