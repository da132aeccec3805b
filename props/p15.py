"""P15 - tick size and trade side inference."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, Skip, cmp_exact, expect_raises, require, sut
from vlib.gen import bulk

PROPERTY = "P15"
RULE = "a case counts if at least three distinct prices occur"
ASSUMPTIONS = ["prices are decimal literals on the grid (mantissa x 10**-d correctly rounded), at most 10**9 grid steps, within 15 significant digits, at most 10 decimals",
               "the leading digit of the smallest price difference is at most three decimal places above the last decimal place of the prices"]
MANT = [1, 1, 1, 2, 5, 25, 125, 3, 10]


@st.composite
def grid(draw):
    d = draw(st.integers(0, 8))
    m = draw(st.sampled_from(MANT))
    lo = draw(st.sampled_from([1, 1, 50, 1000, 40_000]))
    n = draw(st.integers(2, 40))
    ks = draw(st.lists(st.one_of(st.integers(lo, lo + 8), st.integers(lo, lo + 300), st.sampled_from([lo, lo + 3, lo + 6, lo + 10])), min_size=n, max_size=n))
    mult = draw(st.sampled_from([1, 1, 1, 2, 3, 7]))
    return {"d": d, "m": m, "ks": [k * mult for k in ks]}


def check_tick(c):
    from finmlkit.bar.utils import comp_price_tick_size
    px = np.array([float(f"{k * c['m']}e-{c['d']}") for k in c["ks"]])
    u = sorted(set(c["ks"]))
    got = float(sut(comp_price_tick_size, px))
    if len(u) == 1:
        require(got == 0.0, lambda: f"constant prices give tick {got}")
        return
    steps = [(b - a) * c["m"] for a, b in zip(u, u[1:])]
    if (10 ** (len(str(min(steps))) - 1 - 3)) > 1 and any(k * c["m"] % 10 ** (len(str(min(steps))) - 1 - 3) for k in u):
        raise Skip
    g = math.gcd(*steps)
    exp = float(f"{g}e-{c['d']}")
    require(abs(got - exp) <= 1e-6 * exp, lambda: f"tick size {got!r}, expected {exp!r}")
    k = (px - px[0]) / got
    require(np.all(np.abs(k - np.round(k)) < 1e-3), "prices are not whole numbers of ticks apart")
    require(abs(float(sut(comp_price_tick_size, px[::-1].copy())) - got) <= 1e-9 * got, "tick size depends on the order of prices")


@st.composite
def walk(draw):
    n = draw(st.integers(1, 60))
    p, out = draw(st.integers(1, 30)), []
    for _ in range(n):
        out.append(p)
        p = max(1, p + draw(st.sampled_from([0, 0, 0, 1, -1, 4, -4])))
    return {"ks": out, "tick": draw(st.sampled_from([1.0, 0.5, 0.01, 1e-8, 1e-5])), "dtype": draw(st.sampled_from(["f8", "f8", "f4"]))}


def check_side(c):
    from finmlkit.bar.utils import comp_trade_side_vector
    if c["dtype"] == "f4" and c["tick"] < 0.01:
        c = dict(c, dtype="f8")
    px = np.array([k * c["tick"] for k in c["ks"]], dtype=c["dtype"])
    e, s = [], 0
    for i, k in enumerate(c["ks"]):
        if i:
            s = (k > c["ks"][i - 1]) - (k < c["ks"][i - 1]) or s
        e.append(s)
    cmp_exact("side", np.asarray(sut(comp_trade_side_vector, px)).astype(int), e)


@st.composite
def empty(draw):
    return {"n": 0, "x": draw(st.integers(0, 1))}


def check_empty(c):
    from finmlkit.bar.utils import comp_price_tick_size
    expect_raises(ValueError, comp_price_tick_size, np.empty(0))
    require(float(comp_price_tick_size(np.array([3.5]))) == 0.0, "single price must give tick 0")


def labels(c):
    u = sorted(set(c["ks"]))
    if len(u) > 1:
        d = [b - a for a, b in zip(u, u[1:])]
        g = math.gcd(*d)
        yield "gcd smaller than smallest step" if g < min(d) else "gcd is the smallest step"
        yield f"grid mantissa {c['m'] * g if c['m'] * g < 30 else 'other'}"
    else:
        yield "constant"


FACETS = [
    Facet("tick", grid(), check_tick, quick=3000, thorough=100000, jit_quick=2500, jit_thorough=60000, classify=labels, nontrivial=lambda c: len(set(c["ks"])) > 2),
    Facet("side", walk(), check_side, quick=2000, thorough=60000, jit_quick=2000, jit_thorough=40000, nontrivial=lambda c: len(set(c["ks"])) > 2,
          classify=lambda c: [c["dtype"], "unchanged leading price" if len(c["ks"]) > 1 and c["ks"][0] == c["ks"][1] else "first price changes"]),
    Facet("edge", empty(), check_empty, quick=2, thorough=2),
]


def big_grid(r, n, c):
    lo, span, mult = r.choice((1, 1000, 40_000)), r.choice((50, 1000, 10_000)), r.choice((2, 3, 7, 1))
    ks = [mult * (lo + r.randint(0, span)) for _ in range(n)]
    if r.random() < 0.7:                                   # one single price realises the finest step
        ks[r.randrange(n)] += r.randint(0, mult)
    return {"d": r.randint(0, 6), "m": r.choice(MANT), "ks": ks}


def big_side(r, n, c):
    p, out = 500, []
    for _ in range(n):
        p = max(1, p + r.choice((0, 0, 0, 1, -1, 4, -4)))
        out.append(p)
    return {"ks": out, "tick": r.choice((1.0, 0.5, 0.01, 1e-5)), "dtype": "f8"}


FACETS.append(bulk(FACETS[0], big_grid, 200, 4000))
FACETS.append(bulk(FACETS[1], big_side, 100, 1500))
