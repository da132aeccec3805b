"""P37 - helpers over trade arrays: sorting, order check, middle of three."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, require, sut
from vlib.gen import bulk

PROPERTY = "P37"
RULE = "sort: at least two trades out of time order; order: at least three stamps; middle: three distinct numbers"
ASSUMPTIONS = ["the order of trades with equal stamps is not specified by the sort", "the numbers of the middle-of-three filter are not NaN"]
BASES = [0, 1_700_000_000_000_000_000, 9_007_199_254_740_992]           # beyond 2**53 neighbouring stamps are not distinct as floats


@st.composite
def trades(draw):
    n = draw(st.integers(1, 30))
    d = draw(st.sampled_from([st.integers(0, 3), st.integers(0, 10 ** 6), st.integers(-5, 40)]))
    return {"base": draw(st.sampled_from(BASES)), "t": draw(st.lists(d, min_size=n, max_size=n)), "px": draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)),
            "am": draw(st.lists(st.integers(1, 640), min_size=n, max_size=n)), "mk": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "with_side": draw(st.booleans())}


def check_sort(c):
    from finmlkit.bar.utils import fast_sort_trades
    ts = np.array([c["base"] + x for x in c["t"]], dtype=np.int64)
    px, am, mk = np.array(c["px"], dtype=np.float64) / 8, (np.array(c["am"]) / 64).astype(np.float32), np.array(c["mk"], dtype=bool)
    keep = [a.copy() for a in (ts, px, am, mk)]
    out = sut(fast_sort_trades, ts, px, am, mk if c["with_side"] else None)
    require(len(out) == 4, lambda: f"{len(out)} results")
    require((out[3] is None) == (not c["with_side"]), "a side is returned exactly if one is given")
    ins = [ts, px, am] + ([mk] if c["with_side"] else [])
    outs = list(out[: len(ins)])
    require(all(len(o) == len(ts) for o in outs), lambda: f"lengths {[len(o) for o in outs]}, {len(ts)} trades")
    require([int(x) for x in outs[0]] == sorted(int(x) for x in ts), lambda: f"stamps {outs[0].tolist()} are not those of {ts.tolist()} in order")
    a, b = Counter(zip(*(o.tolist() for o in outs))), Counter(zip(*(i.tolist() for i in ins)))
    require(a == b, lambda: f"trades appearing only after sorting {list((a - b).items())[:4]}, only before {list((b - a).items())[:4]}")
    require(all(np.array_equal(x, y) for x, y in zip((ts, px, am, mk), keep)), "the input arrays were changed")


@st.composite
def stamps(draw):
    t, out = draw(st.sampled_from(BASES)) + 1000, []
    for _ in range(draw(st.integers(0, 25))):
        t += draw(st.sampled_from([0, 1, 1, 10 ** 9]))
        out.append(t)
    if out and draw(st.booleans()):                                   # one step back, by as little as 1 ns, anywhere
        i = draw(st.integers(0, len(out) - 1))
        out[i] += draw(st.sampled_from([-1, 1, 2, -(10 ** 9)]))
    return {"t": out}


def check_order(c):
    from finmlkit.bar.utils import check_timestamps_order
    t = c["t"]
    got = sut(check_timestamps_order, np.array(t, dtype=np.int64))
    exp = all(a <= b for a, b in zip(t, t[1:]))
    require(bool(got) is exp, lambda: f"order check of {t} gives {got}, expected {exp}")


NUM = st.one_of(st.integers(-3, 3).map(float), st.floats(allow_nan=False, allow_infinity=True))


def check_median(c):
    from finmlkit.bar.utils import median3
    for a, b, d in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        v = [float(c[i]) for i in (a, b, d)]
        got = float(sut(median3, *v))
        require(got == sorted(v)[1], lambda: f"the middle of {v} is given as {got}")


FACETS = [
    Facet("sort", trades(), check_sort, quick=1500, thorough=40000, nontrivial=lambda c: any(a > b for a, b in zip(c["t"], c["t"][1:])),
          classify=lambda c: ["side" if c["with_side"] else "no side", "equal stamps" if len(set(c["t"])) < len(c["t"]) else "distinct stamps"]),
    Facet("order", stamps(), check_order, quick=1500, thorough=40000, nontrivial=lambda c: len(c["t"]) > 2,
          classify=lambda c: ["in order" if all(a <= b for a, b in zip(c["t"], c["t"][1:])) else "out of order"]),
    Facet("middle", st.tuples(NUM, NUM, NUM).map(lambda v: [str(x) for x in v]), check_median, quick=800, thorough=20000, nontrivial=lambda c: len(set(c)) == 3),
]


def big(r, n, c):
    w = r.choice((3, n, 10 * n))
    return {"base": r.choice(BASES), "t": [r.randint(0, w) for _ in range(n)], "px": [r.randint(1, 9) for _ in range(n)], "am": [r.randint(1, 640) for _ in range(n)],
            "mk": [r.random() < 0.5 for _ in range(n)], "with_side": r.random() < 0.5}


FACETS.append(bulk(FACETS[0], big, 80, 1500))
JIT_WORKERS = 2
NOJIT_WORKERS = 4
