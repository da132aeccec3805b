"""Shared generators.  Everything is drawn as integers / small enums and turned into floats by exact (dyadic) scaling, so that the
reference models can compute with exact arithmetic and a case is a plain JSON value."""
from __future__ import annotations

from hypothesis import strategies as st

NS = {"s": 1_000_000_000, "ms": 1_000_000, "us": 1_000, "ns": 1}
MIN = 60 * NS["s"]
DAY = 86400 * NS["s"]

# realistic epochs: after 2001-09-09 in every unit, plus year boundaries / DST-free UTC days
EPOCHS_S = [1_609_459_200, 1_614_556_799, 1_700_000_000, 1_577_836_799, 1_230_768_000, 1_704_067_199, 1_709_164_800]


def ints(lo, hi):
    return st.integers(lo, hi)


def small_lists(elem, lo, hi, bias=None):
    """lists whose size is drawn first (Hypothesis' own size distribution is heavily biased to tiny lists)"""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(elem, min_size=n, max_size=n))


def gaps_ns():
    """time between consecutive trades, in ns: repeated stamps, ns/us/ms jitter, seconds, minutes, hours"""
    return st.one_of(
        st.just(0), st.integers(1, 300), st.integers(1, 5).map(lambda v: v * 1000), st.integers(1, 999).map(lambda v: v * 1_000_000),
        st.integers(1, 59).map(lambda v: v * NS["s"]), st.sampled_from([60 * NS["s"], 60 * NS["s"] + 1, 61 * NS["s"], 3600 * NS["s"]]))


@st.composite
def trade_rows(draw, lo=1, hi=40, sides=(-1, 1), price_lo=1, price_hi=12, walk=True, gap=None, amt_hi=640):
    """[[gap_ns, price_ticks, amount_64ths, side], ...] with a bounded random walk (or iid) of prices"""
    n = draw(st.integers(lo, hi))
    g = gap if gap is not None else gaps_ns()
    rows = []
    p = draw(st.integers(price_lo, price_hi))
    for _ in range(n):
        if walk:
            p = min(price_hi, max(price_lo, p + draw(st.sampled_from([0, 0, 1, -1, 2, -2, 5, -5]))))
        else:
            p = draw(st.integers(price_lo, price_hi))
        rows.append([draw(g), p, draw(st.one_of(st.integers(1, 64), st.integers(1, amt_hi), st.sampled_from([8, 64]))),
                     draw(st.sampled_from(list(sides)))])
    return rows


def bulk(base, expand, quick, thorough, sizes=(60, 300, 1200), extra=None, **kw):
    """A facet over large inputs: the case is a seed, a size and a few drawn parameters; expand(random.Random, n, params) builds a case of the
    base facet.  Reaches size-dependent code (chunking, sampling limits, narrow counters) that drawn lists are too short for."""
    import random

    from vlib.core import Facet

    def full(c):
        return expand(random.Random(c["seed"]), c["n"], c)
    lo, mid, hi = sizes
    strat = st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32 - 1), "n": st.one_of(st.integers(lo, mid), st.integers(mid, hi)), **(extra or {})})
    return Facet(base.name + "_bulk", strat, lambda c: base.check(full(c)), quick=quick, thorough=thorough,
                 nontrivial=lambda c: base.nontrivial(full(c)), classify=lambda c: [f"size up to {10 ** len(str(c['n']))}"], **kw)


def bulk_rows(r, n, sides=(-1, 1), lo=1, hi=40, start=None, sub_ns=True):
    """n rows [gap_ns, price_ticks, amount_64ths, side]: bounded walk, bursts of equal stamps"""
    p = start if start is not None else r.randint(lo, hi)
    rows = []
    for _ in range(n):
        p = min(hi, max(lo, p + r.choice((0, 0, 1, -1, 2, -2, 5, -5))))
        g = r.choice((0, 0, 0, r.randint(1, 300) if sub_ns else 0, r.randint(1, 999) * 10 ** 6, r.randint(1, 90) * NS["s"], 60 * NS["s"]))
        rows.append([g, p, r.choice((8, 64, r.randint(1, 640), r.randint(1, 64))), r.choice(sides)])
    return rows


def bulk_closes(r, n, empty=True):
    """bar boundaries: bars of very different lengths, some empty, the last trades may be left open"""
    out, i = [r.choice((0, 0, r.randint(0, max(0, n - 2))))], 0
    i = out[0]
    big = r.choice((3, 30, 300))
    while i < n - 1:
        i = min(n - 1, i + r.choice((0 if empty else 1, 1, 2, r.randint(1, big), r.randint(1, big))))
        out.append(i)
        if r.random() < 0.002:
            break
    return out if len(out) > 1 else [0, n - 1]
