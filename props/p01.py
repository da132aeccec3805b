"""P01 - trade preprocessing: conservation, ordering, de-duplication, merging and side attribution."""
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, cmp_exact, cmp_float, require, sut
from vlib.gen import NS, bulk, gaps_ns

PROPERTY = "P01"
RULE = "a case counts if at least two stored rows exist and the raw rows are out of id order, out of time order, duplicated or mergeable"
ASSUMPTIONS = ["amounts are stored in single precision (2e-7 relative)", "prices of one level differ by rounding of the last digits only, other prices by at least one tick of 1e-8 or more"]
UNITS = [1 / 64, 1 / 64, 0.1, 0.001]


@st.composite
def raw(draw, with_side=True):
    n = draw(st.integers(1, 45))
    gid, t, p = draw(st.integers(0, 5)), 0, draw(st.integers(5, 12))
    rows = []
    side = draw(st.booleans())
    for _ in range(n):
        gid += draw(st.sampled_from([1, 1, 1, 1, 2, 7]))
        t += draw(st.one_of(st.just(0), st.just(0), gaps_ns()))
        p = max(1, p + draw(st.sampled_from([0, 0, 0, 1, -1, 3])))
        if draw(st.integers(0, 2)) == 0:
            side = not side
        rows.append([gid, t, p, draw(st.integers(1, 256)), side])
    # local clock disorder: some trades carry an earlier stamp than their id predecessor
    for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
        rows[i][1] = max(0, rows[i][1] - draw(st.sampled_from([1, 1000, 5_000_000, NS["s"], 90 * NS["s"]])))
    # storage: exact or conflicting re-sends of an id, then a permutation
    for i in draw(st.lists(st.integers(0, n - 1), max_size=4)):
        r = list(rows[i])
        if draw(st.booleans()):
            r[2], r[3], r[4] = draw(st.integers(1, 12)), draw(st.integers(1, 256)), draw(st.booleans())
        rows.append(r)
    order = draw(st.one_of(st.just(None), st.permutations(range(len(rows)))))
    if order is not None:
        rows = [rows[i] for i in order]
    return {"rows": rows, "tick": draw(st.sampled_from([1.0, 0.5, 0.25, 1 / 64, 0.01, 1e-8])), "unit": draw(st.sampled_from(UNITS)), "base": draw(st.sampled_from([1_609_459_200, 1_700_000_000])),
            "with_side": with_side, "idtype": draw(st.sampled_from(["i8", "i8", "u8", "i4"]))}


def price(c, k):
    """the float an exchange's decimal price is read as"""
    return float(Decimal(k) * Decimal(repr(c["tick"])))


def arrays(c):
    r = c["rows"]
    ts = np.array([c["base"] * NS["s"] + x[1] for x in r], dtype=np.int64)
    px = np.array([price(c, x[2]) for x in r], dtype=np.float64)
    qty = np.array([x[3] * c["unit"] for x in r], dtype=np.float64)
    ids = np.array([x[0] for x in r], dtype=c["idtype"])
    ibm = np.array([x[4] for x in r], dtype=bool) if c["with_side"] else None
    return ts, px, qty, ids, ibm


def reference(c):
    """independent model on Python ints; returns merged rows [ts, price_ticks, amount64, side|None]"""
    seen, rows = set(), []
    for r in c["rows"]:
        if r[0] not in seen:
            seen.add(r[0])
            rows.append(r)
    rows.sort(key=lambda r: (r[1], r[0]))
    out = []
    for i, t, p, a, s in rows:
        k = (t, p, s if c["with_side"] else None)
        if out and out[-1][0] == k:
            out[-1][1] += a
        else:
            out.append([k, a])
    res = [[k[0], k[1], a, (None if k[2] is None else (-1 if k[2] else 1))] for k, a in out]
    if not c["with_side"]:
        d = 0
        for j, r in enumerate(res):
            if j:
                d = (r[1] > res[j - 1][1]) - (r[1] < res[j - 1][1]) or d
            r[3] = d
    return res


def check(c):
    from finmlkit.bar.data_model import TradesData
    ts, px, qty, ids, ibm = arrays(c)
    saved = [x.copy() if x is not None else None for x in (ts, px, qty, ids, ibm)]
    td = sut(TradesData, ts, px, qty, ids, is_buyer_maker=ibm, timestamp_unit="ns", preprocess=True, name="x")
    d = td.data
    ref = reference(c)
    cmp_exact("timestamp", d["timestamp"].values, np.array([c["base"] * NS["s"] + r[0] for r in ref], dtype=np.int64))
    cmp_float("price", d["price"].values, [price(c, r[1]) for r in ref], rtol=0, atol=0)
    cmp_exact("side", d["side"].values.astype(np.int64), [r[3] for r in ref])
    cmp_float("amount", d["amount"].values, [r[2] * c["unit"] for r in ref], rtol=2e-7)
    cmp_exact("datetime index", d.index.values.astype("datetime64[ns]").astype(np.int64), d["timestamp"].values)
    # conservation of volume, as its own law (independent of the merge rule)
    uniq = {}
    for r in c["rows"]:
        uniq.setdefault(r[0], r)
    require(abs(float(d["amount"].astype(np.float64).sum()) - sum(r[3] for r in uniq.values()) * c["unit"]) <= 2e-7 * sum(r[3] for r in uniq.values()) * c["unit"],
            "total volume changed")
    require(d["timestamp"].is_monotonic_increasing, "timestamps not sorted")
    for nm, a, b in zip(("ts", "px", "qty", "id", "is_buyer_maker"), (ts, px, qty, ids, ibm), saved):
        if a is not None:
            require((a == b).all(), f"caller's {nm} array was modified")


def labels(c):
    r = c["rows"]
    ids = [x[0] for x in r]
    srt = sorted({x[0]: x for x in reversed(r)}.values(), key=lambda x: x[0])
    yield f"n{'<=16' if len(r) <= 16 else '>16'}"
    if len(set(ids)) < len(ids):
        yield "duplicate ids"
    if ids != sorted(ids):
        yield "out of id order"
    if any(a[1] > b[1] for a, b in zip(srt, srt[1:])):
        yield "clock disorder"
    n = len(reference(c))
    if n < len(set(ids)):
        yield "merged"
    if any(len({x[4] for x in r if x[1] == t}) == 2 for t in {x[1] for x in r}):
        yield "two sides on one stamp"


def nontriv(c):
    return len(c["rows"]) > 1 and len(set(labels(c))) > 1


# ---------------------------------------------------------------------------------------- the merge kernel on already ordered input

@st.composite
def ordered(draw):
    n = draw(st.integers(1, 40))
    rows, t = [], 0
    for _ in range(n):
        t += draw(st.sampled_from([0, 0, 0, 1, 1000]))
        rows.append([t, draw(st.integers(1, 3)), draw(st.integers(1, 256)), draw(st.booleans())])
    return {"rows": rows, "with_side": draw(st.booleans()), "eps": draw(st.sampled_from([0, 0, 1])), "tick": draw(st.sampled_from([0.5, 0.01, 1e-8])), "p0": draw(st.sampled_from([0, 1000])), "unit": draw(st.sampled_from(UNITS)), "base": draw(st.sampled_from([0, 1_700_000_000]))}


def check_merge(c):
    from finmlkit.bar.utils import merge_split_trades
    r = c["rows"]
    base = c["base"] * NS["s"]
    ts = np.array([base + x[0] for x in r], dtype=np.int64)
    # prices of one level may differ by float noise: still one price
    px = np.array([price(c, c["p0"] + x[1]) * (1 + (1e-15 * (i % 3) if c["eps"] else 0.0)) for i, x in enumerate(r)])
    am = np.array([x[2] * c["unit"] for x in r], dtype=np.float32)
    ibm = np.array([x[3] for x in r], dtype=bool) if c["with_side"] else None
    mt, mp, ma, ms = sut(merge_split_trades, ts, px, am, ibm)
    exp = []
    for t, p, a, s in r:
        k = (t, p, s if c["with_side"] else None)
        if exp and exp[-1][0] == k:
            exp[-1][1] += a
        else:
            exp.append([k, a])
    cmp_exact("merged timestamp", mt, [base + k[0] for k, _ in exp])
    cmp_float("merged price", mp, [price(c, c["p0"] + k[1]) for k, _ in exp], rtol=1e-14)
    cmp_float("merged amount", ma, [a * c["unit"] for _, a in exp], rtol=2e-7)
    if c["with_side"]:
        cmp_exact("merged side", ms.astype(np.int64), [-1 if k[2] else 1 for k, _ in exp])
    else:
        require(len(ms) == 0, "sides invented without side input")


FACETS = [
    Facet("preprocess_sides", raw(True), check, quick=1600, thorough=40000, jit_quick=250, jit_thorough=4000, classify=labels, nontrivial=nontriv,
          examples=[{"rows": [[3, 30, 10, 64, True], [1, 10, 11, 64, False], [2, 20, 12, 64, False]], "tick": 1.0, "unit": 1 / 64, "base": 1_700_000_000,
                     "with_side": True, "idtype": "i8"}]),
    Facet("preprocess_inferred", raw(False), check, quick=1200, thorough=30000, jit_quick=200, jit_thorough=3000, classify=labels, nontrivial=nontriv),
    Facet("merge_kernel", ordered(), check_merge, quick=1600, thorough=40000, jit_quick=800, jit_thorough=20000, nontrivial=lambda c: len(c["rows"]) > 1,
          classify=lambda c: ["sides" if c["with_side"] else "no sides"]),
]


def big(with_side):
    def make(r, n, c):
        gid, t, p, rows, side = 0, 0, 8, [], False
        for _ in range(n):
            gid += r.choice((1, 1, 1, 2, 7))
            t += r.choice((0, 0, r.randint(1, 300), r.randint(1, 90) * NS["s"]))
            p = max(1, p + r.choice((0, 0, 0, 1, -1, 3)))
            side = side if r.random() < 0.6 else not side
            rows.append([gid, t, p, r.randint(1, 256), side])
        for _ in range(r.choice((0, 2, n // 20))):
            i = r.randrange(n)
            rows[i][1] = max(0, rows[i][1] - r.choice((1, 1000, NS["s"], 90 * NS["s"])))
        for _ in range(r.choice((0, 2, n // 20))):
            x = list(rows[r.randrange(n)])
            if r.random() < 0.5:
                x[2], x[3], x[4] = r.randint(1, 12), r.randint(1, 256), r.random() < 0.5
            rows.append(x)
        if r.random() < 0.5:
            r.shuffle(rows)
        return {"rows": rows, "tick": r.choice((1.0, 0.01, 1e-8)), "unit": r.choice(UNITS), "base": 1_700_000_000, "with_side": with_side, "idtype": "i8"}
    return make


FACETS.append(bulk(FACETS[0], big(True), 80, 1500))
FACETS.append(bulk(FACETS[1], big(False), 60, 1000))


def fills(r, n, c):
    """a few orders of very many fills"""
    rows, t, p = [], 0, 5
    while len(rows) < n:
        t, p, side = t + r.choice((0, 1, 1000)), p + r.choice((-1, 0, 1)), r.random() < 0.5
        rows += [[t, max(1, p), r.choice((1, r.randint(1, 256))), side] for _ in range(r.choice((1, r.randint(1, 50), r.randint(1, n))))]
    return {"rows": rows, "with_side": r.random() < 0.5, "eps": 0, "tick": r.choice((0.5, 1e-8)), "p0": 1000, "unit": r.choice(UNITS), "base": 1_700_000_000}


FACETS.append(bulk(FACETS[2], fills, 60, 1000, sizes=(60, 1000, 20000)))
