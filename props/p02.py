"""P02 - timestamp units, unit inference and processing resolution."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import NS

PROPERTY = "P02"
RULE = "a case counts if at least two trades exist and either two different units are compared or a coarser resolution changes a stamp"
ASSUMPTIONS = ["instants lie strictly after 2001-09-09T01:46:40 (the documented inference thresholds) and before 2262",
               "timestamps are integer arrays (int64, or int32/uint32 for seconds)"]
UNITS = ["s", "ms", "us", "ns"]


@st.composite
def case(draw):
    u = draw(st.sampled_from(UNITS))                      # granularity of the instants
    v = draw(st.sampled_from(UNITS[UNITS.index(u):]))     # unit they are written in
    # the anchor sits on both sides of the inference thresholds of the other units
    base = draw(st.one_of(st.sampled_from([1_000_000_001, 1_000_000_777, 1_609_459_199, 1_700_000_000, 4_102_444_799, 9_000_000_000]),
                          st.integers(1_000_000_001, 9_000_000_000)))
    n = draw(st.integers(1, 25))
    t, rows, p = 0, [], draw(st.integers(2, 9))
    for i in range(n):
        t += draw(st.one_of(st.just(0), st.integers(0, 3), st.integers(0, 2500), st.integers(0, 10 ** 7) if u != "s" else st.integers(0, 5)))
        p = max(1, p + draw(st.sampled_from([0, 0, 1, -1])))
        rows.append([i + 1, t, p, draw(st.integers(1, 128)), draw(st.booleans())])
    dt = "i8"
    if v == "s" and base + t < 2 ** 31:
        dt = draw(st.sampled_from(["i8", "i4", "u4"]))
    return {"u": u, "v": v, "base": base, "rows": rows, "infer": draw(st.booleans()), "res": draw(st.sampled_from([None] + UNITS)), "side": draw(st.booleans()),
            "dtype": dt}


def truth(c):
    return [c["base"] * NS["s"] + r[1] * NS[c["u"]] for r in c["rows"]]


def check(c):
    from finmlkit.bar.data_model import TradesData
    ns = truth(c)
    require(max(ns) < 2 ** 63, "harness: out of range")
    ts = np.array([x // NS[c["v"]] for x in ns], dtype=c["dtype"])
    px = np.array([r[2] / 4 for r in c["rows"]])
    am = np.array([r[3] / 64 for r in c["rows"]])
    ids = np.array([r[0] for r in c["rows"]], dtype=np.int64)
    ibm = np.array([r[4] for r in c["rows"]], dtype=bool) if c["side"] else None
    td = sut(TradesData, ts, px, am, ids, is_buyer_maker=ibm, timestamp_unit=None if c["infer"] else c["v"], preprocess=True, proc_res=c["res"], name="x")
    require(td.orig_timestamp_unit == c["v"], lambda: f"unit {td.orig_timestamp_unit!r}, expected {c['v']!r}")
    exp = []
    for x, r in zip(ns, c["rows"]):
        k = (x, r[2], r[4] if c["side"] else None)
        if exp and exp[-1][0] == k:
            exp[-1][1] += r[3]
        else:
            exp.append([k, r[3]])
    step = NS[c["res"]] if c["res"] else 1
    d = td.data
    cmp_exact("timestamp", d["timestamp"].values, np.array([k[0] // step * step for k, _ in exp], dtype=np.int64))
    cmp_exact("datetime index", d.index.values.astype("datetime64[ns]").astype(np.int64), d["timestamp"].values)
    cmp_float("price", d["price"].values, [k[1] / 4 for k, _ in exp], rtol=0, atol=0)
    cmp_float("amount", d["amount"].values, [a / 64 for _, a in exp], rtol=2e-6)
    if c["side"]:
        cmp_exact("side", d["side"].values.astype(int), [-1 if k[2] else 1 for k, _ in exp])
    else:
        s, e = 0, []
        for i, (k, _) in enumerate(exp):
            if i:
                s = (k[1] > exp[i - 1][0][1]) - (k[1] < exp[i - 1][0][1]) or s
            e.append(s)
        cmp_exact("inferred side", d["side"].values.astype(int), e)


def nontriv(c):
    return len(c["rows"]) > 1 and (c["u"] != c["v"] or (c["res"] is not None and any(x % NS[c["res"]] for x in truth(c))))


def labels(c):
    yield f"written in {c['v']}"
    yield "inferred" if c["infer"] else "stated"
    yield f"resolution {c['res']}"
    if c["res"] and any(x % NS[c["res"]] for x in truth(c)):
        yield "resolution floors"


@st.composite
def bad(draw):
    return {"unit": draw(st.sampled_from(["m", "sec", "NS", "minutes", "h", "D", "msec", "us ", ""])), "what": draw(st.sampled_from(["unit", "res", "noid", "type"])),
            "n": draw(st.integers(1, 5))}


def check_bad(c):
    from finmlkit.bar.data_model import TradesData
    n = c["n"]
    ts = np.arange(n, dtype=np.int64) + 1_700_000_000_000
    a = [ts, np.ones(n), np.ones(n), np.arange(n)]
    if c["what"] == "unit" and c["unit"]:
        expect_raises(ValueError, TradesData, *a, timestamp_unit=c["unit"], preprocess=True)
    elif c["what"] == "res" and c["unit"]:
        expect_raises(ValueError, TradesData, *a, timestamp_unit="ms", preprocess=True, proc_res=c["unit"])
    elif c["what"] == "noid":
        expect_raises(ValueError, TradesData, *a[:3], timestamp_unit="ms", preprocess=True)
    elif c["what"] == "type":
        for i in range(4):
            b = list(a)
            b[i] = list(b[i])
            expect_raises(TypeError, TradesData, *b, timestamp_unit="ms", preprocess=True)


FACETS = [
    Facet("units", case(), check, quick=2400, thorough=60000, jit_quick=200, jit_thorough=3000, classify=labels, nontrivial=nontriv),
    Facet("rejects", bad(), check_bad, quick=120, thorough=400, jit=False, classify=lambda c: [c["what"]]),
]
