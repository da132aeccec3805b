"""P26 - calendar, session and bar-clock features against the UTC wall clock."""
import datetime as D

import numpy as np
from hypothesis import strategies as st

from vlib import feat, featprop
from vlib.core import Facet, Violation, cmp_exact, cmp_float, require, sut
from vlib.gen import bulk

PROPERTY = "P26"
RULE = "a case counts if the stamps fall on at least two different hours"
ASSUMPTIONS = ["stamps are UTC (naive indexes, or aware ones converted to UTC); all instants a nanosecond stamp can hold (1702 to 2261) for the cues, 2000 to 2100 elsewhere",
               "bar rate counts the bars within the window before a bar, both ends included; the opening range is the first four bars of a day that starts at 00:00 (documented assumption)",
               "the daily gap refers to the last close of the previous calendar day and is reported at 00:00 only"]
DAY = 86400
EDGE = [0, 1, 59, 60, 3599, 3600, 7 * 3600 - 1, 7 * 3600, 7 * 3600 + 59, 7 * 3600 + 60, 8 * 3600 - 1, 8 * 3600, 13 * 3600 - 1, 13 * 3600, 15 * 3600 - 1, 15 * 3600, 21 * 3600 - 1, 21 * 3600, DAY - 1]
DATES = [(1970, 1, 1), (2000, 2, 29), (2023, 12, 31), (2024, 1, 1), (2024, 2, 28), (2024, 2, 29), (2024, 3, 1), (2025, 3, 30), (2100, 2, 28), (2199, 12, 31), (2038, 1, 19)]

OLD = [(1969, 12, 31), (1969, 12, 25), (1900, 2, 28), (1702, 1, 1), (2261, 12, 31)]


def secs(d):
    return (D.date(*d).toordinal() - D.date(1970, 1, 1).toordinal()) * DAY


instant = st.tuples(st.one_of(st.sampled_from([secs(d) for d in DATES + OLD]), st.integers(0, 80000).map(lambda v: v * DAY), st.integers(-98000, 106000).map(lambda v: v * DAY)),
                    st.one_of(st.sampled_from(EDGE), st.integers(0, DAY - 1), st.integers(0, 23).map(lambda h: h * 3600), st.integers(0, 1439).map(lambda m: m * 60)),
                    st.sampled_from([0, 0, 1, 999_999_999, 500_000_000])).map(lambda t: (t[0] + t[1]) * 10 ** 9 + t[2])


@st.composite
def case(draw):
    ts = draw(st.lists(instant, min_size=1, max_size=30))
    if draw(st.booleans()):
        ts = sorted(ts)
    return {"ts": ts, "unit": draw(st.sampled_from(["ns", "ns", "us", "ms", "s"])), "tz": draw(st.sampled_from([None, None, "UTC", "America/New_York"])), "via": draw(st.sampled_from(["transform", "kernel"]))}


NAMES = ["sin_td", "cos_td", "sin_dw", "cos_dw", "asia", "eu", "us", "sess_x", "top_hr"]


def check(c):
    import pandas as pd
    from finmlkit.feature.core.time import time_cues
    from finmlkit.feature.transforms import TimeCues
    ts = np.array(c["ts"], dtype=np.int64)
    exp = feat.r_cues(ts, None, None)
    if c["via"] == "kernel":
        res = sut(time_cues, ts)
    else:
        idx = pd.DatetimeIndex(ts.view("datetime64[ns]")).as_unit(c["unit"])
        if c["tz"]:
            idx = idx.tz_localize("UTC").tz_convert(c["tz"])
        df = pd.DataFrame({"close": np.arange(len(ts), dtype=float)}, index=idx)
        tf = TimeCues()
        res = sut(tf, df)
        require(list(tf.output_name) == NAMES and [r.name for r in res] == NAMES, lambda: f"names {[r.name for r in res]}")
        require(all(r.index.equals(df.index) for r in res), "index changed")
        res = [r.to_numpy() for r in res]
    for nm, g, e in zip(NAMES, res, exp):
        if nm in NAMES[:4]:
            cmp_float(nm, g, e, atol=1e-9, ctx=str(c["ts"][:3]))
        else:
            require(np.asarray(g).dtype == bool or set(np.unique(g)) <= {0, 1}, f"{nm} is not a flag")
            cmp_exact(nm, np.asarray(g).astype(bool), e, ctx=str(c["ts"][:3]))
    for s, k in ((0, 1), (2, 3)):
        r = np.asarray(res[s], float) ** 2 + np.asarray(res[k], float) ** 2
        require(np.abs(r - 1).max() < 1e-9, "cyclic encoding leaves the unit circle")


def hours(ts):
    return len({t // (3600 * 10 ** 9) for t in ts}) > 1


@st.composite
def days(draw):
    """quarter-hour / hourly bars over a few days with holes, some days not starting at midnight"""
    step = draw(st.sampled_from([900, 900, 1800, 3600, 60 * 20])) * 10 ** 9
    n = draw(st.integers(4, 70))
    t0 = (draw(st.sampled_from([secs(d) for d in DATES[2:8]])) + draw(st.sampled_from([0, 0, DAY - 3600, 900, 43200]))) * 10 ** 9
    rows, base = [], draw(st.sampled_from([40, 400]))
    drop = draw(st.sampled_from([0, 0, 5, 25]))
    gap = 0
    first = True
    for _ in range(n):
        gap += step
        if drop and draw(st.integers(0, 24)) == 0:
            gap += draw(st.sampled_from([1, 4, 40, 100])) * step
        rows.append([0 if first else gap, draw(st.sampled_from([0, 0, 3, -3])), draw(st.integers(-9, 9)), draw(st.integers(0, 3)), draw(st.integers(0, 3)), 64, 32, 2, 0])
        first, gap = False, 0
    return {"rows": rows, "tick": 0.125, "base": base, "start": t0}


FACETS = [Facet("time_cues", case(), check, quick=1500, thorough=40000, nontrivial=lambda c: hours(c["ts"]), classify=lambda c: [f"unit:{c['unit']}", c["via"], "sorted" if c["ts"] == sorted(c["ts"]) else "unsorted"])]
FACETS.append(bulk(FACETS[0], lambda r, n, c: {"ts": [(r.randrange(80000) * DAY + r.choice((r.choice(EDGE), r.randrange(DAY)))) * 10 ** 9 for _ in range(n)], "unit": "ns", "tz": None, "via": "kernel"}, 20, 400, sizes=(500, 2000, 20000)))
FACETS += featprop.facets("P26", quick=250, thorough=6000, table={"DailyGap": days(), "ORBBreak": days()}, bulk_quick=15, holes={"DailyGap": [1, 5], "ORBBreak": [0, 1, 2, 6, 10]})
for f in FACETS[2:]:
    f.jit = False                                          # evaluated with pandas in both modes
JIT_WORKERS = 1
