"""P03 - the integrity report counts exactly the missing and duplicated trades."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.core import Facet, require, sut
from vlib.gen import MIN, NS, bulk

PROPERTY = "P03"
RULE = "a case counts if at least one trade id is missing or duplicated"
ASSUMPTIONS = ["the reference sorts by id and keeps the first record of a duplicated id, as documented"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 40))
    gid, t, rows = draw(st.integers(0, 10 ** 9)), 0, []
    for i in range(n):
        gap = draw(st.sampled_from([1, 1, 1, 1, 2, 3, 50, 1000]))
        gid += gap
        t += draw(st.sampled_from([0, 1_000_000, NS["s"], MIN - 1_000_000, MIN, MIN + 1_000_000, 59 * NS["s"], 3600 * NS["s"], 86400 * NS["s"]]))
        rows.append([gid, t, draw(st.integers(1, 5))])
    for i in draw(st.lists(st.integers(0, n - 1), max_size=2)):
        rows[i][1] = max(0, rows[i][1] - draw(st.sampled_from([NS["s"], 90 * NS["s"]])))
    for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
        rows.append(list(rows[i]))
    order = draw(st.one_of(st.just(None), st.permutations(range(len(rows)))))
    if order is not None:
        rows = [rows[i] for i in order]
    return {"rows": rows, "unit": draw(st.sampled_from(["ns", "us", "ms"])), "res": draw(st.sampled_from([None, "s"])), "side": draw(st.booleans())}


def check(c):
    from finmlkit.bar.data_model import TradesData
    r = c["rows"]
    base = 1_700_000_000 * NS["s"]
    td = sut(TradesData, np.array([(base + x[1]) // NS[c["unit"]] for x in r], dtype=np.int64), np.array([float(x[2]) for x in r]), np.ones(len(r)),
             np.array([x[0] for x in r], dtype=np.int64), timestamp_unit=c["unit"], preprocess=True, proc_res=c["res"], name="x",
             is_buyer_maker=np.array([bool(x[2] % 2) for x in r]) if c["side"] else None)
    uniq = {}
    for x in r:
        uniq.setdefault(x[0], x)
    s = sorted(uniq.values())
    missing = s[-1][0] - s[0][0] + 1 - len(s)
    pct = 100 * missing / len(s)
    require(abs(float(td.missing_pct) - pct) <= 1e-9 * max(1, pct), lambda: f"missing_pct {td.missing_pct}, expected {pct}")
    exp = [(a[0], b[0], b[0] - a[0] - 1, base + a[1], base + b[1]) for a, b in zip(s, s[1:]) if b[0] - a[0] > 1 and b[1] - a[1] > MIN]
    got = [(int(d["start_id"]), int(d["end_id"]), int(d["missing_ids"]), pd.Timestamp(d["pre_gap_time"]).value, pd.Timestamp(d["post_gap_time"]).value)
           for d in td.discontinuities]
    require(got == exp, lambda: f"discontinuities {got}, expected {exp}")
    for d in td.discontinuities:
        require(d["time_interval"] == d["post_gap_time"] - d["pre_gap_time"], "gap duration is not the difference of its times")
    ok = not exp and len(s) == len(r)
    require(bool(td.data_ok) == ok and td.data_ok is not None, lambda: f"data_ok {td.data_ok}, expected {ok}")


def labels(c):
    ids = sorted(x[0] for x in c["rows"])
    if len(set(ids)) < len(ids):
        yield "duplicates"
    u = sorted({x[0]: x for x in c["rows"]}.values())
    g = [(b[1] - a[1]) for a, b in zip(u, u[1:]) if b[0] - a[0] > 1]
    if g:
        yield "gaps"
    if any(x > MIN for x in g):
        yield "large gap"
    if MIN in g:
        yield "gap of exactly one minute"
    if any(x < 0 for x in g):
        yield "gap with clock going back"


FACETS = [Facet("integrity", case(), check, quick=2400, thorough=60000, jit_quick=120, jit_thorough=2000, classify=labels,
                nontrivial=lambda c: bool(set(labels(c))))]


def big(r, n, c):
    gid, t, rows = r.randint(0, 10 ** 9), 0, []
    for _ in range(n):
        gid += r.choice((1, 1, 1, 1, 2, 50))
        t += r.choice((0, 1_000_000, NS["s"], MIN - 1_000_000, MIN, MIN + 1_000_000, 3600 * NS["s"]))
        rows.append([gid, t, r.randint(1, 5)])
    for _ in range(r.choice((0, 0, 3))):
        rows.append(list(rows[r.randrange(n)]))
    if r.random() < 0.4:
        r.shuffle(rows)
    return {"rows": rows, "unit": "ms", "res": None, "side": r.random() < 0.5}


FACETS.append(bulk(FACETS[0], big, 40, 600, sizes=(60, 300, 800)))
