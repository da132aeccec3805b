"""P14 - the footprint container."""
import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.core import Facet, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import NS

PROPERTY = "P14"
RULE = "a case counts if the footprint has two bars or more and at least one conversion and one slice are applied"
ASSUMPTIONS = ["bar stamps are non-decreasing; time bounds given as strings carry all nine sub-second digits (shorter strings follow pandas' partial-string rule)"]
RAGGED = ["price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances"]
FLAT = ["buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini"]
DT = dict(price_levels=np.int32, buy_volumes=np.float32, sell_volumes=np.float32, buy_ticks=np.int32, sell_ticks=np.int32, buy_imbalances=np.bool_,
          sell_imbalances=np.bool_)


@st.composite
def case(draw):
    n = draw(st.integers(1, 9))
    eq = draw(st.sampled_from([None, None, 1, 3]))
    bars, t = [], 0
    for _ in range(n):
        t += draw(st.sampled_from([0, 1, 1000, 1_000_000, NS["s"], 3600 * NS["s"]])) if bars else 0
        k = eq or draw(st.integers(1, 6))
        f = st.lists(st.integers(0, 200), min_size=k, max_size=k)
        bars.append({"t": t, "lo": draw(st.integers(1, 900)), "bv": draw(f), "sv": draw(f), "bt": draw(f), "st": draw(f),
                     "bi": draw(st.lists(st.booleans(), min_size=k, max_size=k)), "si": draw(st.lists(st.booleans(), min_size=k, max_size=k))})
    ops = draw(st.lists(st.one_of(
        st.sampled_from([["numpy"], ["numba"], ["df"], ["repr"]]),
        st.tuples(st.just("slice"), st.one_of(st.none(), st.integers(-12, 12)), st.one_of(st.none(), st.integers(-12, 12)), st.sampled_from([None, 1, 2])).map(list),
        st.tuples(st.just("int"), st.integers(-10, 10)).map(list),
        st.tuples(st.just("time"), st.one_of(st.none(), st.tuples(st.integers(0, n - 1), st.sampled_from([0, 0, 1000, -1000])).map(list)),
                  st.one_of(st.none(), st.tuples(st.integers(0, n - 1), st.sampled_from([0, 0, 1000, -1000])).map(list)),
                  st.sampled_from(["str", "ts", "dt"])).map(list)), min_size=2, max_size=8))
    return {"bars": bars, "ops": ops, "base": draw(st.sampled_from([1_704_067_199, 1_700_000_000])), "tick": draw(st.sampled_from([0.5, 0.01])),
            "start": draw(st.sampled_from(["lists", "numba"]))}


def model(c):
    out = []
    for i, b in enumerate(c["bars"]):
        k = len(b["bv"])
        out.append(dict(t=c["base"] * NS["s"] + b["t"], price_levels=list(range(b["lo"], b["lo"] + k)), buy_volumes=[x / 64 for x in b["bv"]],
                        sell_volumes=[x / 64 for x in b["sv"]], buy_ticks=b["bt"], sell_ticks=b["st"], buy_imbalances=b["bi"], sell_imbalances=b["si"],
                        buy_imbalances_sum=sum(b["bi"]), sell_imbalances_sum=sum(b["si"]), cot_price_levels=b["lo"] + i % k, imb_max_run_signed=(-1) ** i * (i % 4),
                        vp_skew=i / 7, vp_gini=1 / (i + 1)))
    return out


def verify(fp, m, tick, what):
    require(len(fp) == len(m), lambda: f"{what}: {len(fp)} bars, expected {len(m)}")
    require(fp.is_valid(), f"{what}: container reports itself invalid")
    require(fp.price_tick == tick, f"{what}: price tick changed")
    cmp_exact(f"{what}: bar_timestamps", np.asarray(fp.bar_timestamps), np.array([b["t"] for b in m], dtype=np.int64))
    for a in RAGGED:
        v = getattr(fp, a)
        for i, b in enumerate(m):
            x = np.asarray(v[i])
            require(x.dtype == DT[a], lambda: f"{what}: {a}[{i}] has type {x.dtype}, expected {np.dtype(DT[a])}")
            cmp_exact(f"{what}: {a}[{i}]", x, np.array(b[a], dtype=DT[a]))
    for a in FLAT:
        cmp_float(f"{what}: {a}", np.asarray(getattr(fp, a)), [b[a] for b in m], rtol=0)


def verify_df(df, m, tick):
    rows = []
    for i, b in enumerate(m):
        for k, p in enumerate(b["price_levels"]):
            rows.append((i, b["t"], p, b["sell_ticks"][k], b["buy_ticks"][k], b["sell_volumes"][k], b["buy_volumes"][k], b["sell_imbalances"][k], b["buy_imbalances"][k]))
    require(len(df) == len(rows), lambda: f"table has {len(df)} rows, expected {len(rows)}")
    d = df.reset_index()
    got = [(int(a), pd.Timestamp(t).value, int(round(p / tick)), int(st_), int(bt), float(sv), float(bv), bool(si), bool(bi))
           for a, t, p, st_, bt, sv, bv, si, bi in zip(d["bar_idx"], d["bar_datetime_idx"], d["price_level"], d["sell_ticks"], d["buy_ticks"], d["sell_volume"],
                                                       d["buy_volume"], d["sell_imbalance"], d["buy_imbalance"])]
    f32 = [r[:5] + (float(np.float32(r[5])), float(np.float32(r[6]))) + r[7:] for r in rows]
    require(sorted(got) == sorted(f32), lambda: f"table rows differ: {sorted(set(got) ^ set(f32))[:4]}")
    require(got == sorted(got, key=lambda r: (r[1], -r[2])) or all((a[1], -a[2]) <= (b[1], -b[2]) for a, b in zip(got, got[1:])),
            "table is not ordered by time, then descending price")


def check(c):
    from numba.typed import List as NL
    from finmlkit.bar.data_model import FootprintData
    m = model(c)
    lists = [[np.array(b[a], dtype=DT[a]) for b in m] for a in RAGGED]
    if c["start"] == "numba":
        lists = [NL(x) for x in lists]
    data = (np.array([b["t"] for b in m], dtype=np.int64), *lists, *[np.array([b[a] for b in m]) for a in FLAT])
    fp = sut(FootprintData.from_numba, data, c["tick"])
    verify(fp, m, c["tick"], "from_numba")
    for op in c["ops"]:
        prev, pm = fp, m
        if op[0] == "numpy":
            sut(fp.cast_to_numpy)
            require(all(isinstance(getattr(fp, a), np.ndarray) for a in RAGGED), "cast_to_numpy did not give arrays")
        elif op[0] == "numba":
            if not m:
                continue            # typed lists cannot be built from nothing
            sut(fp.cast_to_numba_list)
        elif op[0] == "df":
            if m:
                verify_df(sut(fp.get_df), m, c["tick"])
        elif op[0] == "repr":
            if m:
                require(str(len(m)) in sut(repr, fp), "summary does not state the number of bars")
        elif op[0] == "slice":
            s = slice(op[1], op[2], op[3])
            fp, m = sut(lambda: prev[s]), m[s]
        elif op[0] == "int":
            if -len(m) <= op[1] < len(m):
                k = op[1] % len(m)
                fp, m = sut(lambda: prev[op[1]]), m[k:k + 1]
            else:
                expect_raises(IndexError, lambda: prev[op[1]])
        else:
            if not m or (op[1] is None and op[2] is None):
                continue
            b = [None if e is None else c["base"] * NS["s"] + c["bars"][e[0]]["t"] + e[1] for e in op[1:3]]
            if None not in b and b[0] > b[1]:
                b = b[::-1]
            if op[3] == "dt":
                b = [None if x is None else x // 1000 * 1000 for x in b]
            mk = {"str": lambda x: pd.Timestamp(x).strftime("%Y-%m-%d %H:%M:%S") + f".{x % NS['s']:09d}", "ts": pd.Timestamp,
                  "dt": lambda x: dt.datetime(1970, 1, 1) + dt.timedelta(microseconds=x // 1000)}[op[3]]
            k = [None if x is None else mk(x) for x in b]
            fp = sut(lambda: prev[k[0]:k[1]])
            m = [x for x in m if (b[0] is None or x["t"] >= b[0]) and (b[1] is None or x["t"] <= b[1])]
        verify(fp, m, c["tick"], "after " + str(op))
        if fp is not prev:
            verify(prev, pm, c["tick"], "the sliced original after " + str(op))
    expect_raises(TypeError, lambda: fp[1.5])


@st.composite
def incons(draw):
    return {"n": draw(st.integers(1, 4)), "which": draw(st.integers(0, 6)), "d": draw(st.sampled_from([-1, 1]))}


def check_incons(c):
    from finmlkit.bar.data_model import FootprintData
    n = c["n"]
    ls = [[np.array([1], dtype=DT[a]) for _ in range(n + (c["d"] if i == c["which"] else 0))] for i, a in enumerate(RAGGED)]
    data = (np.arange(n, dtype=np.int64), *ls, *[np.zeros(n)] * 6)
    expect_raises(ValueError, FootprintData.from_numba, data, 1.0)


def labels(c):
    k = {len(b["bv"]) for b in c["bars"]}
    yield "one bar" if len(c["bars"]) == 1 else "equal level counts" if len(k) == 1 else "ragged"
    for op in c["ops"]:
        yield op[0]


FACETS = [
    Facet("container", case(), check, quick=1000, thorough=30000, jit_quick=300, jit_thorough=5000, classify=labels,
          nontrivial=lambda c: len(c["bars"]) > 1 and any(o[0] in ("numpy", "numba") for o in c["ops"]) and any(o[0] in ("slice", "time", "int") for o in c["ops"])),
    Facet("inconsistent", incons(), check_incons, quick=60, thorough=200, jit=False),
]
