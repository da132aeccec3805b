"""P16 - stored one-second bars and their resampling."""
import datetime as dt
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.core import Facet, Skip, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import DAY, MIN, NS
from vlib.store import MONTHS, Scratch, month_bounds, rows

PROPERTY = "P16"
RULE = "a case counts if at least one month is processed and at least one read returns two bars or more"
ASSUMPTIONS = ["a daily read whose end is a bare date may leave out the last day (documented: incomplete final periods are excluded)",
               "the resampled median may weight per-second medians by trades (code) or by volume (documentation)"]
TF = {"3s": 3 * NS["s"], "7s": 7 * NS["s"], "10s": 10 * NS["s"], "1min": MIN, "5min": 5 * MIN, "1h": 60 * MIN, "1D": DAY, "1d": DAY}
COLS = ["open", "high", "low", "close", "volume", "trades", "vwap", "median_trade_size"]


@st.composite
def sbatch(draw, months):
    m, at = draw(st.sampled_from(months))
    far = draw(st.sampled_from([0, 0, 0, 45, 200])) * NS["s"]                     # batches of a month may lie minutes apart
    lo, hi = month_bounds(m)
    n = draw(st.integers(1, 12))
    offs, t = [], draw(st.sampled_from([0, 0, 1, 500, 999]))
    for i in range(n):
        t += draw(st.sampled_from([0, 1, 250, 500, 999, 1000, 1000, 1001, 2500, 5000, 9000])) if i else 0
        offs.append(t)
    ns = draw(st.sampled_from([[0], [0], [0, 1, 2, 499, 999_999], [0, 0, 1_000, 123_456]]))
    o = sorted(x * NS["ms"] + draw(st.sampled_from(ns)) for x in offs)
    base = {"start": lo, "mid": lo + 10 * DAY + 3600 * NS["s"], "end": hi - NS["ms"] - o[-1], "midnight": lo + 5 * DAY - o[n // 2]}[at]
    base += far if at in ("start", "mid") else -far
    return {"month": m, "ts": [base + x for x in o], "px": draw(st.lists(st.integers(90, 99), min_size=n, max_size=n)),
            "qty": draw(st.lists(st.integers(1, 40), min_size=n, max_size=n))}


@st.composite
def bound(draw):
    k = draw(st.sampled_from(["none", "trade", "trade", "day", "day", "bar", "bar"]))
    if k == "none":
        return None
    if k == "day":
        return ["day", draw(st.integers(0, 99)), draw(st.sampled_from([0, 0, -1, 1]))]
    if k == "bar":                                      # the first, last or some bar of a month, or an instant next to it
        return ["bar", draw(st.integers(0, 99)), draw(st.sampled_from([0, -1, -1, 3])), draw(st.sampled_from([0, 0, 0, 1, -1]))]
    return ["trade", draw(st.integers(0, 99)), draw(st.sampled_from([0, 0, 1, -1, 1000, -1000, 30000]))]


@st.composite
def case(draw):
    months = [(m, draw(st.sampled_from(["start", "mid", "end", "midnight"]))) for m in draw(st.sampled_from([MONTHS[1:2], MONTHS[1:3], MONTHS]))]
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("save"), "batch": sbatch(months)}),
        st.fixed_dictionaries({"op": st.just("all"), "ow": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("key"), "k": st.integers(0, 9), "ow": st.booleans(), "form": st.sampled_from(["full", "short"]), "ctor": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("read"), "a": bound(), "b": bound(), "form": st.sampled_from(["str", "ts", "dt"]), "tf": st.sampled_from([None] + list(TF))}))
    ops = [{"op": "save", "batch": draw(sbatch(months))} for _ in range(draw(st.integers(1, 3)))]
    ops.append({"op": "all", "ow": False})
    if draw(st.booleans()):                             # more trades arrive for a month that already has bars, which are rebuilt
        ops += [{"op": "save", "batch": draw(sbatch(months[:1]))}, {"op": "all", "ow": True}]
    ops += draw(st.lists(op, min_size=1, max_size=7))
    for _ in range(3):
        ops.append({"op": "read", "a": draw(bound()), "b": draw(bound()), "form": "str", "tf": draw(st.sampled_from([None] + list(TF)))})
    return {"ops": ops, "lot": draw(st.sampled_from([64, 64, 1, 65536, 2 ** 26]))}


def build(month_rows):
    """the one-second bars of the given stored trades, as a list of tuples (stamp, columns)"""
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.kit import TimeBarKit
    r = sorted(month_rows, key=lambda x: x[0])
    td = TradesData(np.array([x[0] for x in r], dtype=np.int64), np.array([x[1] for x in r]), np.array([x[2] for x in r]), timestamp_unit="ns")
    if r[-1][0] <= r[0][0] // NS["s"] * NS["s"]:
        return None                                     # no trade after the first clock stamp: outside the domain of time bars
    b = TimeBarKit(td, pd.Timedelta(seconds=1)).build_ohlcv()
    return [(int(t),) + tuple(float(b[c].iloc[i]) for c in COLS) for i, t in enumerate(b.index.values.astype("datetime64[ns]").astype(np.int64))]


def wmedian(sizes, weights):
    s = sorted(zip(sizes, weights))
    tot, cum = sum(w for _, w in s), 0.0
    for x, w in s:
        cum += w
        if cum >= tot * 0.5:
            return x
    return s[-1][0]


def resample(bars, iv):
    groups = {}
    for b in bars:
        groups.setdefault(b[0] // iv * iv, []).append(b)
    out = []
    for t, g in groups.items():                         # order of first appearance
        vol, tr = math.fsum(b[5] for b in g), sum(b[6] for b in g)
        out.append((t, g[0][1], max(b[2] for b in g), min(b[3] for b in g), g[-1][4], vol, tr,
                    math.fsum(b[5] * b[7] for b in g) / vol if vol > 0 else math.nan,
                    (wmedian([b[8] for b in g], [b[6] for b in g]), wmedian([b[8] for b in g], [b[5] for b in g]))))
    return out


def check(c):
    from finmlkit.bar.io import AddTimeBarH5, TimeBarReader
    from finmlkit.bar.data_model import TradesData
    trades, klines, seen = {}, {}, []
    with Scratch() as d:
        path = os.path.join(d, "t.h5")
        for op in c["ops"]:
            if op["op"] == "save":
                b = op["batch"]
                n = len(b["ts"])
                td = TradesData(np.array(b["ts"], dtype=np.int64), np.array(b["px"]) / 4.0, np.array(b["qty"]) / float(c.get("lot", 64)), np.arange(n),
                                is_buyer_maker=np.zeros(n, dtype=bool), preprocess=True, timestamp_unit="ns", name="b")
                td.save_h5(path, overwrite_month=False)
                trades[b["month"]] = trades.get(b["month"], []) + rows(td.data)
                seen += b["ts"]
            elif op["op"] in ("all", "key"):
                months = sorted(trades)
                if any(build(trades[m]) is None for m in months):
                    continue
                if op["op"] == "key":
                    m = months[op["k"] % len(months)]
                    k = f"/trades/{m}" if op["form"] == "full" else m
                    if op["ctor"]:
                        got = sut(sut(AddTimeBarH5, path, [k]).process_all, overwrite=op["ow"])
                        got = {x.split("/")[-1]: v for x, v in got.items()}
                    else:
                        got = {m: sut(sut(AddTimeBarH5, path).process_key, k, overwrite=op["ow"])}
                    months = [m]
                else:
                    got = {x.split("/")[-1]: v for x, v in sut(sut(AddTimeBarH5, path).process_all, overwrite=op["ow"]).items()}
                exp = {m: op["ow"] or m not in klines for m in months}
                require(got == exp, lambda: f"processing reported {got}, expected {exp}")
                for m in months:
                    if exp[m]:
                        klines[m] = build(trades[m])
                expect_raises(KeyError, AddTimeBarH5, path, ["1999-01"])
            elif klines:
                read(TimeBarReader(path), klines, seen, op)


def read(r, klines, seen, op):
    require(sut(r.list_keys) == [f"/klines/{m}" for m in sorted(klines)], lambda: f"bar keys {r.list_keys()}, processed {sorted(klines)}")
    bnd = []
    for b in (op["a"], op["b"]):
        if b is None:
            bnd.append(None)
        elif b[0] == "day":
            bnd.append(seen[b[1] % len(seen)] // DAY * DAY + b[2] * DAY)
        elif b[0] == "bar":
            k = klines[sorted(klines)[b[1] % len(klines)]]
            bnd.append(k[b[2] if b[2] < len(k) else 0][0] + b[3])
        else:
            bnd.append(seen[b[1] % len(seen)] + b[2] * NS["ms"])
    a, z = bnd
    if None not in bnd and a > z:
        a, z = z, a
    mk = {"str": str, "ts": lambda x: x, "dt": lambda x: x.to_pydatetime()}[op["form"]]
    if op["form"] == "dt":                                 # (datetime objects carry microseconds)
        a, z = (None if x is None else x // 1000 * 1000 for x in (a, z))
    arg = [None if x is None else mk(pd.Timestamp(x)) for x in (a, z)]
    date_only = z is not None and z % DAY == 0
    hi = z + DAY - 1 if date_only else z
    bars = [b for m in sorted(klines) for b in klines[m] if (a is None or b[0] >= a) and (hi is None or b[0] <= hi)]
    got = sut(r.read, *arg, timeframe=op["tf"])
    what = f"read {a} {z} {op['tf']}"
    if not bars:
        require(len(got) == 0, lambda: f"{what}: {len(got)} bars, expected none")
        return
    if op["tf"] is None:
        exp = bars
    else:
        exp = resample(bars, TF[op["tf"]])
    gts = [int(x) for x in got.index.values.astype("datetime64[ns]").astype(np.int64)]
    ets = [b[0] for b in exp]
    if op["tf"] and op["tf"].upper().endswith("D") and date_only and ets and ets[-1] == z and gts != ets:
        exp, ets = exp[:-1], ets[:-1]
    require(gts == ets, lambda: f"{what}: stamps {gts[:6]}.. ({len(gts)}), expected {ets[:6]}.. ({len(ets)}); bars {[b[0] for b in bars][:8]}")
    if not exp:
        return
    require(set(COLS) <= set(got.columns), f"{what}: columns {list(got.columns)}")
    for k, col in enumerate(COLS[:6]):
        cmp_float(f"{what}: {col}", got[col].values, [b[k + 1] for b in exp], rtol=3e-6 if col == "volume" else 0, atol=0 if col == "volume" else 1e-9)
    v = [i for i, b in enumerate(exp) if b[5] > 0]
    cmp_float(f"{what}: vwap", got["vwap"].values[v], [exp[i][7] for i in v], rtol=2e-6)
    med = got["median_trade_size"].values
    if op["tf"] is None:
        cmp_float(f"{what}: median", med, [b[8] for b in exp], rtol=1e-6, atol=0)
    else:
        for i in v:
            require(any(abs(float(med[i]) - x) <= 1e-6 * abs(x) for x in exp[i][8]), lambda: f"{what}: median_trade_size[{i}] = {med[i]}, expected {exp[i][8]}")


def labels(c):
    ms = [o["batch"]["month"] for o in c["ops"] if o["op"] == "save"]
    yield f"months:{len(set(ms))}"
    yield f"lot:1/{c.get('lot', 64)}"
    if len(ms) > len(set(ms)):
        yield "appended-month"
    for o in c["ops"]:
        if o["op"] == "read":
            yield f"tf:{o['tf']}"
        if o["op"] in ("all", "key"):
            yield f"process:{o['op']}" + ("-overwrite" if o["ow"] else "")


FACETS = [Facet("history", case(), check, quick=640, thorough=10000, jit=False, classify=labels,
                nontrivial=lambda c: any(len(o["batch"]["ts"]) > 1 for o in c["ops"] if o["op"] == "save"))]
