"""P04 - the monthly HDF5 trade store against an in-memory model, over random save/load histories."""
import os

import pandas as pd
from hypothesis import strategies as st

from vlib.core import Facet, Violation, expect_raises, require, sut
from vlib.gen import DAY, NS
from vlib.store import MONTHS, Scratch, batch, month_bounds, rows, trades

PROPERTY = "P04"
RULE = "a case counts if the history contains two saves or more to a month or two months or more, and at least one successful load"
ASSUMPTIONS = ["every batch saved to a store has the same column layout (preprocessed, or raw with ids and sides)", "an automatically keyed batch lies in one calendar month"]
OFFS = [0, 0, 0, 1, -1, 1000, -NS["s"], NS["s"], 3 * DAY]
CUSTOM = ["2024-01", "2024-02b"]


@st.composite
def bound(draw):
    kind = draw(st.sampled_from(["none", "trade", "trade", "trade", "month"]))
    if kind == "none":
        return None
    if kind == "month":
        return ["month", draw(st.integers(0, 3)), draw(st.sampled_from([0, 1, -1]))]
    return ["trade", draw(st.integers(0, 200)), draw(st.sampled_from(OFFS))]


@st.composite
def case(draw, mp=False):
    layout = draw(st.sampled_from(["pre", "pre", "raw"]))
    months = MONTHS if mp else draw(st.sampled_from([MONTHS, MONTHS[1:3], MONTHS[1:2]]))
    saves = st.fixed_dictionaries({"op": st.just("save"), "batch": batch(months=months), "ow": st.booleans(),
                                   "key": st.sampled_from([None, None, None, None] + CUSTOM), "view": st.sampled_from([None] * 5 + [True])})
    load = st.fixed_dictionaries({"op": st.just("load"), "key": st.sampled_from([None, None, None, "2024-01", "2024-02", "2024-02b", "2022-01"]),
                                  "a": bound(), "b": bound(), "form": st.sampled_from(["str", "ts"]), "resave": st.sampled_from([False] * 8 + [True])})
    ops = [draw(saves)] + draw(st.lists(st.one_of(saves, load), min_size=1, max_size=8))
    if mp:
        ops = [draw(saves) for _ in range(4)] + [draw(load) for _ in range(2)]
    ops.append(draw(load))
    return {"layout": layout, "ops": ops, "mp": mp}


def compare(what, got, exp):
    got = rows(got)
    exp = [e[:4] + (e[0],) for e in exp]
    if got != exp:
        k = next((i for i, (g, e) in enumerate(zip(got, exp)) if g != e), min(len(got), len(exp)))
        raise Violation(f"{what}: {len(got)} trades, expected {len(exp)}; first difference at {k}: got {got[k:k + 2]} expected {exp[k:k + 2]}")


def run(c, stats=None):
    from finmlkit.bar.data_model import TradesData
    model, seen = {}, []
    with Scratch() as d:
        path = os.path.join(d, "sub", "t.h5")
        for op in c["ops"]:
            if op["op"] == "save":
                td = trades(op["batch"], c["layout"])
                if op["view"]:
                    ts = sorted(op["batch"]["ts"])
                    if ts[-1] > ts[0] + 1:
                        td.set_view_range(pd.Timestamp(ts[0]), pd.Timestamp(ts[-1] - 1))
                frame = rows(td.data)
                key = sut(td.save_h5, path, month_key=op["key"], overwrite_month=op["ow"])
                m = op["key"] or op["batch"]["month"]
                require(key == f"/trades/{m}", lambda: f"save returned {key!r} for month {m}")
                if m in model and not op["ow"]:
                    model[m] = model[m] + frame
                else:
                    model[m] = frame
                require(rows(td.data) == frame, "saving changed the trades")
                seen += [r[0] for r in frame]
                continue
            bnd = []
            for b in (op["a"], op["b"]):
                if b is None:
                    bnd.append(None)
                elif b[0] == "month":
                    bnd.append(month_bounds(MONTHS[b[1]])[0] + b[2])
                else:
                    bnd.append(seen[b[1] % len(seen)] + b[2])
            a, z = bnd
            if a is not None and z is not None and a > z:
                a, z = z, a
            keys = sorted(model) if op["key"] is None else [op["key"]]
            mk = (lambda x: None if x is None else str(pd.Timestamp(x))) if op["form"] == "str" else (lambda x: None if x is None else pd.Timestamp(x))
            kw = dict(key=op["key"], start_time=mk(a), end_time=mk(z))
            if op["key"] is not None and op["key"] not in model:
                expect_raises(KeyError, TradesData.load_trades_h5, path, enable_multiprocessing=False, **kw)
                continue
            exp = [r for k in keys for r in model[k] if (a is None or r[0] >= a) and (z is None or r[0] <= z)]
            exp = sorted(exp, key=lambda r: r[0])              # stable
            if not exp:
                expect_raises((KeyError, ValueError), TradesData.load_trades_h5, path, enable_multiprocessing=False, **kw)
                continue
            got = sut(TradesData.load_trades_h5, path, enable_multiprocessing=False, **kw)
            compare(f"load {kw}", got.data, exp)
            if c["mp"]:
                par = sut(TradesData.load_trades_h5, path, enable_multiprocessing=True, n_workers=2, **kw)
                compare(f"parallel load {kw}", par.data, exp)
            if op["resave"] and len(keys) == 1:
                p2 = os.path.join(d, "copy.h5")
                sut(got.save_h5, p2, month_key="x", mode="w")
                compare("load of a re-saved load", sut(TradesData.load_trades_h5, p2, key="x").data, exp)
            if stats is not None:
                stats["loads"] += 1


def check(c):
    run(c)


def labels(c):
    sv = [o for o in c["ops"] if o["op"] == "save"]
    ms = [o["key"] or o["batch"]["month"] for o in sv]
    yield c["layout"]
    yield f"saves:{min(len(sv), 5)}"
    if len(set(ms)) > 1:
        yield "several-months"
    if any(not o["ow"] and m in ms[:i] for i, (o, m) in enumerate(zip(sv, ms))):
        yield "append"
    if any(o["ow"] and m in ms[:i] for i, (o, m) in enumerate(zip(sv, ms))):
        yield "overwrite"
    for o in c["ops"]:
        if o["op"] == "load":
            yield "load:" + ("key" if o["key"] else "range") + ("-bounded" if o["a"] or o["b"] else "")


FACETS = [
    Facet("history", case(), check, quick=1100, thorough=16000, jit=False, classify=labels, nontrivial=lambda c: sum(o["op"] == "save" for o in c["ops"]) > 1),
    Facet("parallel", case(mp=True), check, quick=48, thorough=600, jit=False, classify=labels, nontrivial=lambda c: True),
]
