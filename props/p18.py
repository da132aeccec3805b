"""P18 - the labelling kit against the per-event triple-barrier reference."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from props.p17 import reference
from vlib.core import Facet, Skip, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import NS
from vlib.kern import log

PROPERTY = "P18"
RULE = "a case counts if at least two rows are labelled and at least one row is dropped or an event lies between two trades"
ASSUMPTIONS = ["trades and feature rows are in time order", "an event's price is that of the first trade at or after the row's stamp"]
GAPS = [0, 1000, 250 * NS["ms"], NS["s"], NS["s"], 2 * NS["s"], 5 * NS["s"], 30 * NS["s"]]


@st.composite
def case(draw):
    n = draw(st.integers(3, 40))
    p, px = 64, []
    for _ in range(n):
        p = min(max(p + draw(st.sampled_from([0, 1, -1, 2, -3, 6, -6])), 16), 400)
        px.append(p)
    m = draw(st.integers(1, 12))
    return {"k": draw(st.sampled_from([1, 1, 1, 20_000])), "base": draw(st.sampled_from([1_700_000_000, 1_704_067_200])), "gaps": draw(st.lists(st.sampled_from(GAPS), min_size=n, max_size=n)), "px": px,
            # rows are placed relative to trades: exactly on them, a little before or after
            "rows": draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([0, 0, 0, 1000, -1000, 500 * NS["ms"], -3 * NS["s"]])).map(list), min_size=m, max_size=m)),
            "tgt": draw(st.lists(st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.001, 0.0, None, 0.3]), min_size=m, max_size=m)),
            "f2": draw(st.lists(st.sampled_from([1.0, 2.0, None]), min_size=m, max_size=m)), "side": draw(st.lists(st.sampled_from([1, -1]), min_size=m, max_size=m)),
            "lo": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, "inf", "-inf"])), "up": draw(st.sampled_from([1.0, 1.0, 2.0, "inf", "-inf"])),
            "vb_ms": draw(st.sampled_from([100, 1000, 3000, 10_000, 30_000])), "mc_ms": draw(st.sampled_from([1000, 0, 500, 4000])), "min_ret": draw(st.sampled_from([0.0, 0.0, 0.005, 0.02])),
            "meta": draw(st.booleans()), "unit": draw(st.sampled_from(["ns", "ns", "us"])), "extra": draw(st.booleans()), "twice": draw(st.booleans()), "view": draw(st.integers(0, 5)),
            "norm": draw(st.booleans()), "evidx": draw(st.sampled_from([0, 0, 1]))}


def stretch(c):
    """every duration of the case times k: with a large k barriers and gaps span days"""
    k = c.get("k", 1)
    return {**c, "gaps": [g * k for g in c["gaps"]], "rows": [[i, d * k] for i, d in c["rows"]], "vb_ms": c["vb_ms"] * k, "mc_ms": c["mc_ms"] * k, "k": 1}


def setup(c):
    t, ts = c["base"] * NS["s"], []
    for g in c["gaps"]:
        t += g
        ts.append(t)
    rows = sorted((max(ts[i] + d, c["base"] * NS["s"]), k) for k, (i, d) in enumerate(c["rows"]))
    return ts, [r[0] for r in rows]


def evidx(c, stamps):
    """event positions the user supplies: the last trade at or before the row"""
    ts = np.array(setup(c)[0])
    return np.array([max(int(np.searchsorted(ts, x, side="right")) - 1, 0) for x in stamps], dtype=np.int64)


def frame(c, stamps):
    idx = pd.DatetimeIndex(np.array(stamps, dtype="datetime64[ns]"))
    if c["unit"] != "ns":
        idx = idx.as_unit(c["unit"])
    d = {"vol": [math.nan if v is None else v for v in c["tgt"]], "rowid": [float(i) for i in range(len(stamps))]}
    if c["extra"]:
        d["f2"] = [math.nan if v is None else v for v in c["f2"]]
    f = pd.DataFrame(d, index=idx)
    if c.get("evidx"):
        f["event_idx"] = evidx(c, stamps)
    if c["meta"]:
        f["side"] = np.array(c["side"], dtype=np.int64)
    return f


def expected(c, ts, stamps, last):
    """row numbers kept, per the documented rules"""
    mult = max(abs(float(c["lo"])), abs(float(c["up"])))
    start = 0
    cols = [c["tgt"]] + ([c["f2"]] if c["extra"] else [])
    for col in cols:
        ok = [i for i, v in enumerate(col) if v is not None]
        if ok:
            start = max(start, stamps.index(stamps[ok[0]]))     # the first row carrying that stamp
    kept = [i for i in range(len(stamps)) if i >= start and c["tgt"][i] is not None and abs(c["tgt"][i]) * mult >= c["min_ret"]]
    return kept, [i for i in kept if stamps[i] + c["vb_ms"] * NS["ms"] <= last]


def check(c):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.label.kit import SampleWeights, TBMLabel
    c = stretch(c)
    ts, stamps = setup(c)
    f = frame(c, stamps)
    keep = f.copy()
    args = dict(target_ret_col="vol", min_ret=c["min_ret"], horizontal_barriers=(float(c["lo"]), float(c["up"])), vertical_barrier=pd.Timedelta(c["vb_ms"], unit="ms"),
                min_close_time=pd.Timedelta(c["mc_ms"], unit="ms"), is_meta=c["meta"])
    kept, _ = expected(c, ts, stamps, ts[-1])
    if not kept:
        expect_raises(ValueError, TBMLabel, f, **args)
        return
    kit = sut(TBMLabel, f, **args)
    require(kit.event_count == len(kept), lambda: f"{kit.event_count} events after filtering, expected {len(kept)}")
    for name in ("labels", "event_returns", "full_output"):
        expect_raises(ValueError, getattr, kit, name)
    require(kit.event_range == f"From {keep.index[kept[0]]} to {keep.index[kept[-1]]} ({len(kept)} events)", lambda: f"event range {kit.event_range!r}")
    px = np.array([p / 4 for p in c["px"]])
    runs = [len(ts)] if not c["twice"] or len(ts) < 6 else [len(ts) // 2, len(ts)]
    for n in runs:                                               # a second computation on more trades must not be affected by the first
        _, ev = expected(c, ts, stamps, ts[n - 1])
        if not ev:
            continue
        td = TradesData(np.array(ts[:n], dtype=np.int64), px[:n], np.ones(n), timestamp_unit="ns")
        tdk = td.data.copy()
        feats, out = sut(kit.compute_labels, td)
        pos = [int(evidx(c, stamps)[i]) if c.get("evidx") else int(np.searchsorted(np.array(ts[:n]), stamps[i])) for i in ev]
        ref = reference({"gaps": [c["gaps"][0]] + c["gaps"][1:n], "base": c["base"], "sub": 0, "px": c["px"][:n], "ev": pos, "tgt": [["x", c["tgt"][i]] for i in ev],
                         "lo": c["lo"], "up": c["up"], "vb": c["vb_ms"] / 1000, "mc": c["mc_ms"] / 1000, "min_ret": c["min_ret"]},
                        [c["side"][i] for i in ev] if c["meta"] else None)
        require(len(feats) == len(ev) and [int(x) for x in feats["rowid"]] == ev, lambda: f"rows kept {feats['rowid'].tolist()}, expected {ev}")
        require(feats.index.equals(keep.index[ev]) and out.index.equals(feats.index), "index of the label table")
        require(feats.equals(keep.iloc[ev]), "feature values changed")
        cmp_exact("event_idx", out["event_idx"].values, pos)
        cmp_exact("touch_idx", out["touch_idx"].values, [r[1] for r in ref])
        cmp_exact("labels", out["labels"].values, [r[0] for r in ref])
        cmp_float("returns", out["returns"].values, [r[2] for r in ref])
        cmp_float("vertical_touch_weights", out["vertical_touch_weights"].values, [r[3] for r in ref])
        cmp_exact("touch_time", out["touch_time"].values.astype("datetime64[ns]").astype(np.int64), [ts[r[1]] for r in ref])
        require(kit.labels.equals(out["labels"]) and kit.event_returns.equals(out["returns"]) and kit.full_output.equals(out), "accessors disagree with the label table")
        require(kit.event_count == len(ev) and kit.first_event_timestamp == keep.index[ev[0]] and kit.last_event_timestamp == keep.index[ev[-1]], "event range")
        require(kit.target_returns.tolist() == [c["tgt"][i] for i in ev], "target returns")
        w = sut(kit.compute_weights, td)
        spans = [(p, r[1]) for p, r in zip(pos, ref)]
        lp = log(px[:n])
        con = [sum(a <= j <= b for a, b in spans) for j in range(n)]
        cmp_float("avg_uniqueness", w["avg_uniqueness"].values, [math.fsum(1 / con[j] for j in range(a, b + 1)) / (b - a + 1) for a, b in spans])
        ra = [abs(math.fsum((lp[j] - lp[j - 1]) / con[j] for j in range(max(a, 1), b + 1))) for a, b in spans]
        cmp_float("return_attribution", w["return_attribution"].values, ra, rtol=1e-8, atol=1e-11)
        require(w.index.equals(out.index), "index of the weights")
        if c.get("norm"):
            if len(set(c["px"][:n])) == 1:
                expect_raises(ValueError, kit.compute_weights, td, True)
            elif math.fsum(ra) > 1e-6:
                wn = sut(kit.compute_weights, td, normalized=True)
                cmp_float("normalised return_attribution", wn["return_attribution"].values, [x * len(ra) / math.fsum(ra) for x in ra], rtol=1e-7, atol=1e-7)
                cmp_float("avg_uniqueness (normalised call)", wn["avg_uniqueness"].values, w["avg_uniqueness"].values)
        if len(ev) > 2:
            # weights of a training window (a subset of the labels) use only its own labels
            sub = out.iloc[: len(ev) // 2]
            spans = spans[: len(ev) // 2]
            con = [sum(a <= j <= b for a, b in spans) for j in range(n)]
            w2 = sut(SampleWeights.compute_info_weights, td, sub)
            cmp_float("avg_uniqueness of a subset", w2["avg_uniqueness"].values, [math.fsum(1 / con[j] for j in range(a, b + 1)) / (b - a + 1) for a, b in spans])
        require(td.data.equals(tdk), "the trades were changed")
    require(f.equals(keep) and f.index.equals(keep.index), "the feature table was changed")


def check_reject(c):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.label.kit import SampleWeights, TBMLabel
    idx = pd.date_range("2024-01-01", periods=3, freq="1min")
    f = pd.DataFrame({"vol": [0.1, 0.1, 0.1], "side": [1.0, -1.0, 1.0]}, index=idx)
    vb = pd.Timedelta(seconds=5)
    bad = {"col": (f, "nope", 0.0, (1.0, 1.0), vb), "idx": (f.reset_index(drop=True), "vol", 0.0, (1.0, 1.0), vb), "hb": (f, "vol", 0.0, [1.0, 1.0], vb), "hb3": (f, "vol", 0.0, (1.0, 1.0, 1.0), vb),
           "min": (f, "vol", -0.1, (1.0, 1.0), vb), "nan": (f * math.nan, "vol", 0.0, (1.0, 1.0), vb), "small": (f, "vol", 0.5, (1.0, 2.0), vb)}
    if c in ("trades", "labels"):
        kit = TBMLabel(f, "vol", 0.0, (1.0, 1.0), vb)
        td = TradesData(idx.values.astype("datetime64[ns]").astype(np.int64), np.array([1.0, 2.0, 3.0]), np.ones(3), timestamp_unit="ns")
        if c == "trades":
            expect_raises(ValueError, kit.compute_labels, td.data)
            out = sut(kit.compute_labels, td)[1]
            expect_raises(ValueError, kit.compute_weights, td.data)
            expect_raises(ValueError, SampleWeights.compute_info_weights, td.data, out)
        else:
            expect_raises(ValueError, kit.compute_weights, td)       # no labels computed yet
            out = sut(kit.compute_labels, td)[1]
            for bad in (out["labels"], out.values, out.drop(columns="event_idx"), out.drop(columns="touch_idx")):
                expect_raises(ValueError, SampleWeights.compute_info_weights, td, bad)
    elif c == "meta":
        expect_raises(ValueError, TBMLabel, f.drop(columns="side"), "vol", 0.0, (1.0, 1.0), vb, is_meta=True)
        expect_raises(ValueError, TBMLabel, f, "vol", 0.0, (1.0, 1.0), vb, is_meta=True)
    else:
        expect_raises(ValueError, TBMLabel, *bad[c])


def labels(c):
    yield "days" if c.get("k", 1) > 1 else "seconds"
    c = stretch(c)
    ts, stamps = setup(c)
    kept, ev = expected(c, ts, stamps, ts[-1])
    yield "meta" if c["meta"] else "side"
    yield f"unit:{c['unit']}"
    if c.get("evidx"):
        yield "positions-given"
    if len(kept) < len(stamps):
        yield "rows-filtered"
    if len(ev) < len(kept):
        yield "trailing-rows-dropped"
    if len(set(stamps)) < len(stamps):
        yield "equal-stamps"
    if any(stamps[i] not in ts for i in ev):
        yield "event-between-trades"


def nontrivial(c):
    c = stretch(c)
    ts, stamps = setup(c)
    ev = expected(c, ts, stamps, ts[-1])[1]
    return len(ev) > 1 and (len(ev) < len(stamps) or any(stamps[i] not in ts for i in ev))


FACETS = [
    Facet("table", case(), check, quick=900, thorough=20000, jit_quick=500, classify=labels, nontrivial=nontrivial),
    Facet("rejects", st.sampled_from(["col", "idx", "hb", "hb3", "min", "nan", "small", "meta", "trades", "labels"]), check_reject, quick=40, thorough=40, jit=False),
]
JIT_WORKERS = 1
NOJIT_WORKERS = 6
