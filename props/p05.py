"""P05 - store metadata, statistics, integrity information and gap listing against the model of what was stored."""
import contextlib
import io
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.core import Facet, cmp_float, expect_raises, require, sut
from vlib.gen import NS
from vlib.store import MONTHS, Scratch, batch, rows, trades

PROPERTY = "P05"
RULE = "a case counts if the history saves two batches or more and at least one batch has missing or duplicated ids or a discontinuity"
ASSUMPTIONS = ["the id gap between two separately saved batches is unknown to the store (ids are not stored)",
               "after appending, the missing percentage is some average of the batches' percentages (the documentation gives no formula): it lies between their minimum and maximum"]


@st.composite
def case(draw, gaps=False):
    months = draw(st.sampled_from([MONTHS[:2], MONTHS[1:2], MONTHS]))
    saves = draw(st.lists(st.fixed_dictionaries({"batch": batch(months=months), "ow": st.booleans(), "key": st.sampled_from([None, None, None, "2024-01"])}),
                          min_size=1, max_size=3 if gaps else 6))
    return {"layout": draw(st.sampled_from(["pre", "pre", "pre", "raw"])), "saves": saves, "gap_s": draw(st.sampled_from([60, 60, 1, 59, 0, 3600, 86400])),
            "every": draw(st.booleans())}


def unknown(v):
    return v is None or (isinstance(v, float) and np.isnan(v))


def verify(path, model, c):
    from finmlkit.bar.io import H5Inspector
    insp = H5Inspector(path)
    require(sut(insp.list_keys) == [f"/trades/{m}" for m in sorted(model)], lambda: f"list_keys {insp.list_keys()} for months {sorted(model)}")
    bad = []
    for m, bs in model.items():
        key = f"/trades/{m}"
        r = [x for b in bs for x in b["rows"]]
        meta = sut(insp.get_metadata, key)
        require(int(meta["record_count"]) == len(r), lambda: f"{m}: record_count {meta['record_count']}, stored {len(r)}")
        require(int(meta["first_timestamp"]) == min(x[0] for x in r), lambda: f"{m}: first_timestamp {meta['first_timestamp']}, stored {min(x[0] for x in r)}")
        require(int(meta["last_timestamp"]) == max(x[0] for x in r), lambda: f"{m}: last_timestamp {meta['last_timestamp']}, stored {max(x[0] for x in r)}")
        oks = [b["ok"] for b in bs]
        ok = False if any(o is False for o in oks) else None if any(o is None for o in oks) else True
        g = meta["data_integrity_ok"]
        require(unknown(g) if ok is None else (not unknown(g) and bool(g) == ok), lambda: f"{m}: data_integrity_ok {g!r}, batches {oks}")
        pcts = [b["pct"] for b in bs]
        require(min(pcts) - 1e-9 <= meta["missing_pct"] <= max(pcts) + 1e-9, lambda: f"{m}: missing_pct {meta['missing_pct']}, batches {pcts}")
        disc = [x for b in bs for x in b["disc"]]
        info = sut(insp.get_integrity_info, key)

        def same(info, disc, what):
            require((info is None or len(info) == 0) if not disc else (info is not None and len(info) == len(disc)),
                    lambda: f"{m}: {what} lists {0 if info is None else len(info)} discontinuities, expected {len(disc)}")
            if disc:
                got = [(int(a), int(b), int(n), pd.Timestamp(p).value, pd.Timestamp(q).value, pd.Timedelta(t).value) for a, b, n, p, q, t in
                       zip(info["start_id"], info["end_id"], info["missing_ids"], info["pre_gap_time_str"], info["post_gap_time_str"], info["time_interval_str"])]
                require(sorted(got) == sorted(disc), lambda: f"{m}: {what} lists {got}, expected {disc}")

        same(info, disc, "integrity info")
        if ok is False:
            bad.append((m, meta, disc, same))
        s = sut(insp.get_statistics, key)
        require(s["record_count"] == len(r) and s["first_timestamp"] == min(x[0] for x in r) and s["last_timestamp"] == max(x[0] for x in r), f"{m}: statistics {s}")
        cmp_float(f"{m}: price range", s["price_range"], [min(x[1] for x in r), max(x[1] for x in r)], rtol=1e-7)
        cmp_float(f"{m}: amount range", s["amount_range"], [min(x[2] for x in r), max(x[2] for x in r)], rtol=1e-7)
    for verbose in (False, True):
        with contextlib.redirect_stdout(io.StringIO()):
            summ = sut(insp.get_integrity_summary, verbose=verbose)
        if not bad:
            require(not summ, lambda: f"integrity summary {list(summ)} although nothing failed")
        else:
            require(summ is not None and sorted(summ) == sorted(b[0] for b in bad), lambda: f"integrity summary names {summ and sorted(summ)}, expected {[b[0] for b in bad]}")
            for m, meta, disc, same in bad:
                require(summ[m]["key"] == f"/trades/{m}", "summary key")
                require(summ[m]["metadata"] == meta, "summary metadata differs from get_metadata")
                same(summ[m]["discontinuities"], disc, "summary")
    for f in (insp.get_metadata, insp.get_integrity_info, insp.get_statistics):
        expect_raises(KeyError, f, "/trades/1999-01")


def check(c, gaps=False):
    from finmlkit.bar.io import H5Inspector
    model = {}
    with Scratch() as d:
        path = os.path.join(d, "t.h5")
        for i, op in enumerate(c["saves"]):
            td = trades(op["batch"], c["layout"])
            ent = {"rows": rows(td.data), "ok": td.data_ok, "pct": float(td.missing_pct),
                   "disc": [(int(x["start_id"]), int(x["end_id"]), int(x["missing_ids"]), x["pre_gap_time"].value, x["post_gap_time"].value, x["time_interval"].value)
                            for x in td.discontinuities]}
            sut(td.save_h5, path, month_key=op["key"], overwrite_month=op["ow"])
            m = op["key"] or op["batch"]["month"]
            model[m] = (model.get(m, []) if not op["ow"] else []) + [ent]
            if c["every"] and not gaps:
                verify(path, model, c)
        if not gaps:
            verify(path, model, c)
            return
        gap = pd.Timedelta(seconds=c["gap_s"])
        got = sut(H5Inspector(path).inspect_gaps, max_gap=gap, processes=2)
        require(sorted(got) == [f"/trades/{m}" for m in sorted(model)], lambda: f"gap listing covers {sorted(got)}")
        for m, bs in model.items():
            r = [x[0] for b in bs for x in b["rows"]]
            exp = [(b, b - a) for a, b in zip(r, r[1:]) if b - a > c["gap_s"] * NS["s"]]
            g = [(pd.Timestamp(t).value, pd.Timedelta(x).value) for t, x in got[f"/trades/{m}"]]
            require(g == exp, lambda: f"{m}: gaps {g}, expected {exp}")


def labels(c):
    ms = [s["key"] or s["batch"]["month"] for s in c["saves"]]
    yield f"saves:{len(ms)}"
    if len(set(ms)) > 1:
        yield "several-months"
    if any(not s["ow"] and m in ms[:i] for i, (s, m) in enumerate(zip(c["saves"], ms))):
        yield "append"
    if any(s["ow"] and m in ms[:i] for i, (s, m) in enumerate(zip(c["saves"], ms))):
        yield "overwrite"
    if any(defective(s["batch"]) for s in c["saves"]):
        yield "defective-batch"


def defective(b):
    return len(set(b["ids"])) < len(b["ids"]) or max(b["ids"]) - min(b["ids"]) + 1 > len(b["ids"])


def nontrivial(c):
    return len(c["saves"]) > 1 and any(defective(s["batch"]) for s in c["saves"])


FACETS = [
    Facet("history", case(), check, quick=500, thorough=8000, jit=False, classify=labels, nontrivial=nontrivial),
    Facet("gaps", case(gaps=True), lambda c: check(c, True), quick=80, thorough=1200, jit=False, classify=labels, nontrivial=nontrivial),
]
