"""HDF5 store helpers: scratch files, trade batches and an in-memory model of the monthly trade store."""
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.gen import DAY, NS

warnings.filterwarnings("ignore")
MONTHS = ["2023-12", "2024-01", "2024-02", "2024-03"]


def month_bounds(m):
    s = pd.Timestamp(m + "-01")
    return s.value, (s + pd.offsets.MonthBegin(1)).value          # [start, end)


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="h5-", dir=os.environ.get("VERIF_SCRATCH"))
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


@st.composite
def batch(draw, months=MONTHS, max_n=9, gaps=True):
    """One batch of trades of a month: offsets from the month's start or end, ids with gaps."""
    m = draw(st.sampled_from(months))
    lo, hi = month_bounds(m)
    anchor = draw(st.sampled_from(["start", "mid", "end"]))
    n = draw(st.integers(1, max_n))
    steps = [draw(st.sampled_from([0, 0, 1, 1000, NS["ms"], NS["s"], 59 * NS["s"], 60 * NS["s"], 61 * NS["s"], 3600 * NS["s"], DAY])) for _ in range(n)]
    first = draw(st.sampled_from([0, 0, 1, NS["s"], 90 * NS["s"]]))
    offs, t = [], first
    for i, s in enumerate(steps):
        t += s if i else 0
        offs.append(t)
    if anchor == "start":
        ts = [lo + o for o in offs]
    elif anchor == "end":
        ts = [hi - 1 - (offs[-1] - o) for o in offs]
    else:
        ts = [lo + 10 * DAY + o for o in offs]
    ids, k = [], draw(st.integers(1, 50))
    for i in range(n):
        k += (draw(st.sampled_from([1, 1, 1, 2, 5, 100])) if gaps else 1) if i else 0
        ids.append(k)
    if draw(st.integers(0, 5)) == 0 and n > 1:
        ids[draw(st.integers(1, n - 1))] = ids[0]                 # a duplicated id
    return {"month": m, "ts": ts, "ids": ids, "px": [draw(st.integers(90, 99)) for _ in range(n)], "qty": [draw(st.integers(1, 40)) for _ in range(n)],
            "sell": draw(st.lists(st.booleans(), min_size=n, max_size=n))}


def trades(b, layout):
    from finmlkit.bar.data_model import TradesData
    ts, px, q = np.array(b["ts"], dtype=np.int64), np.array(b["px"], dtype=np.float64) / 4, np.array(b["qty"], dtype=np.float64) / 64
    ids, sell = np.array(b["ids"], dtype=np.int64), np.array(b["sell"])
    if layout == "pre":
        return TradesData(ts, px, q, ids, is_buyer_maker=sell, preprocess=True, timestamp_unit="ns", name="b")
    return TradesData(ts, px, q, ids, side=np.where(sell, -1, 1).astype(np.int8), timestamp_unit="ns", name="b")


def rows(df):
    """Rows of a trades frame as tuples, including the datetime index."""
    return [(int(t), float(p), float(a), int(s), int(i)) for t, p, a, s, i in
            zip(df["timestamp"].values, df["price"].values, df["amount"].values, df["side"].values, df.index.values.astype("datetime64[ns]").astype(np.int64))]
