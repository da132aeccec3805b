"""P12 - trade-size features."""
import numpy as np
from hypothesis import strategies as st

from props.p10 import case, kit_case, make_kit, nontriv
from vlib.bars import TRADE_SIZE, arrays, make_td, ref_trade_size
from vlib.core import Facet, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import bulk, bulk_closes, bulk_rows

PROPERTY = "P12"
RULE = "a case counts if it has at least two bars, one of which is empty, or holds a single trade, or ten or more trades"
ASSUMPTIONS = ["the reference size of the mean and 95th percentile is the block threshold (reference size x multiplier), as the maintainers' tests fix it",
               "features are reported in single precision (1e-5)"]
MULTS = [5.0, 1.0, 2.5, 0.5]


def compare(get, am, theta, closes, mult):
    ref = np.array(ref_trade_size(am, theta, closes, mult), dtype=np.float64).reshape(-1, 4)
    for k, name in enumerate(TRADE_SIZE):
        cmp_float(name, get(k, name), ref[:, k], rtol=1e-5, atol=2e-6)


@st.composite
def tcase(draw):
    c = draw(case())
    nb = len(c["closes"]) - 1
    c["theta"] = draw(st.lists(st.sampled_from([0, 1, 2, 4, 8, 16, 64, 200]), min_size=nb, max_size=nb))
    c["mult"] = draw(st.sampled_from(MULTS))
    return c


def check(c):
    from finmlkit.bar.base import comp_bar_trade_size_features
    ts, px, am, sd = arrays(c)
    if c["f64"]:
        am = am.astype(np.float64)
    th = np.array(c["theta"], dtype=np.float64) / 16
    out = sut(comp_bar_trade_size_features, am, th, np.array(c["closes"], dtype=np.int64), c["mult"])
    compare(lambda k, n: out[k], am, th, c["closes"], c["mult"])
    for k in (2, 3):
        x = out[k][~np.isnan(out[k])]
        require(((x >= -1e-6) & (x <= 1 + 1e-6)).all(), f"{TRADE_SIZE[k]} outside [0, 1]")
    expect_raises(ValueError, comp_bar_trade_size_features, am, np.append(th, 1.0), np.array(c["closes"], dtype=np.int64), c["mult"])


@st.composite
def kcase(draw):
    c = draw(kit_case())
    c["theta"] = draw(st.lists(st.sampled_from([0, 1, 4, 16, 64]), min_size=60, max_size=60))
    c["mult"] = draw(st.sampled_from(MULTS))
    return c


def check_kit(c):
    ts, px, am, sd = arrays(c)
    kit = make_kit(c, make_td(ts, px, am, sd))
    ix = [int(x) for x in sut(lambda: kit.bar_close_indices)]
    if not ix:
        return
    first = 0
    if c["kit"] == "time":
        iv = c["k"] * 600 * 10 ** 9
        first = int(np.searchsorted(ts, ts[0] // iv * iv, side="right")) - 1
    th = np.resize(np.array(c["theta"], dtype=np.float64) / 16, len(ix))
    df = sut(kit.build_trade_size_features, th, c["mult"])
    require(sorted(df.columns) == sorted(TRADE_SIZE), lambda: f"columns {list(df.columns)}")
    compare(lambda k, n: df[n].values, am, th, [first] + ix, c["mult"])
    cmp_exact("index", df.index.values.astype("datetime64[ns]").astype(np.int64), np.asarray(kit.bar_close_timestamps))
    # the default multiplier
    d2 = sut(kit.build_trade_size_features, th)
    compare(lambda k, n: d2[n].values, am, th, [first] + ix, 5.0)


def labels(c):
    d = np.diff(c["closes"])
    if (d == 0).any():
        yield "empty bar"
    if (d == 1).any():
        yield "single-trade bar"
    if 0 in c["theta"]:
        yield "zero reference size"
    if any(r[2] / 64 == t / 16 * c["mult"] for r in c["rows"] for t in set(c["theta"])):
        yield "trade exactly at the threshold"


FACETS = [
    Facet("kernel", tcase(), check, quick=1600, thorough=50000, jit_quick=1200, jit_thorough=25000, classify=labels, nontrivial=nontriv),
    Facet("kits", kcase(), check_kit, quick=500, thorough=12000, jit_quick=200, jit_thorough=4000, classify=lambda c: [c["kit"]],
          nontrivial=lambda c: len(c["rows"]) > 4),
]
JIT_WORKERS = 2


def big(r, n, c):
    cl = bulk_closes(r, n)
    return {"rows": bulk_rows(r, n), "closes": cl, "base": 1_700_000_000, "tick": 0.5, "f64": r.random() < 0.5,
            "theta": [r.choice((0, 1, 8, 16, 64, 200)) for _ in cl[1:]], "mult": r.choice(MULTS)}


FACETS.append(bulk(FACETS[0], big, 120, 2500))
