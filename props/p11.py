"""P11 - order-flow (directional) features."""
import numpy as np
from hypothesis import strategies as st

from props.p10 import case, kit_case, make_kit, nontriv
from vlib.bars import DIRECTIONAL, arrays, make_td, ref_directional
from vlib.core import Facet, cmp_exact, cmp_float, require, sut
from vlib.gen import bulk, bulk_closes, bulk_rows

PROPERTY = "P11"
RULE = "a case counts if it has at least two bars, one of which is empty, or holds a single trade, or ten or more trades"
ASSUMPTIONS = ["sides are -1, 1, or 0 for unknown (the tick rule leaves the leading trades unknown)",
               "features are reported in single precision: sums are compared to 1e-5 of the bar's gross flow"]


def atol_for(px, am, closes):
    v, d = [], []
    for a, b in zip(closes, closes[1:]):
        x = am[a + 1:b + 1].astype(float)
        v.append(x.sum())
        d.append((x * px[a + 1:b + 1]).sum())
    return np.array(v), np.array(d)


def compare(get, px, am, closes, sd):
    ref = np.array(ref_directional(px, am, closes, sd), dtype=np.float64).reshape(-1, 14)
    V, D = atol_for(px, am, closes)
    for k, name in enumerate(DIRECTIONAL):
        g = get(k, name)
        if "ticks" in name:
            cmp_exact(name, np.asarray(g).astype(np.int64), ref[:, k].astype(np.int64))
        else:
            scale = V if "volume" in name else D if "dollars" in name else 0
            cmp_float(name, g, ref[:, k], rtol=1e-5, atol=1e-5 * scale + 1e-7)
    return ref


def check(c):
    from finmlkit.bar.base import comp_bar_directional_features
    ts, px, am, sd = arrays(c)
    if c["f64"]:
        am = am.astype(np.float64)
    if c.get("big"):
        am = am * np.float32(2.0 ** 20)
    cl = np.array(c["closes"], dtype=np.int64)
    out = sut(comp_bar_directional_features, px, am, cl, sd)
    compare(lambda k, name: out[k], px, am, c["closes"], sd)
    nz = [int((sd[a + 1:b + 1] != 0).sum()) for a, b in zip(c["closes"], c["closes"][1:])]
    cmp_exact("ticks_buy + ticks_sell", out[0] + out[1], np.array(nz))


@st.composite
def dcase(draw):
    c = draw(case(sides=draw(st.sampled_from([(-1, 1), (-1, 1), (1, -1, 0), (1, 1, 1, -1)]))))
    c["big"] = draw(st.sampled_from([False, False, True]))
    return c


def check_kit(c):
    ts, px, am, sd = arrays(c)
    kit = make_kit(c, make_td(ts, px, am, sd))
    ix = [int(x) for x in sut(lambda: kit.bar_close_indices)]
    if not ix:
        return
    first = 0
    if c["kit"] == "time":
        iv = c["k"] * 600 * 10 ** 9
        first = int(np.searchsorted(ts, ts[0] // iv * iv, side="right")) - 1
    df = sut(kit.build_directional_features)
    require(sorted(df.columns) == sorted(DIRECTIONAL), lambda: f"columns {list(df.columns)}")
    compare(lambda k, name: df[name].values, px, am, [first] + ix, sd)
    cmp_exact("index", df.index.values.astype("datetime64[ns]").astype(np.int64), np.asarray(kit.bar_close_timestamps))


def labels(c):
    d = np.diff(c["closes"])
    if (d == 0).any():
        yield "empty bar"
    if (d == 1).any():
        yield "single-trade bar"
    if c["closes"][0] == -1:
        yield "first bar holds trade 0"
    s = {r[3] for r in c["rows"]}
    yield "one-sided" if len(s) == 1 else "two-sided"
    if 0 in s:
        yield "unknown sides"
    if c.get("big"):
        yield "flows beyond 1e9 possible"


FACETS = [
    Facet("kernel", dcase(), check, quick=1600, thorough=50000, jit_quick=1500, jit_thorough=30000, classify=labels, nontrivial=nontriv,
          examples=[{"rows": [[0, 10, 64, 1], [1, 12, 64, -1], [1, 14, 64, -1]], "closes": [-1, 0, 0, 2], "base": 1_700_000_000, "tick": 0.5, "f64": False,
                     "big": False}]),
    Facet("kits", kit_case(), check_kit, quick=500, thorough=12000, jit_quick=250, jit_thorough=5000, classify=lambda c: [c["kit"]],
          nontrivial=lambda c: len(c["rows"]) > 4),
]
JIT_WORKERS = 2


def big(r, n, c):
    return {"rows": bulk_rows(r, n, sides=r.choice(((-1, 1), (1, 1, 1, -1), (1, 0, -1), (1,))), hi=r.choice((4, 40, 4000))), "closes": bulk_closes(r, n), "base": 1_700_000_000,
            "tick": 0.5, "f64": r.random() < 0.5}


FACETS.append(bulk(FACETS[0], big, 160, 3000))
