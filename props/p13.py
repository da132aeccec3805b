"""P13 - footprints."""
import math

import numpy as np
from hypothesis import strategies as st

from props.p10 import boundaries, kit_case, make_kit
from vlib.bars import arrays, make_td
from vlib.core import Facet, cmp_exact, cmp_float, require, sut
from vlib.gen import bulk, bulk_closes, bulk_rows, trade_rows

PROPERTY = "P13"
RULE = "a case counts if some bar spans at least three price levels and has trades on both sides"
ASSUMPTIONS = ["prices lie on the tick grid; amounts are multiples of 1/64 and imbalance factors multiples of 1/4, so imbalance comparisons are exact",
               "the volume-profile skew is only required to be the stated formula (a weighted mean deviation, hence about zero)"]
TICKS = [0.5, 0.25, 1.0, 0.01, 0.1, 1e-5, 5.0]


@st.composite
def case(draw):
    rows = draw(trade_rows(1, 60, sides=draw(st.sampled_from([(-1, 1), (-1, 1), (1, 1, -1), (-1, 1, 0)])), price_lo=draw(st.sampled_from([1, 1000])),
                           price_hi=draw(st.sampled_from([1004, 1012, 1040])), amt_hi=640) if draw(st.booleans()) else
                trade_rows(1, 60, sides=(-1, 1), price_lo=1, price_hi=draw(st.sampled_from([3, 8, 30])), walk=draw(st.booleans())))
    return {"rows": rows, "closes": draw(boundaries(len(rows))), "base": 1_700_000_000, "tick": draw(st.sampled_from(TICKS)),
            "factor": draw(st.sampled_from([3.0, 1.0, 2.0, 1.25, 0.5])), "f64": draw(st.booleans())}


def ref_bar(levels, bv, sv, factor):
    n = len(levels)
    bi = [i > 0 and bv[i] > sv[i - 1] * factor for i in range(n)]
    si = [i < n - 1 and sv[i] > bv[i + 1] * factor for i in range(n)]
    best, sign, run, cur = 0, 0, 0, 0
    for i in range(n):
        s = 1 if bi[i] else -1 if si[i] else 0
        run = run + 1 if s and s == cur else (1 if s else 0)
        cur = s
        if run > best:
            best, sign = run, s
    tot = [a + b for a, b in zip(bv, sv)]
    T = math.fsum(tot)
    gini = 1 - math.fsum((x / T) ** 2 for x in tot) if T > 0 else 0.0
    return bi, si, best * sign, levels[tot.index(max(tot))], gini


def ref(c):
    """per bar: levels, buy vol, sell vol, buy ticks, sell ticks, buy imb, sell imb, run, cot, gini"""
    r, out = c["rows"], []
    for a, b in zip(c["closes"], c["closes"][1:]):
        tr = r[a + 1:b + 1]
        lv = [x[1] for x in tr] or [r[b][1]]
        levels = list(range(min(lv), max(lv) + 1))
        z = {s: ([0.0] * len(levels), [0] * len(levels)) for s in (1, -1)}
        for _, p, am, s in tr:
            if s:
                z[s][0][p - levels[0]] += am / 64
                z[s][1][p - levels[0]] += 1
        out.append((levels, z[1][0], z[-1][0], z[1][1], z[-1][1]) + ref_bar(levels, z[1][0], z[-1][0], c["factor"]))
    return out


def compare(c, R, pl, bv, sv, bt, st_, bi, si, bs, ss, cot, run, skew, gini):
    require(len(pl) == len(R), lambda: f"{len(pl)} footprints, expected {len(R)}")
    for i, (lv, b, s, nb, ns, ib, is_, rn, ct, g) in enumerate(R):
        x = f"(bar {i})"
        cmp_exact("price levels", np.asarray(pl[i]).astype(np.int64), lv, x)
        cmp_float("buy volumes", bv[i], b, rtol=2e-6, ctx=x)
        cmp_float("sell volumes", sv[i], s, rtol=2e-6, ctx=x)
        cmp_exact("buy ticks", np.asarray(bt[i]).astype(int), nb, x)
        cmp_exact("sell ticks", np.asarray(st_[i]).astype(int), ns, x)
        cmp_exact("buy imbalances", np.asarray(bi[i]).astype(bool), ib, x)
        cmp_exact("sell imbalances", np.asarray(si[i]).astype(bool), is_, x)
        require(int(bs[i]) == sum(ib), lambda: f"buy imbalance sum {bs[i]}, expected {sum(ib)} {x}")
        require(int(ss[i]) == sum(is_), lambda: f"sell imbalance sum {ss[i]}, expected {sum(is_)} {x}")
        require(int(cot[i]) == ct, lambda: f"controlling level {cot[i]}, expected {ct} {x}")
        require(int(run[i]) == rn, lambda: f"longest imbalance run {run[i]}, expected {rn} {x}")
        require(abs(float(gini[i]) - g) <= 1e-5, lambda: f"volume profile concentration {gini[i]}, expected {g} {x}")
        require(abs(float(skew[i])) <= 1e-5 * (lv[-1] - lv[0] + 1) + 1e-6 * lv[-1], lambda: f"volume profile skew {skew[i]} {x}")


def check(c):
    from finmlkit.bar.base import comp_bar_footprints
    ts, px, am, sd = arrays(c)
    if c["f64"]:
        am = am.astype(np.float64)
    R = ref(c)
    lo = np.array([r[0][0] * c["tick"] for r in R])
    hi = np.array([r[0][-1] * c["tick"] for r in R])
    out = sut(comp_bar_footprints, px, am, np.array(c["closes"], dtype=np.int64), sd, c["tick"], lo, hi, c["factor"])
    compare(c, R, *out)


@st.composite
def kcase(draw):
    c = draw(kit_case())
    c["factor"] = draw(st.sampled_from([3.0, 1.5, None]))
    c["given"] = draw(st.booleans())
    return c


def check_kit(c):
    from finmlkit.bar.data_model import FootprintData
    ts, px, am, sd = arrays(c)
    p = sorted({r[1] for r in c["rows"]})
    g = math.gcd(*[b - a for a, b in zip(p, p[1:])]) if len(p) > 1 else 0
    given = c["given"] or g != 1        # the inferred tick is P15's business: infer only where it is the grid step
    kit = make_kit(c, make_td(ts, px, am, sd))
    ix = [int(x) for x in sut(lambda: kit.bar_close_indices)]
    if not ix:
        return
    first = 0
    if c["kit"] == "time":
        iv = c["k"] * 600 * 10 ** 9
        first = int(np.searchsorted(ts, ts[0] // iv * iv, side="right")) - 1
    kw = {} if c["factor"] is None else {"imbalance_factor": c["factor"]}
    fp = sut(kit.build_footprints, **({"price_tick_size": 0.5} if given else {}), **kw)
    require(isinstance(fp, FootprintData) and len(fp) == len(ix), "footprint length")
    require(abs(fp.price_tick - 0.5) < 1e-9, lambda: f"price tick {fp.price_tick}")
    cc = {"rows": c["rows"], "closes": [first] + ix, "factor": c["factor"] or 3.0}
    compare(cc, ref(cc), fp.price_levels, fp.buy_volumes, fp.sell_volumes, fp.buy_ticks, fp.sell_ticks, fp.buy_imbalances, fp.sell_imbalances,
            fp.buy_imbalances_sum, fp.sell_imbalances_sum, fp.cot_price_levels, fp.imb_max_run_signed, fp.vp_skew, fp.vp_gini)
    cmp_exact("bar stamps", fp.bar_timestamps, np.asarray(kit.bar_close_timestamps))
    # totals over levels equal the bar totals
    df = sut(kit.build_ohlcv)
    tot = [float(np.sum(a)) + float(np.sum(b)) for a, b in zip(fp.buy_volumes, fp.sell_volumes)]
    cmp_float("footprint volume", tot, df["volume"].values, rtol=1e-5)


def labels(c):
    R = ref(c)
    if any(len(r[0]) == 1 for r in R):
        yield "one level"
    if any(len(r[0]) >= 3 for r in R):
        yield "three levels or more"
    if any(r[7] > 1 for r in R):
        yield "buy run of two or more"
    if any(r[7] < -1 for r in R):
        yield "sell run of two or more"
    if any(sum(r[5]) for r in R) and any(sum(r[6]) for r in R):
        yield "imbalances on both sides"
    if (np.diff(c["closes"]) == 0).any():
        yield "empty bar"


def nontriv(c):
    return any(len(r[0]) >= 3 and sum(r[3]) and sum(r[4]) for r in ref(c))


FACETS = [
    Facet("kernel", case(), check, quick=1500, thorough=40000, jit_quick=1500, jit_thorough=30000, classify=labels, nontrivial=nontriv),
    Facet("kits", kcase(), check_kit, quick=400, thorough=10000, jit_quick=250, jit_thorough=4000, classify=lambda c: [c["kit"]],
          nontrivial=lambda c: len(c["rows"]) > 6),
]
JIT_WORKERS = 2


def big(r, n, c):
    lo = r.choice((1, 1000, 10_000_007, 100_000_003))
    tick = r.choice(TICKS if lo < 10 ** 8 else (0.01, 0.1, 1e-5))
    return {"rows": bulk_rows(r, n, sides=r.choice(((-1, 1), (1, 1, -1), (1, 0, -1))), lo=lo, hi=lo + r.choice((3, 12, 60, 400))), "closes": bulk_closes(r, n), "base": 1_700_000_000,
            "tick": tick, "factor": r.choice((3.0, 1.0, 1.25)), "f64": r.random() < 0.5}


FACETS.append(bulk(FACETS[0], big, 120, 2500, sizes=(5, 120, 700)))


# ---------------------------------------------------------------- bars of very many trades, bars over very many levels

def check_busy(c):
    import random
    from finmlkit.bar.base import comp_bar_footprints, comp_bar_ohlcv
    r, n = random.Random(c["seed"]), c["n"]
    px, t, k = [], c["tick"], r.randint(1, 4)
    side = [r.choice((1, -1)) for _ in range(n)]
    lev = [r.randint(1000, 999 + k) for _ in range(n)]
    amt = np.array([c["unit"] * r.choice((1, 1, r.randint(1, 50))) for _ in range(n)], dtype=np.float32)
    px = np.array([x * t for x in lev])
    closes = [-1, n - 1] if c["one"] else [-1, n // 3, n - 1]
    lo = [min(lev[a + 1:b + 1]) for a, b in zip(closes, closes[1:])]
    hi = [max(lev[a + 1:b + 1]) for a, b in zip(closes, closes[1:])]
    cl = np.array(closes, dtype=np.int64)
    out = sut(comp_bar_footprints, px, amt, cl, np.array(side, dtype=np.int8), t, np.array(lo) * t, np.array(hi) * t, 3.0)
    vol = sut(comp_bar_ohlcv, px, amt.astype(np.float64), cl)[4]
    for i, (a, b) in enumerate(zip(closes, closes[1:])):
        cmp_exact("price levels", np.asarray(out[0][i]).astype(np.int64), list(range(lo[i], hi[i] + 1)))
        for s, v, tk in ((1, out[1][i], out[3][i]), (-1, out[2][i], out[4][i])):
            sel = [[float(amt[j]) for j in range(a + 1, b + 1) if side[j] == s and lev[j] == p] for p in range(lo[i], hi[i] + 1)]
            cmp_float(f"volume of side {s} per level, bar {i}", v, [math.fsum(x) for x in sel], rtol=2e-7)
            cmp_exact(f"ticks of side {s} per level, bar {i}", np.asarray(tk).astype(int), [len(x) for x in sel])
        cmp_float(f"footprint volume against bar volume, bar {i}", [math.fsum(map(float, out[1][i])) + math.fsum(map(float, out[2][i]))], [float(vol[i])], rtol=4e-7)


def check_wide(c):
    from finmlkit.bar.base import comp_bar_footprints
    n, s = c["n"], c["side"]
    lev = np.arange(c["p0"], c["p0"] + n, dtype=np.int64)
    side = np.full(n, s, dtype=np.int8)
    side[::c["brk"]] = -s                                  # runs of one side only
    closes = np.array([-1, n - 1], dtype=np.int64)
    t = c["tick"]
    out = sut(comp_bar_footprints, lev * t, np.ones(n, dtype=np.float32), closes, side, t, lev[:1] * t, lev[-1:] * t, 3.0)
    b, x = (side == 1).astype(float), (side == -1).astype(float)
    bi, si = np.zeros(n, bool), np.zeros(n, bool)
    bi[1:] = b[1:] > x[:-1] * 3.0
    si[:-1] = x[:-1] > b[1:] * 3.0
    cmp_exact("price levels", np.asarray(out[0][0]).astype(np.int64), lev)
    cmp_exact("buy imbalances", np.asarray(out[5][0]).astype(bool), bi)
    cmp_exact("sell imbalances", np.asarray(out[6][0]).astype(bool), si)
    require(int(out[7][0]) == bi.sum(), lambda: f"buy imbalance sum {out[7][0]}, expected {bi.sum()} (of {n} levels)")
    require(int(out[8][0]) == si.sum(), lambda: f"sell imbalance sum {out[8][0]}, expected {si.sum()} (of {n} levels)")
    best = sign = run = cur = 0
    for u, v in zip(bi.tolist(), si.tolist()):
        k = 1 if u else -1 if v else 0
        run = run + 1 if k and k == cur else (1 if k else 0)
        cur = k
        if run > best:
            best, sign = run, k
    require(int(out[10][0]) == best * sign, lambda: f"longest imbalance run {out[10][0]}, expected {best * sign}")


WIDE = {"n": st.integers(300, 90_000), "side": st.sampled_from([1, -1]), "brk": st.sampled_from([7, 500, 30_000]), "p0": st.sampled_from([1, 50_000]), "tick": st.sampled_from([0.01, 0.5, 1e-8])}
FACETS += [
    Facet("busy", st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32 - 1), "n": st.one_of(st.integers(1, 500), st.integers(500, 30_000)), "unit": st.sampled_from([0.1, 0.001, 1 / 64]),
                                         "tick": st.sampled_from([0.01, 0.0001]), "one": st.booleans()}).filter(lambda c: c["n"] > 3), check_busy, quick=40, thorough=600,
          nontrivial=lambda c: c["n"] > 500, classify=lambda c: [f"size up to {10 ** len(str(c['n']))}"]),
    Facet("wide", st.fixed_dictionaries(WIDE), check_wide, quick=16, thorough=200, nontrivial=lambda c: c["n"] > 1000,
          classify=lambda c: ["more than 65536 levels" if c["n"] > 65536 else "fewer"], examples=[{"n": 90_000, "side": s, "brk": 500, "p0": 1, "tick": 0.01} for s in (1, -1)]),
]
KNOWN = {"P13-int16-run": lambda f, c, m: f == "wide" and c["brk"] == 10 ** 6 and (m.startswith("longest imbalance run") or "out of bounds for int16" in m)}
next(f for f in FACETS if f.name == "wide").examples.append({"n": 40_000, "side": 1, "brk": 10 ** 6, "p0": 1, "tick": 0.01})
