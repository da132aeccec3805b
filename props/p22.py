"""P22 - rolling and developing volume profiles against an integer reference model of the window's profile."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.bars import arrays, make_td
from vlib.core import Facet, Skip, cmp_exact, cmp_float, require, sut
from vlib.gen import NS, bulk, bulk_rows, trade_rows

PROPERTY = "P22"
RULE = "a case counts if at least one bar has a full look-back window that holds two or more bars and three or more price levels with volume"
ASSUMPTIONS = ["bar stamps are strictly increasing; every bar's footprint spans its low to its high, as the footprint builder produces it",
               "a bar has a value once a full look-back has passed since the first bar of the table (the first bars are NaN)",
               "with a bucket count n, buckets are max(1, range // n) ticks wide, widened to the next odd number, start at the window's low and are reported by their middle level",
               "the value area grows from the point of control by pairs of levels, the heavier pair first and both on a tie, until it holds the share"]


# ------------------------------------------------------------------------------------------------ reference model (integers: volumes in 1/64)

def buckets(prof, lo, hi, n_bins):
    """prof {level: volume} on lo..hi -> [(reported level, volume)]"""
    if n_bins is None:
        return [(p, prof.get(p, 0)) for p in range(lo, hi + 1)]
    w = max(1, (hi - lo) // n_bins)
    w += 1 - w % 2
    out, e = [], lo
    while e <= hi:
        top = e + w
        if e == hi and (e > lo or w == 1):                # a last bucket of the top level alone
            out.append((hi, prof.get(hi, 0)))
            break
        out.append(((e + top - 1) // 2, sum(prof.get(p, 0) for p in range(e, top))))
        e = top
    return out


def value_area(levels, pct):
    """exact model; second result: the set of acceptable points of control (ties)"""
    v = [x for _, x in levels]
    tot, i = sum(v), v.index(max(v))
    lo = hi = i
    cum = v[i]
    while cum * 100 < tot * pct and (lo > 0 or hi < len(v) - 1):
        up, dn = v[hi + 1:hi + 3], v[max(lo - 2, 0):lo]
        su, sd = (sum(up) if up else -1), (sum(dn) if dn else -1)
        if hi == i and not up:
            su = 0                                        # (before the first step an exhausted side counts as an empty pair)
        if lo == i and not dn:
            sd = 0
        if su >= sd:
            hi += len(up)
        if sd >= su:
            lo -= len(dn)
        cum = sum(v[lo:hi + 1])
    return i, lo, hi


def near(levels, pct):
    """is some partial sum within single-precision reach of the threshold? (then the area may legitimately stop one step earlier or later)"""
    v = [x for _, x in levels]
    tot = sum(v)
    thr = tot * pct / 100
    for a in range(len(v)):
        s = 0
        for b in range(a, len(v)):
            s += v[b]
            if abs(s - thr) <= 4e-7 * tot and not (pct == 100 and s == tot):
                return True
    return False


def verify(levels, pct, poc, hva, lva, what):
    lv = [p for p, _ in levels]
    v = [x for _, x in levels]
    for nm, x in (("point of control", poc), ("upper bound", hva), ("lower bound", lva)):
        require(x in lv, lambda: f"{what}: {nm} {x} is not a level of the window's profile {levels[:12]}")
    require(v[lv.index(poc)] == max(v), lambda: f"{what}: point of control {poc} holds {v[lv.index(poc)]}/64, the maximum is {max(v)}/64 ({levels[:12]})")
    require(lva <= poc <= hva, lambda: f"{what}: value area {lva}..{hva} does not straddle the point of control {poc}")
    held = sum(x for p, x in levels if lva <= p <= hva)
    require(held * 100 >= sum(v) * pct * (1 - 1e-6), lambda: f"{what}: value area {lva}..{hva} holds {held} of {sum(v)}, less than {pct}%")
    if not near(levels, pct):
        i, a, b = value_area(levels, pct)
        if v.count(v[i]) == 1:
            require((lva, hva) == (lv[a], lv[b]), lambda: f"{what}: value area {lva}..{hva}, grown from the point of control it is {lv[a]}..{lv[b]} ({levels[:14]}, {pct}%)")


def window_profile(bars, idx):
    prof = {}
    for j in idx:
        for p, x in bars[j]["prof"].items():
            prof[p] = prof.get(p, 0) + x
    return prof, min(bars[j]["lo"] for j in idx), max(bars[j]["hi"] for j in idx)


# ------------------------------------------------------------------------------------------------ cases

@st.composite
def case(draw):
    n = draw(st.integers(2, 14))
    unit = draw(st.sampled_from([NS["s"], NS["s"], 60 * NS["s"], NS["ms"] * 125, 6 * 3600 * NS["s"]]))
    vols = draw(st.sampled_from([[0, 1, 2, 4], [0, 64, 64, 128], list(range(0, 200))]))
    bars, t, lo = [], 0, draw(st.integers(50, 400))
    for i in range(n):
        t += draw(st.sampled_from([1, 1, 1, 2, 3, 7])) if i else 0
        lo = max(1, lo + draw(st.sampled_from([0, 0, 1, -1, 3, -3, 12, -12])))
        k = draw(st.integers(1, 7))
        f = st.lists(st.sampled_from(vols), min_size=k, max_size=k)
        bars.append([t * unit, lo, draw(f), draw(f)])
    return {"bars": bars, "base": draw(st.sampled_from([1_704_067_199, 1_700_000_000])), "tick": draw(st.sampled_from([0.5, 0.01, 0.25, 1.0])),
            "win": draw(st.integers(1, 9)) * unit, "bins": draw(st.sampled_from([27, 27, 3, 4, 6, 10, 100])), "va": draw(st.sampled_from([68.34, 68.34, 50.0, 25.0, 90.0, 100.0])),
            "cast": draw(st.sampled_from([None, "numba"]))}


def expand(r, n, c):
    bars, t, lo = [], 0, r.randint(500, 4000)
    for i in range(n):
        t += r.choice((1, 1, 1, 2, 5)) if i else 0
        lo = max(1, lo + r.randint(-15, 15))
        k = r.randint(1, 25)
        bars.append([t * NS["s"], lo, [r.choice((0, r.randint(1, 500))) for _ in range(k)], [r.choice((0, r.randint(1, 500))) for _ in range(k)]])
    return {"bars": bars, "base": 1_700_000_000, "tick": r.choice((0.5, 0.01)), "win": r.choice((2, 20, 90)) * NS["s"], "bins": r.choice((27, 12, 4)),
            "va": r.choice((68.34, 80.0)), "cast": None}


def model(c):
    out = []
    for t, lo, b, s in c["bars"]:
        out.append({"t": c["base"] * NS["s"] + t, "lo": lo, "hi": lo + len(b) - 1, "prof": {lo + i: x + y for i, (x, y) in enumerate(zip(b, s))}})
    return out


def container(c):
    from finmlkit.bar.data_model import FootprintData
    ts = np.array([c["base"] * NS["s"] + b[0] for b in c["bars"]], dtype=np.int64)

    def ragged(rows, dt):
        out = np.empty(len(rows), dtype=object)
        for i, r in enumerate(rows):
            out[i] = np.array(r, dtype=dt)
        return out
    lv = ragged([range(b[1], b[1] + len(b[2])) for b in c["bars"]], np.int32)
    bv = ragged([[x / 64 for x in b[2]] for b in c["bars"]], np.float32)
    sv = ragged([[x / 64 for x in b[3]] for b in c["bars"]], np.float32)
    nt, no = ragged([[1] * len(b[2]) for b in c["bars"]], np.int32), ragged([[False] * len(b[2]) for b in c["bars"]], np.bool_)
    fp = FootprintData(ts, c["tick"], lv, bv, sv, nt, nt.copy(), no, no.copy())
    if c["cast"] == "numba":
        fp.cast_to_numba_list()
    idx = pd.to_datetime(ts, unit="ns")
    bars = pd.DataFrame({"high": [(b[1] + len(b[2]) - 1) * c["tick"] for b in c["bars"]], "low": [b[1] * c["tick"] for b in c["bars"]]}, index=idx)
    return fp, bars


def full(ts, win):
    """windows: for each bar with a full look-back, the indices of the bars stamped within [stamp - look-back, stamp]"""
    out = {}
    for i, t in enumerate(ts):
        if t >= ts[0] + win:
            out[i] = [j for j in range(i + 1) if ts[j] >= t - win]
    return out


def ticks(x, tick):
    v = float(x) / tick
    require(abs(v - round(v)) < 1e-6, lambda: f"price {x} is not a multiple of the tick {tick}")
    return int(round(v))


def verify_rolling(out, m, tick, win, bins, va, only=None):
    poc, hva, lva, pct = out
    wins = full([b["t"] for b in m], win)
    require(len(poc) == len(hva) == len(lva) == len(pct) == len(m), lambda: f"{len(poc)} results for {len(m)} bars")
    for i in range(len(m)):
        if i not in wins:
            for nm, x in (("poc", poc), ("hva", hva), ("lva", lva)):
                require(np.isnan(x[i]), lambda: f"{nm}[{i}] = {x[i]} although the look-back is not full")
            continue
        lv = buckets(*window_profile(m, wins[i]), bins)
        vals = []
        for nm, x in (("poc", poc), ("hva", hva), ("lva", lva)):
            require(np.isfinite(x[i]), lambda: f"{nm}[{i}] = {x[i]} although the look-back is full")
            vals.append(ticks(x[i], tick))
        verify(lv, va, *vals, f"bar {i} (window of {len(wins[i])} bars)")
        tot = sum(x for _, x in lv)
        exp = sum(x for p, x in lv if p > vals[0]) / tot if tot else 0.0
        cmp_float(f"share above the point of control, bar {i}", [pct[i]], [exp], rtol=2e-6, atol=1e-7)


def check_rolling(c):
    from finmlkit.feature.core.volume import VolumePro
    fp, bars = container(c)
    vp = VolumePro(pd.Timedelta(c["win"], unit="ns"), n_bins=c["bins"], va_pct=c["va"])
    m = model(c)
    verify_rolling(sut(vp.compute, bars, fp), m, c["tick"], c["win"], c["bins"], c["va"])


def check_kernel(c):
    """the kernel without buckets, and with settings given later through reset_parameters"""
    from finmlkit.feature.core.volume import VolumePro, volume_profile_rolling
    fp, bars = container({**c, "cast": "numba"})
    m = model(c)
    out = sut(volume_profile_rolling, fp.bar_timestamps, bars.high.values, bars.low.values, fp.price_levels, fp.buy_volumes, fp.sell_volumes,
              c["win"] / NS["s"], None, c["tick"], c["va"])
    nan = [np.where(np.asarray(x) == 0, np.nan, np.asarray(x) * c["tick"]) for x in out[:3]]
    verify_rolling(nan + [out[3]], m, c["tick"], c["win"], None, c["va"])
    vp = VolumePro(pd.Timedelta("11min"), n_bins=5, va_pct=31.0)
    vp.reset_parameters(window_size_sec=c["win"] / NS["s"], n_bins=c["bins"], va_pct=c["va"])
    verify_rolling(sut(vp.compute, bars, fp), m, c["tick"], c["win"], c["bins"], c["va"])


def check_range(c):
    from finmlkit.feature.core.volume import VolumePro
    fp, bars = container(c)
    m = model(c)
    ts = [b["t"] for b in m]
    s, e = sorted((ts[c["s"][0] % len(ts)] + c["s"][1], ts[c["e"][0] % len(ts)] + c["e"][1]))
    keep = [b for b in m if s - c["win"] <= b["t"] <= e]
    if not keep:
        raise Skip
    conv = {"ts": pd.Timestamp, "int": int, "str": lambda x: pd.Timestamp(x).strftime("%Y-%m-%d %H:%M:%S.%f") + f"{x % 1000:03d}"}[c["as"]]
    vp = VolumePro(pd.Timedelta(c["win"], unit="ns"), n_bins=c["bins"], va_pct=c["va"])
    out = sut(vp.compute_range, bars, fp, conv(s), conv(e))
    cmp_exact("bars of the range", np.asarray(out[0], dtype=np.int64), np.array([b["t"] for b in keep], dtype=np.int64))
    verify_rolling(out[1:], keep, c["tick"], c["win"], c["bins"], c["va"])


def check_developing(c):
    """cumulative profile from the start of the range"""
    from finmlkit.feature.core.volume import volume_profile_developing
    fp, bars = container({**c, "cast": "numba"})
    m = model(c)
    ts = [b["t"] for b in m]
    s, e = sorted((ts[c["s"][0] % len(ts)] + c["s"][1], ts[c["e"][0] % len(ts)] + c["e"][1]))
    keep = [b for b in m if s <= b["t"] <= e]
    if not keep or (c["bins2"] is not None and not any(keep[0]["prof"].values())):
        raise Skip
    out = sut(volume_profile_developing, fp.bar_timestamps, bars.high.values, bars.low.values, fp.price_levels, fp.buy_volumes, fp.sell_volumes,
              s, e, c["bins2"], c["tick"], c["va"])
    cmp_exact("bars of the range", np.asarray(out[0]), np.array([b["t"] for b in keep], dtype=np.int64))
    lo, hi = min(b["lo"] for b in keep), max(b["hi"] for b in keep)
    for i in range(len(keep)):
        prof, _, _ = window_profile(keep, range(i + 1))
        a, z = lo, hi
        if c["bins2"] is not None:
            traded = [p for p, x in prof.items() if x]
            a, z = min(traded), max(traded)
        verify(buckets(prof, a, z, c["bins2"]), c["va"], int(out[1][i]), int(out[2][i]), int(out[3][i]), f"developing profile at bar {i}")


def check_trades(c):
    """end to end: time bars and footprints built from trades"""
    from finmlkit.bar.kit import TimeBarKit
    from finmlkit.feature.core.volume import VolumePro
    ts, px, am, sd = arrays(c)
    kit = TimeBarKit(make_td(ts, px, am, sd), pd.Timedelta(c["every"], unit="s"))
    try:
        bars, fp = kit.build_ohlcv(), kit.build_footprints(price_tick_size=c["tick"])
    except ValueError:                                     # (no completed bar)
        raise Skip
    stamps = [int(t) for t in fp.bar_timestamps]
    if len(stamps) < 2:
        raise Skip
    m = []
    first = stamps[0] - c["every"] * NS["s"]
    for i, t in enumerate(stamps):
        lo_t = t - c["every"] * NS["s"]
        prof = {}
        for k in range(len(ts)):
            if lo_t < ts[k] <= t and sd[k] != 0:
                p = int(round(px[k] / c["tick"]))
                prof[p] = prof.get(p, 0) + int(round(float(am[k]) * 64))
        m.append({"t": t, "lo": int(round(bars.low.iloc[i] / c["tick"])), "hi": int(round(bars.high.iloc[i] / c["tick"])), "prof": prof})
    require(first <= ts[-1], "clock")
    vp = VolumePro(pd.Timedelta(c["win"], unit="s"), n_bins=c["bins"], va_pct=68.34)
    verify_rolling(sut(vp.compute, bars, fp), m, c["tick"], c["win"] * NS["s"], c["bins"], 68.34)


# ------------------------------------------------------------------------------------------------ very long windows

def expand_long(c):
    """three levels over thousands of bars; two of them hold almost the same volume (the same fills in another order, one gets a tiny bit more)"""
    import random
    r = random.Random(c["seed"])
    n = c["n"]
    pool = [np.float32(x) for x in (0.1, 0.7, 3.3, 12.34, 0.05)][:c["pool"]]
    a = [r.choice(pool) for _ in range(n)]
    b = a[:]
    r.shuffle(b)
    extra = np.float32(sum(map(float, a)) * c["share"])
    j = r.randrange(n)
    b[j] = np.float32(b[j] + extra)
    third = [np.float32(x * 0.4) for x in a]
    cols = {"hi": [third, a, b], "lo": [b, a, third], "mid": [a, b, third]}[c["where"]]
    return np.array(cols, dtype=np.float32).T               # bars x levels


def check_long(c):
    from finmlkit.bar.data_model import FootprintData
    from finmlkit.feature.core.volume import volume_profile_developing, volume_profile_rolling
    v = expand_long(c)
    n = len(v)
    ts = (c["base"] + np.arange(n, dtype=np.int64)) * NS["s"]
    k = v.shape[1]

    def ragged(rows, dt):
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = np.array(rows[i], dtype=dt)
        return out
    z = np.zeros(k)
    buy = ragged([x if i % c["split"] else z for i, x in enumerate(v)], np.float32)
    sell = ragged([z if i % c["split"] else x for i, x in enumerate(v)], np.float32)
    no = ragged([z] * n, np.bool_)
    fp = FootprintData(ts, 0.5, ragged([range(100, 100 + k)] * n, np.int32), buy, sell, ragged([z] * n, np.int32), ragged([z] * n, np.int32), no, no.copy())
    fp.cast_to_numba_list()
    h, lo = np.full(n, (99 + k) * 0.5), np.full(n, 50.0)
    last = 2                                               # bars with a full look-back
    out = sut(volume_profile_rolling, fp.bar_timestamps, h, lo, fp.price_levels, fp.buy_volumes, fp.sell_volumes, float(n - last), c["bins"], 0.5, 68.34)
    dev = sut(volume_profile_developing, fp.bar_timestamps, h, lo, fp.price_levels, fp.buy_volumes, fp.sell_volumes, int(ts[0]), int(ts[-1]), None, 0.5, 68.34)

    def judge(what, upto, poc, hva, lva):
        tot = [math.fsum(map(float, v[:upto + 1, x])) for x in range(k)]
        if sorted(tot)[-1] - sorted(tot)[-2] > 1e-9 * sum(tot):
            best = 100 + tot.index(max(tot))
            require(poc == best, lambda: f"{what}: point of control {poc}, level volumes {tot} from level 100 up")
        require(lva <= poc <= hva, lambda: f"{what}: value area {lva}..{hva} does not straddle {poc}")
        held = math.fsum(tot[x] for x in range(k) if lva <= 100 + x <= hva)
        require(held >= math.fsum(tot) * 0.6834 * (1 - 1e-9), lambda: f"{what}: value area {lva}..{hva} holds {held} of {math.fsum(tot)}")
    for i in range(n - last, n):
        w = [j for j in range(i + 1) if ts[j] >= ts[i] - (n - last) * NS["s"]]
        if w[0] == 0:
            judge(f"window of {i + 1} bars", i, *(int(x[i]) for x in out[:3]))
    for i in {n // 3, n - 2, n - 1}:
        judge(f"developing profile of {i + 1} bars", i, *(int(dev[q][i]) for q in (1, 2, 3)))


long_cases = st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32 - 1), "n": st.sampled_from([500, 3000, 12000]), "pool": st.integers(2, 5), "share": st.sampled_from([1e-6, 3e-7, 1e-4]),
                                    "where": st.sampled_from(["hi", "lo", "mid"]), "split": st.sampled_from([1, 2, 3]), "bins": st.sampled_from([None, 27]), "base": st.sampled_from([1_704_067_199, 1_700_000_000])})


@st.composite
def trades_case(draw):
    rows = draw(trade_rows(lo=4, hi=40, price_lo=4, price_hi=40, gap=st.sampled_from([0, NS["s"] // 2, NS["s"], 2 * NS["s"], 3 * NS["s"] + 7])))
    return {"rows": rows, "base": 1_700_000_000, "t0": draw(st.sampled_from([0, 1, NS["s"] // 3])), "tick": 0.5, "every": draw(st.sampled_from([1, 2, 3])),
            "win": draw(st.integers(1, 12)), "bins": draw(st.sampled_from([27, 3, 5, 8]))}


def ranged():
    pos = st.tuples(st.integers(0, 13), st.sampled_from([0, 0, 0, 1000, -1000, 1, -1])).map(list)
    return st.builds(lambda c, s, e, a, b2: {**c, "s": s, "e": e, "as": a, "bins2": b2}, case(), pos, pos, st.sampled_from(["ts", "int", "str"]),
                     st.sampled_from([None, None, 27, 3, 8]))


def nontriv(c):
    m = model(c)
    for i, w in full([b["t"] for b in m], c["win"]).items():
        if len(w) > 1 and sum(1 for x in window_profile(m, w)[0].values() if x) > 2:
            return True
    return False


def classify(c):
    m = model(c)
    w = full([b["t"] for b in m], c["win"])
    if not w:
        return ["no full window"]
    lb = ["some full window", "all windows hold two bars" if min(map(len, w.values())) > 1 else "a window of one bar"]
    for i, x in w.items():
        p, lo, hi = window_profile(m, x)
        if max(1, (hi - lo) // c["bins"]) > 1:
            lb.append("buckets wider than a tick")
            break
    return lb


_rolling = Facet("rolling", case(), check_rolling, quick=1500, thorough=24000, nontrivial=nontriv, classify=classify)
FACETS = [
    _rolling,
    Facet("unbucketed", case(), check_kernel, quick=700, thorough=12000, nontrivial=nontriv, classify=classify),
    Facet("range", ranged(), check_range, quick=900, thorough=14000, nontrivial=nontriv, classify=lambda c: [c["as"]]),
    Facet("developing", ranged(), check_developing, quick=900, thorough=14000, nontrivial=lambda c: len(c["bars"]) > 2, classify=lambda c: [f"buckets {c['bins2']}"]),
    Facet("from_trades", trades_case(), check_trades, quick=700, thorough=10000, nontrivial=lambda c: len(c["rows"]) > 8, classify=lambda c: [f"bars of {c['every']} s"]),
    Facet("long_windows", long_cases, check_long, quick=24, thorough=400, nojit=False, nontrivial=lambda c: c["n"] > 500, classify=lambda c: [f"{c['n']} bars"]),
    bulk(_rolling, expand, quick=12, thorough=160, sizes=(30, 80, 250)),
]
