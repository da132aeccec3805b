"""Bar tables, the catalogue of feature transforms and their reference definitions (textbook loops over each window)."""
from __future__ import annotations

import math
import random

import numpy as np
from hypothesis import strategies as st

NAN = float("nan")
COLS = ["open", "high", "low", "close", "vwap", "volume", "volume_buy", "volume_sell", "ret", "ret1", "x", "y", "sig"]


# --------------------------------------------------------------------------------------------- tables
# case: {"rows": [[gap, dopen, dclose, up, dn, vol, buy, vw, s], ...], "tick": f, "base": ticks, "start": ns}
# gap: ns since the previous bar; prices in ticks; vol in 1/64; s in 1/64 or None (a missing return)

STARTS = [1_700_000_000_000_000_000, 1_709_164_800_000_000_000, 1_704_066_300_000_000_000, 1_614_556_740_000_000_000, 946_684_740_000_000_000]


@st.composite
def tables(draw, lo=1, hi=40, missing=True, kinds=("walk", "walk", "walk", "up", "down", "flat", "step"), gaps=None, vol0=True, base=None):
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(list(kinds)))
    d = {"walk": st.integers(-9, 9), "up": st.integers(0, 9), "down": st.integers(-9, 0), "flat": st.sampled_from([0, 0, 0, 0, 0, 1, -1]),
         "step": st.sampled_from([0, 0, 0, 60, -60])}[kind]
    wick = st.sampled_from([0, 0, 1, 2, 5]) if kind != "flat" else st.sampled_from([0, 0, 0, 0, 1])
    gap_mode = draw(st.sampled_from(gaps or ["min", "quarter", "irregular", "mixed"]))
    gap = {"min": st.just(60 * 10 ** 9), "quarter": st.just(900 * 10 ** 9), "hour": st.just(3600 * 10 ** 9),
           "irregular": st.one_of(st.integers(1, 10 ** 6), st.integers(1, 120).map(lambda v: v * 10 ** 9)),
           "mixed": st.sampled_from([1, 1000, 10 ** 9, 900 * 10 ** 9, 4 * 3600 * 10 ** 9, 26 * 3600 * 10 ** 9])}[gap_mode]
    flat_vol = draw(st.booleans()) and kind == "flat"
    rows = []
    for _ in range(n):
        vol = 64 if flat_vol else draw(st.one_of(st.integers(1, 640), st.sampled_from([0, 0, 64, 6400] if vol0 else [1, 64, 6400])))
        s = draw(st.one_of(st.integers(-64, 64), st.sampled_from([0, 1, -1, None] if missing else [0, 1, -1])))
        rows.append([draw(gap), draw(st.sampled_from([0, 0, 0, 1, -2])) if kind != "flat" else 0, draw(d), draw(wick), draw(wick), vol,
                     draw(st.integers(0, vol)), draw(st.integers(0, 4)), s])
    return {"rows": rows, "tick": draw(st.sampled_from([0.125, 0.125, 2.0 ** -14, 2.0 ** -27, 1024.0])), "base": base or draw(st.sampled_from([40, 400, 4000])),
            "start": draw(st.sampled_from(STARTS))}


def bulk_table(r: random.Random, n, missing=True, vol0=True):
    kind = r.choice(("walk", "walk", "flat", "trend"))
    rows = []
    g = r.choice((60, 900, None))
    for _ in range(n):
        dc = {"walk": r.randint(-9, 9), "flat": r.choice((0, 0, 0, 1, -1)), "trend": r.randint(-3, 6)}[kind]
        vol = r.choice((r.randint(1, 640), 64, 0 if vol0 else 1, 6400))
        rows.append([g * 10 ** 9 if g else r.choice((1, 10 ** 6, r.randint(1, 300) * 10 ** 9)), r.choice((0, 0, 1, -2)), dc, r.choice((0, 1, 3)), r.choice((0, 1, 3)),
                     vol, r.randint(0, vol), r.randint(0, 4), None if missing and r.random() < 0.03 else r.randint(-64, 64)])
    return {"rows": rows, "tick": r.choice((0.125, 2.0 ** -14, 2.0 ** -27)), "base": r.choice((400, 4000)), "start": r.choice(STARTS)}


def columns(t):
    """(ns stamps, {column: float64 array}) of a table case, all values exact dyadic numbers"""
    ts, p, now = [], t["base"], t["start"]
    c = {k: [] for k in COLS}
    for gap, do, dc, up, dn, vol, buy, vw, s in t["rows"]:
        now += gap
        ts.append(now)
        o = min(max(p + do, 8), 8000)
        cl = min(max(o + dc, 8), 8000)
        hi, lo = max(o, cl) + up, max(min(o, cl) - dn, 4)
        p = cl
        for k, v in zip(COLS, (o, hi, lo, cl)):
            c[k].append(v * t["tick"])
        c["vwap"].append((lo + (hi - lo) * vw / 4) * t["tick"])
        c["volume"].append(vol / 64)
        c["volume_buy"].append(buy / 64)
        c["volume_sell"].append((vol - buy) / 64)
        x = NAN if s is None else s / 64
        for k, f in (("ret", 2.0 ** -6), ("ret1", 2.0 ** -6), ("x", 1.0), ("y", 0.25), ("sig", 16.0)):
            c[k].append(x * f)
    for i, which in t.get("holes", ()):                    # missing entries: [bar, group]
        for k in HOLES[which]:
            if i < len(ts):
                c[k][i] = NAN
    return np.array(ts, dtype=np.int64), {k: np.array(v, dtype=np.float64) for k, v in c.items()}


HOLES = [["high", "low", "close"], ["close"], ["high"], ["volume_buy"], ["volume_sell", "volume_buy"], ["close", "vwap", "open"], ["low"], ["open"], ["volume"], ["vwap"], ["low", "high"]]


def frame(t, unit="ns", tz=None, extra=None):
    import pandas as pd
    ts, c = columns(t)
    idx = pd.DatetimeIndex(ts.view("datetime64[ns]")).as_unit(unit) if unit != "ns" else pd.DatetimeIndex(ts.view("datetime64[ns]"))
    if tz:
        idx = idx.tz_localize(tz)
    df = pd.DataFrame(c, index=idx)
    df.index.name = "timestamp"
    for k, v in (extra or {}).items():
        df[k] = v
    return df


# --------------------------------------------------------------------------------------------- reference definitions
# every reference takes (ts, columns dict, params) and returns a list of expected arrays; an entry may be Any() where the value is not defined
# by the property (ill-conditioned), or Close(value, tol)

ANY = "any"


class Close:
    __slots__ = ("v", "tol")

    def __init__(self, v, tol):
        self.v, self.tol = v, tol


def isnan(v):
    return v != v


def windows(x, w):
    """(i, window) for every complete window"""
    for i in range(w - 1, len(x)):
        yield i, x[i - w + 1:i + 1]


def mean(v):
    return math.fsum(v) / len(v)


def var(v, ddof):
    m = mean(v)
    return math.fsum((a - m) ** 2 for a in v) / (len(v) - ddof)


def per_window(x, w, f, n=None):
    out = [NAN] * len(x)
    for i, v in windows(x, w):
        out[i] = NAN if any(isnan(a) for a in v) else f(v)
    return out


def r_sma(ts, c, p):
    return [per_window(c[p["col"]].tolist(), p["window"], mean)]


def r_ewma(ts, c, p):
    y, a = c[p["col"]].tolist(), 2.0 / (p["span"] + 1)
    out, last = [], None
    for t, v in enumerate(y):
        if not isnan(v):
            last = t
        if last is None:
            out.append(NAN)
        else:
            ws = [((1 - a) ** (last - k), y[k]) for k in range(last + 1) if not isnan(y[k])]
            out.append(math.fsum(w * v for w, v in ws) / math.fsum(w for w, _ in ws))
    return [out]


def weighted_std(ws):
    """unbiased weighted standard deviation (pandas bias=False): [(weight, value)] -> value or Close or NaN or ANY"""
    if len(ws) < 2:
        return NAN
    V = math.fsum(w for w, _ in ws)
    if V <= 0:
        return ANY
    m = math.fsum(w * v for w, v in ws) / V
    raw = math.fsum(w * (v - m) ** 2 for w, v in ws) / V
    # V - sum(w^2)/V without cancellation: sum over pairs
    denom = (V * V - math.fsum(w * w for w, _ in ws)) / V
    if denom <= 1e-9 * V:
        return ANY
    m2 = math.fsum(w * v * v for w, v in ws) / V
    s = math.sqrt(raw * V / denom)
    err = 1e-14 * m2 * V / denom * (4 + len(ws)) + 1e-14 * raw * (V / denom) ** 2 * 4  # absolute error of the variance computed by cancellation
    tol = err / s if s * s > err else math.sqrt(err)
    return Close(s, tol + 1e-9 * s)


def r_ewms(ts, c, p):
    y, a = c[p["col"]].tolist(), 2.0 / (p["span"] + 1)
    return [[weighted_std([((1 - a) ** (t - k), y[k]) for k in range(t + 1) if not isnan(y[k])]) for t in range(len(y))]]


def decays(ts, hl):
    return [None] + [math.exp(-((b - a) / 1e9) / hl) for a, b in zip(ts.tolist(), ts.tolist()[1:])]


def r_ewmst(ts, c, p):
    """weights are 1 - exp(-x), known to 1e-16 absolutely: each carries its relative error"""
    y, d = c[p["col"]].tolist(), decays(ts, p["half_life"])
    out = [NAN]
    ws, ns = [], []
    for i in range(1, len(y)):
        ws = [(w * d[i], v) for w, v in ws]
        ns = [e + 4e-16 / max(d[i], 1e-300) for e in ns]
        al = 1 - d[i]
        fresh = not isnan(y[i])
        if fresh and al > 0:
            ws.append((al, y[i]))
            ns.append(4e-16 / al)
        V = math.fsum(w for w, _ in ws)
        if not ws:
            out.append(NAN)
            continue
        if len(ws) == 1 or V < 1e-100:
            out.append(ANY)                                # one observation: the floor or NaN, checked separately (must not be a residue)
            continue
        m = math.fsum(w * v for w, v in ws) / V
        raw = math.fsum(w * (v - m) ** 2 for w, v in ws)
        noise = math.fsum(min(e, 1e9) * w * (v - m) ** 2 for (w, v), e in zip(ws, ns)) / raw if raw > 0 else 0.0
        noise += math.fsum(min(e, 1e9) * w for (w, v), e in zip(ws, ns)) / V
        denom = (V * V - math.fsum(w * w for w, _ in ws)) / V ** 2
        if noise > 1e-4 * denom:
            out.append(ANY)
            continue
        s = weighted_std([(w, v) for w, v in ws if w > 0])
        if isinstance(s, float) and isnan(s):
            s = ANY
        if isinstance(s, Close):
            s.tol += 2e-12 + 8 * noise / denom * s.v       # the floor, the weights
        out.append(s)
    return [out]


def weight_noise(a, noise, fresh):
    return max(noise, 4e-16 / a) if fresh and a > 0 else noise


def r_ewmst_mean0(ts, c, p):
    y, d = c[p["col"]].tolist(), decays(ts, p["half_life"])
    out = [NAN]
    u = v = noise = eu = ev = 0.0
    seen = False
    for i in range(1, len(y)):
        eu, ev = eu * d[i] + 4e-16 * u, ev * d[i] + 4e-16 * v      # the carried share 1 - (1 - exp(-x)) is known to 1e-16 absolutely
        u, v = u * d[i], v * d[i]
        fresh = not isnan(y[i])
        if fresh:
            u, v = u + (1 - d[i]) * y[i] ** 2, v + (1 - d[i])
            seen |= d[i] < 1
        noise = weight_noise(1 - d[i], noise, fresh)
        if not seen:
            out.append(NAN)
        elif v < 1e-200 or noise > 1e-4 or (not fresh and d[i] < 1e-15) or ev > v / 2:
            out.append(ANY)
        else:
            spread = math.sqrt((u + eu) / (v - ev)) - math.sqrt(max(u - eu, 0.0) / (v + ev))
            out.append(Close(math.sqrt(u / v), 2e-12 + spread + (1e-7 + 8 * noise) * math.sqrt(u / v)))
    return [out]


def r_realized(ts, c, p):
    x = c[p["col"]].tolist()
    out = [NAN] * len(x)
    for i, w in windows(x, p["window"]):
        v = [a for a in w if not isnan(a)]
        if len(v) > 1:
            out[i] = math.sqrt(math.fsum(a * a for a in v) / (len(v) - 1 if p["is_sample"] else len(v)))
    return [out]


def r_boll(ts, c, p):
    def f(w):
        s = math.sqrt(var(w, 1))
        if s == 0:
            return NAN
        return ((w[-1] - mean(w)) / s + p["num_std"]) / (2 * p["num_std"])
    return [per_window(c[p["col"]].tolist(), p["window"], f)]


def r_parkinson(ts, c, p):
    return [[math.log(h / lo) ** 2 / (4 * math.log(2)) for h, lo in zip(c["high"].tolist(), c["low"].tolist())]]


def true_range(c):
    h, lo, cl = c["high"].tolist(), c["low"].tolist(), c["close"].tolist()
    out = []
    for i in range(len(h)):
        ref = [h[i] - lo[i]] + ([abs(h[i] - cl[i - 1]), abs(lo[i] - cl[i - 1])] if i else [])
        out.append(NAN if any(isnan(v) for v in ref) else max(ref))
    return out


def r_true_range(ts, c, p):
    return [true_range(c)]


def r_atr(ts, c, p):
    tr, w = true_range(c), p["window"]
    h, lo, cl = c["high"].tolist(), c["low"].tolist(), c["close"].tolist()
    out = [NAN] * len(tr)
    if len(tr) >= w:
        if p["ema_based"]:
            v = [a for a in tr[:w] if not isnan(a)]
            cur = mean(v) if v else NAN
            out[w - 1] = cur
            for i in range(w, len(tr)):
                cur = out[i] = NAN if isnan(cur) or isnan(tr[i]) else ((w - 1) * cur + tr[i]) / w
        else:
            for i, win in windows(tr, w):
                v = [a for a in win if not isnan(a)]
                if v and not (isnan(h[i]) and isnan(lo[i]) and isnan(cl[i])):
                    out[i] = mean(v)
        if p["normalize"]:
            out = [v / ((a + b) / 2) if not isnan(v) and not isnan(a + b) else v for v, a, b in zip(out, h, lo)]
    return [out]


def r_bv(ts, c, p):
    return [per_window([abs(v) for v in c[p["col"]].tolist()], p["window"] + 1, lambda w: math.pi / 2 * math.fsum(a * b for a, b in zip(w, w[1:])))]


def lagged(x, k, f):
    return [NAN if i < k else f(x[i], x[i - k]) for i in range(len(x))]


def r_lag(ts, c, p):
    return [lagged(c[p["col"]].tolist(), p["periods"], lambda a, b: b)]


def r_return(ts, c, p):
    return [lagged(c[p["col"]].tolist(), p["periods"], lambda a, b: math.log(a / b) if p["is_log"] else a / b - 1)]


def r_returnt(ts, c, p):
    import bisect
    x, t, win = c[p["col"]].tolist(), ts.tolist(), max(1, round(p["window"] * 1e9))
    out = []
    for i in range(len(x)):
        j = bisect.bisect_right(t, t[i] - win) - 1
        out.append(NAN if j < 0 else (math.log(x[i] / x[j]) if p["is_log"] else x[i] / x[j] - 1))
    return [out]


def r_roc(ts, c, p):
    return [lagged(c[p["col"]].tolist(), p["periods"], lambda a, b: (a / b - 1) * 100)]


def r_pct(ts, c, p):
    return [lagged(c[p["col"]].tolist(), p["window"], lambda a, b: a / b - 1 if b > 0 else NAN)]


def r_rsi(ts, c, p):
    x, w = c[p["col"]].tolist(), p["window"]
    out = [NAN] * len(x)
    if len(x) > w:
        g = [max(b - a, 0.0) for a, b in zip(x, x[1:])]
        ls = [max(a - b, 0.0) for a, b in zip(x, x[1:])]
        ag, al = mean(g[:w]), mean(ls[:w])
        for i in range(w, len(x)):
            if i > w:
                ag, al = (ag * (w - 1) + g[i - 1]) / w, (al * (w - 1) + ls[i - 1]) / w
            out[i] = 100.0 if al == 0 else 100 * ag / (ag + al)
    return [out]


def r_stoch(ts, c, p):
    h, lo, cl, w = c["high"].tolist(), c["low"].tolist(), c["close"].tolist(), p["length"]
    out = [NAN] * len(h)
    for i in range(w - 1, len(h)):
        a, b = min(lo[i - w + 1:i + 1]), max(h[i - w + 1:i + 1])
        out[i] = 100 * (cl[i] - a) / (b - a) if b > a else NAN
    return [out]


def r_adx(ts, c, p):
    h, lo, cl, L = c["high"].tolist(), c["low"].tolist(), c["close"].tolist(), p["length"]
    n = len(h)
    tr, pd_, md = true_range(c), [0.0] * n, [0.0] * n
    for i in range(1, n):
        u, d = h[i] - h[i - 1], lo[i - 1] - lo[i]
        pd_[i], md[i] = (u if u > d and u > 0 else 0.0), (d if d > u and d > 0 else 0.0)
    out = [0.0] * n
    if n <= L:
        return [out]
    s = [math.fsum(v[1:L + 1]) for v in (tr, pd_, md)]
    dx = {}
    for i in range(L, n):
        if i > L:
            s = [a - a / L + v[i] for a, v in zip(s, (tr, pd_, md))]
        pdi, mdi = (100 * s[1] / s[0], 100 * s[2] / s[0]) if s[0] > 0 else (0.0, 0.0)
        dx[i] = 100 * abs(pdi - mdi) / (pdi + mdi) if pdi + mdi > 0 else 0.0
    for i in range(2 * L - 1, n):
        out[i] = mean([dx[k] for k in range(L, 2 * L)]) if i == 2 * L - 1 else (out[i - 1] * (L - 1) + dx[i]) / L
    return [out]


def r_z(ts, c, p):
    def f(w):
        v = var(w, p["ddof"])
        return (w[-1] - mean(w)) / math.sqrt(v) if v > 0 else NAN
    return [per_window(c[p["col"]].tolist(), p["window"], f)]


def r_mrz(ts, c, p):
    return r_z(ts, c, {**p, "ddof": 1})


def r_burst(ts, c, p):
    def f(w):
        s = sorted(w)
        k = len(s)
        med = (s[(k - 1) // 2] + s[k // 2]) / 2
        return w[-1] / med if med > 0 else NAN
    return [per_window(c[p["col"]].tolist(), p["window"], f)]


def r_vr(ts, c, p):
    """documented ratio var(1-bar) / var(4-bar)"""
    x, w, ddof = c[p["col"]].tolist(), p["window"], p["ddof"]
    n = len(x)
    out = [NAN] * n
    r1 = [NAN] + [math.log(b / a) if p["ret_type"] == "log" else b / a - 1 for a, b in zip(x, x[1:])]
    r4 = [NAN] * 4 + [math.fsum(r1[i - 3:i + 1]) for i in range(4, n)]

    def v(r, i):
        q = [a for a in r[i - w + 1:i + 1] if not isnan(a)]
        if len(q) <= ddof or not q:
            return None
        m2 = math.fsum(a * a for a in q) / len(q)
        return var(q, ddof), 1e-14 * m2 * len(q) * len(q) / (len(q) - ddof)
    for i in range(w - 1, n):
        a, b = v(r1, i), v(r4, i)
        if a is None or b is None:
            continue
        if b[0] <= 1e3 * b[1] or a[0] <= 1e3 * a[1]:
            out[i] = ANY                                   # no variation beyond rounding
        else:
            out[i] = Close(a[0] / b[0], a[0] / b[0] * (a[1] / a[0] + b[1] / b[0] + 1e-9))
    return [out]


def r_kurt(ts, c, p):
    def f(w):
        m2 = var(w, 0)
        if m2 == 0:
            return NAN
        m = mean(w)
        return math.fsum((a - m) ** 4 for a in w) / len(w) / m2 ** 2 - 3
    return [per_window(c[p["col"]].tolist(), p["window"], f)]


def r_slope(ts, c, p):
    def f(w):
        k = len(w)
        y = [math.log(v) for v in w]
        mx, my = (k - 1) / 2, mean(y)
        b = math.fsum((i - mx) * (v - my) for i, v in enumerate(y)) / math.fsum((i - mx) ** 2 for i in range(k))
        return math.degrees(math.atan(b))
    return [per_window(c[p["col"]].tolist(), p["window"], f)]


def r_hurst(ts, c, p):
    def f(w):
        acc, path = 0.0, []
        for v in w:
            acc += v
            path.append(acc)
        pts = []
        for k in (1, 2, 4, 8):
            if k < len(path) - 1:
                v = var([b - a for a, b in zip(path, path[k:])], 0)
                if v <= 0:
                    return NAN
                pts.append((math.log(k), math.log(v) / 2))
        if len(pts) < 2:
            return NAN
        mx, my = mean([a for a, _ in pts]), mean([b for _, b in pts])
        return math.fsum((a - mx) * (b - my) for a, b in pts) / math.fsum((a - mx) ** 2 for a, _ in pts)
    return [per_window(c[p["col"]].tolist(), p["window"], f)]


def r_candle(ts, c, p):
    out = [[], [], [], []]
    for o, h, lo, cl, vw in zip(*(c[k].tolist() for k in ("open", "high", "low", "close", "vwap"))):
        rng = h - lo or 1.0                                # a bar without range has no wicks and no body
        for k, v in enumerate(((h - max(o, cl)) / rng, (min(o, cl) - lo) / rng, abs(cl - o) / rng, (vw - o) / o)):
            out[k].append(v)
    return out


def r_runlen(ts, c, p):
    x = c[p["col"]].tolist()
    out = [0] * len(x)
    for i in range(1, len(x)):
        s = (x[i] > 0) - (x[i] < 0)
        k = i
        while s and k >= 1 and ((x[k] > 0) - (x[k] < 0)) == s:
            out[i] += 1
            k -= 1
    return [out]


def r_vwapd(ts, c, p):
    cl, v, w = c["close"].tolist(), c["volume"].tolist(), p["periods"]
    out = [NAN] * len(cl)
    for i in range(w - 1, len(cl)):
        tot = math.fsum(v[i - w + 1:i + 1])
        if tot > 0:
            q = cl[i] / (math.fsum(a * b for a, b in zip(cl[i - w + 1:i + 1], v[i - w + 1:i + 1])) / tot)
            out[i] = math.log(q) if p["is_log"] else q - 1
        elif i >= w:
            out[i] = out[i - 1]                            # documented: an empty window keeps the last distance
    return [out]


def r_flow(ts, c, p):
    v, w, k = c[p["col"]].tolist(), p["window"], p["recent_periods"]
    out = [NAN] * len(v)
    if k < w:
        for i, win in windows(v, w):
            out[i] = math.log((math.fsum(win[w - k:]) + 1e-12) / (math.fsum(win[:w - k]) + 1e-12))
    return [out]


def r_vpin(ts, c, p):
    b, s, w = c["volume_buy"].tolist(), c["volume_sell"].tolist(), p["window"]
    out = [NAN] * len(b)
    for i in range(w - 1, len(b)):
        bb, ss = b[i - w + 1:i + 1], s[i - w + 1:i + 1]
        tot = math.fsum(bb + ss)
        if tot > 1e-9:                                     # False for NaN
            out[i] = Close(math.fsum(abs(x - y) for x, y in zip(bb, ss)) / tot, 1e-6)
    return [out]


def r_corr(ts, c, p):
    x, v, w = c["close"].tolist(), c["volume"].tolist(), p["window"]
    r = [NAN] + [(b - a) / a for a, b in zip(x, x[1:])]
    out = [NAN] * len(x)
    for i in range(w, len(x)):
        a, b = r[i - w + 1:i + 1], v[i - w + 1:i + 1]
        va, vb = var(a, 0), var(b, 0)
        ma, mb = mean(a), mean(b)
        m2a, m2b = mean([q * q for q in a]), mean([q * q for q in b])
        if va <= 1e-13 * m2a or vb <= 1e-13 * m2b or va == 0 or vb == 0:
            out[i] = ANY                                   # no variation beyond rounding
        else:
            out[i] = Close(mean([(q - ma) * (u - mb) for q, u in zip(a, b)]) / math.sqrt(va * vb), 1e-6 + 1e-13 * (m2a / va + m2b / vb))
    return [out]


def civil(ns):
    """UTC wall clock of a stamp: (day number, weekday Monday=0, seconds into the day), from datetime"""
    import datetime as D
    t = D.datetime(1970, 1, 1) + D.timedelta(seconds=ns // 10 ** 9)
    return t.toordinal(), t.weekday(), t.hour * 3600 + t.minute * 60 + t.second


def r_cues(ts, c, p):
    out = [[] for _ in range(9)]
    for t in ts.tolist():
        _, wd, s = civil(t)
        h, m = s // 3600, s % 3600 // 60
        for k, v in enumerate((math.sin(2 * math.pi * s / 86400), math.cos(2 * math.pi * s / 86400), math.sin(2 * math.pi * wd / 7), math.cos(2 * math.pi * wd / 7),
                               0 <= h < 8, 7 <= h < 15, 13 <= h < 21, h in (0, 7, 13) and m == 0, m == 0)):
            out[k].append(v)
    return out


def r_barrate(ts, c, p):
    t, w = ts.tolist(), round(p["window"] * 1e9)
    return [[sum(1 for b in t[:i + 1] if a - b <= w) * 3600 / p["window"] for i, a in enumerate(t)]]


def r_dur(ts, c, p):
    t, k = ts.tolist(), p["periods"]
    return [[NAN if i < k else (t[i] - t[i - k]) / 1e9 for i in range(len(t))]]


def r_durewma(ts, c, p):
    t = ts.tolist()
    d = np.array([NAN] + [(b - a) / 1e9 for a, b in zip(t, t[1:])])
    return r_ewma(ts, {"d": d}, {"col": "d", "span": p["span"]})


def r_gap(ts, c, p):
    x, t = c[p["col"]].tolist(), ts.tolist()
    out = [NAN] * len(x)
    for i in range(len(x)):
        if t[i] % (86400 * 10 ** 9) == 0:
            day = t[i] // (86400 * 10 ** 9)
            prev = [x[k] for k in range(i) if t[k] // (86400 * 10 ** 9) == day - 1 and not isnan(x[k])]
            if prev:
                out[i] = (x[i] - prev[-1]) / prev[-1]
    return [out]


def r_orb(ts, c, p):
    h, lo, cl, t = c["high"].tolist(), c["low"].tolist(), c["close"].tolist(), ts.tolist()
    up, dn = [False] * len(t), [False] * len(t)
    days = {}
    for i, a in enumerate(t):
        days.setdefault(a // (86400 * 10 ** 9), []).append(i)
    for d, ix in days.items():
        if t[ix[0]] % (86400 * 10 ** 9) < 60 * 10 ** 9 and len(ix) >= 4:
            a, b = max((h[k] for k in ix[:4] if not isnan(h[k])), default=NAN), min((lo[k] for k in ix[:4] if not isnan(lo[k])), default=NAN)
            for k in ix[4:]:
                up[k], dn[k] = cl[k] > a, cl[k] < b
    return [up, dn]


# --------------------------------------------------------------------------------------------- catalogue

I = st.integers  # noqa: E741
W = I(1, 12)
B_ = st.booleans()


def cols(*names):
    return st.sampled_from(list(names))


class Spec:
    """cls: transform class name; params: {name: strategy}; ref; owner: the property whose check compares it with its definition"""

    def __init__(self, cls, owner, params, ref, rtol=1e-8, atol=1e-9, scale_free=None, bounds=None, tkw=None, kernel=None, default_in=None, native=None, hist=None):
        self.cls, self.owner, self.params, self.ref, self.rtol, self.atol = cls, owner, params, ref, rtol, atol
        self.scale_free, self.bounds, self.tkw, self.kernel, self.native = scale_free, bounds, tkw or {}, kernel, native
        self.time = cls in ("ReturnT", "EWMST", "TimeCues", "DailyGap", "ORBBreak", "BarRate", "BarDuration", "BarDurationEWMA")

    def strategy(self):
        return st.fixed_dictionaries(self.params)

    def kwargs(self, p):
        import pandas as pd
        k = {("input_col" if a == "col" else a): v for a, v in p.items()}
        for a in ("window", "half_life"):
            if a in k and self.cls in ("ReturnT", "EWMST", "BarRate"):
                k[a] = pd.Timedelta(seconds=k[a])
        return k

    def build(self, p):
        import finmlkit.feature.transforms as T
        return getattr(T, self.cls)(**self.kwargs(p))


PX = cols("close", "open", "vwap")
ANYCOL = cols("close", "x", "y", "volume", "sig")
SECS = st.sampled_from([1.0, 30.0, 60.0, 61.5, 900.0, 1800.0, 7200.0, 86400.0])

SPECS = {
    # moving averages and volatility (P23)
    "SMA": Spec("SMA", "P23", {"window": W, "col": ANYCOL}, r_sma),
    "EWMA": Spec("EWMA", "P23", {"span": st.one_of(I(1, 12), I(13, 60)), "col": ANYCOL}, r_ewma),
    "EWMST": Spec("EWMST", "P23", {"half_life": SECS, "col": cols("ret", "y", "x", "close")}, r_ewmst),
    "RealizedVolatility": Spec("RealizedVolatility", "P23", {"window": I(1, 12), "is_sample": B_, "col": cols("ret", "x", "y")}, r_realized),
    "BollingerPercentB": Spec("BollingerPercentB", "P23", {"window": I(2, 12), "num_std": st.sampled_from([0.5, 1.0, 2.0, 2.5]), "col": cols("close", "x", "volume")}, r_boll,
                              rtol=1e-6, atol=1e-7, scale_free=True),
    "ParkinsonRange": Spec("ParkinsonRange", "P23", {}, r_parkinson, atol=1e-13, scale_free=True, bounds=(0, math.inf)),
    "ATR": Spec("ATR", "P23", {"window": W, "ema_based": B_, "normalize": B_}, r_atr, bounds=(0, math.inf)),
    "BiPowerVariation": Spec("BiPowerVariation", "P23", {"window": W, "col": cols("ret", "ret1", "x")}, r_bv, bounds=(0, math.inf)),
    # momentum, trend, range (P24)
    "Lag": Spec("Lag", "P24", {"periods": I(0, 12), "col": ANYCOL}, r_lag),
    "Return": Spec("Return", "P24", {"periods": I(1, 12), "is_log": B_, "col": PX}, r_return, atol=1e-12, scale_free=True),
    "ReturnT": Spec("ReturnT", "P24", {"window": st.sampled_from([1e-6, 1.0, 60.0, 60.000001, 899.999999, 900.0, 3600.0, 86400.0]), "is_log": B_, "col": PX}, r_returnt, atol=1e-12, scale_free=True),
    "ROC": Spec("ROC", "P24", {"periods": I(1, 12), "col": PX}, r_roc, scale_free=True),
    "PctChange": Spec("PctChange", "P24", {"window": I(1, 12), "col": cols("close", "x", "volume", "sig")}, r_pct, scale_free=True),
    "RSIWilder": Spec("RSIWilder", "P24", {"window": W, "col": PX}, r_rsi, rtol=1e-7, atol=1e-7, scale_free=True, bounds=(0, 100)),
    "StochK": Spec("StochK", "P24", {"length": W}, r_stoch, scale_free=True, bounds=(0, 100)),
    "ADX": Spec("ADX", "P24", {"length": I(1, 8)}, r_adx, rtol=1e-6, atol=1e-6, scale_free=True, bounds=(0, 100)),
    "ZScore": Spec("ZScore", "P24", {"window": I(2, 12), "col": cols("close", "x", "volume", "y"), "ddof": I(0, 1)}, r_z, rtol=1e-7, atol=1e-8, scale_free=True),
    "MeanReversionZScore": Spec("MeanReversionZScore", "P24", {"window": I(2, 12), "col": cols("close", "volume")}, r_mrz, rtol=1e-5, atol=1e-5, scale_free=True),
    "BurstRatio": Spec("BurstRatio", "P24", {"window": W, "col": cols("volume", "close")}, r_burst, scale_free=True),
    "VarianceRatio14": Spec("VarianceRatio14", "P24", {"window": I(2, 12), "col": PX, "ret_type": st.sampled_from(["log", "simple"]), "ddof": I(0, 1)}, r_vr, scale_free=True, bounds=(0, math.inf)),
    "KurtosisTransform": Spec("KurtosisTransform", "P24", {"window": I(2, 12), "col": cols("x", "ret1", "volume")}, r_kurt, rtol=1e-6, atol=1e-7, scale_free=True, bounds=(-2.000001, math.inf)),
    "TrendSlope": Spec("TrendSlope", "P24", {"window": I(2, 12), "col": PX}, r_slope, rtol=1e-7, atol=1e-9, scale_free=True, bounds=(-90, 90)),
    "HurstExponent": Spec("HurstExponent", "P24", {"window": I(2, 16), "col": cols("x", "ret1", "volume")}, r_hurst, rtol=1e-5, atol=1e-5, scale_free=True),
    "CandleShape": Spec("CandleShape", "P24", {}, r_candle, rtol=1e-7, bounds=(-1, 1.0000001)),
    "DirRunLen": Spec("DirRunLen", "P24", {"col": cols("x", "ret1", "sig")}, r_runlen, scale_free=True),
    # volume, flow, correlation (P25)
    "VWAPDistance": Spec("VWAPDistance", "P25", {"periods": W, "is_log": B_}, r_vwapd, scale_free=True),
    "FlowAcceleration": Spec("FlowAcceleration", "P25", {"window": I(1, 12), "recent_periods": I(1, 12), "col": cols("volume", "volume_buy")}, r_flow),
    "VPIN": Spec("VPIN", "P25", {"window": W}, r_vpin, bounds=(0, 1.000001)),
    "PriceVolumeCorrelation": Spec("PriceVolumeCorrelation", "P25", {"window": I(2, 12)}, r_corr, bounds=(-1, 1)),
    # calendar and session (P26)
    "TimeCues": Spec("TimeCues", "P26", {"col": cols("close", "x")}, r_cues, atol=1e-9),
    "BarRate": Spec("BarRate", "P26", {"window": SECS, "col": cols("close")}, r_barrate),
    "BarDuration": Spec("BarDuration", "P26", {"periods": I(1, 6), "col": cols("close", "x")}, r_dur),
    "BarDurationEWMA": Spec("BarDurationEWMA", "P26", {"span": I(1, 30), "col": cols("close")}, r_durewma),
    "DailyGap": Spec("DailyGap", "P26", {"col": cols("close")}, r_gap),
    "ORBBreak": Spec("ORBBreak", "P26", {}, r_orb),
    # no reference here (its own property, P27) but part of the catalogue
    "CUSUMTest": Spec("CUSUMTest", "P27", {"window_size": I(6, 30), "warmup_period": I(2, 10), "max_age": st.sampled_from([3, 144, 1000]), "col": PX}, None),
    "Identity": Spec("Identity", "P24", {"col": ANYCOL}, lambda ts, c, p: [c[p["col"]].tolist()]),
}


def names_of(t):
    n = t.output_name
    return [n] if isinstance(n, str) else list(n)


def outputs(res):
    return list(res) if isinstance(res, tuple) else [res]


def compare(label, got, exp, rtol, atol):
    """element-wise comparison with ANY / Close entries; raises Violation"""
    from vlib.core import Violation
    g = np.asarray(got, dtype=np.float64)
    if len(g) != len(exp):
        raise Violation(f"{label}: {len(g)} values, expected {len(exp)}")
    for i, (a, e) in enumerate(zip(g.tolist(), exp)):
        if e is ANY:
            continue
        v, tol = (e.v, e.tol) if isinstance(e, Close) else (float(e), atol + rtol * abs(e))
        if isnan(v) and isnan(a):
            continue
        if not (abs(a - v) <= tol) and a != v:
            raise Violation(f"{label}[{i}] = {a!r}, expected {v!r}")
