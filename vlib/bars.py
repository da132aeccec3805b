"""Reference models of bars and their features (plain Python, exact dyadic arithmetic) and helpers to feed the code under test."""
from __future__ import annotations

import math

import numpy as np

from vlib.gen import NS


def arrays(c):
    """case {rows: [[gap, ticks, amt64, side]], base (s), tick} -> ts, price, amount(float32), side"""
    t, ts = c["base"] * NS["s"] + c.get("t0", 0), []
    for r in c["rows"]:
        t += r[0]
        ts.append(t)
    px = np.array([r[1] * c.get("tick", 0.5) for r in c["rows"]], dtype=np.float64)
    am = np.array([r[2] / 64 for r in c["rows"]], dtype=np.float32)
    sd = np.array([r[3] for r in c["rows"]], dtype=np.int8)
    return np.array(ts, dtype=np.int64), px, am, sd


def make_td(ts, px, am, sd=None):
    from finmlkit.bar.data_model import TradesData
    return TradesData(ts, px, am, np.arange(len(ts)), side=sd, timestamp_unit="ns")


def median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def ref_ohlcv(px, am, closes):
    """rows: open high low close volume vwap trades median; closes[i] exclusive .. closes[i+1] inclusive"""
    px, am = [float(x) for x in px], [float(x) for x in am]
    out = []
    for a, b in zip(closes, closes[1:]):
        j = range(a + 1, b + 1)
        if not j:
            out.append([px[b]] * 4 + [0.0, 0.0, 0, 0.0])
            continue
        p, v = [px[k] for k in j], [am[k] for k in j]
        vol, dol = math.fsum(v), math.fsum(x * y for x, y in zip(p, v))
        out.append([p[0], max(p), min(p), p[-1], vol, dol / vol if vol > 0 else 0.0, len(p), median(v)])
    return out


OHLCV = ["open", "high", "low", "close", "volume", "vwap", "trades", "median_trade_size"]


def ref_directional(px, am, closes, sides):
    px, am, sd = [float(x) for x in px], [float(x) for x in am], [int(s) for s in sides]
    out = []
    for a, b in zip(closes, closes[1:]):
        j = list(range(a + 1, b + 1))
        buy, sell = [k for k in j if sd[k] == 1], [k for k in j if sd[k] == -1]
        sp = [abs(px[k] - px[k - 1]) for k in j if k > 0 and sd[k] != sd[k - 1]]
        ct, cv, cd = [], [], []
        x = y = z = 0.0
        for k in j:
            if sd[k]:
                x += sd[k]
                y += sd[k] * am[k]
                z += sd[k] * px[k] * am[k]
                ct.append(x)
                cv.append(y)
                cd.append(z)
        n = len(ct)
        out.append([len(buy), len(sell), math.fsum(am[k] for k in buy), math.fsum(am[k] for k in sell),
                    math.fsum(am[k] * px[k] for k in buy), math.fsum(am[k] * px[k] for k in sell),
                    math.fsum(sp) / n if n else math.nan, max(sp) if sp else 0.0,
                    min(ct, default=0), max(ct, default=0), min(cv, default=0), max(cv, default=0), min(cd, default=0), max(cd, default=0)])
    return out


DIRECTIONAL = ["ticks_buy", "ticks_sell", "volume_buy", "volume_sell", "dollars_buy", "dollars_sell", "mean_spread", "max_spread",
               "cum_ticks_min", "cum_ticks_max", "cum_volume_min", "cum_volume_max", "cum_dollars_min", "cum_dollars_max"]


def percentile(v, q):
    v = sorted(v)
    h = (len(v) - 1) * q / 100
    lo = math.floor(h)
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (v[hi] - v[lo]) * (h - lo)


def ref_trade_size(am, theta, closes, mult):
    am = [float(x) for x in am]
    out = []
    for i, (a, b) in enumerate(zip(closes, closes[1:])):
        v = am[a + 1:b + 1]
        if not v or theta[i] == 0:
            out.append([math.nan] * 4)
            continue
        thr = theta[i] * mult
        tot = math.fsum(v)
        out.append([math.log1p(tot / len(v) / thr), math.log1p(percentile(v, 95) / thr), math.fsum(x for x in v if x > thr) / tot,
                    0.0 if len(v) == 1 else 1 - math.fsum((x / tot) ** 2 for x in v)])
    return out


TRADE_SIZE = ["mean_size_rel", "size_95_rel", "pct_block", "size_gini"]


def time_clock(ts, interval_ns):
    """exact integer clock: aligned multiples of the interval from the one at or before the first trade to the one at or after the last"""
    first = int(ts[0]) // interval_ns * interval_ns
    last = -(-int(ts[-1]) // interval_ns) * interval_ns
    clock = list(range(first, last + 1, interval_ns))
    return clock


def close_indices(ts, clock):
    import bisect
    ts = [int(x) for x in ts]
    return [bisect.bisect_right(ts, c) - 1 for c in clock]


def tick_bars(n, thr):
    out, cum = [0], 1
    for i in range(1, n):
        cum += 1
        if cum >= thr:
            out.append(i)
            cum = 0
    return out


def volume_bars(am, thr):
    out, cum = [0], float(am[0])
    for i in range(1, len(am)):
        cum += float(am[i])
        if cum >= thr:
            out.append(i)
            cum = 0.0
    return out


def dollar_bars(px, am, thr):
    out, cum = [0], float(px[0]) * float(am[0])
    for i in range(1, len(am)):
        cum += float(px[i]) * float(am[i])
        if cum >= thr:
            out.append(i)
            cum -= thr
    return out


def cusum_bars(ts, px, sigma, floor, mult):
    """-> (close indices, smallest distance of an accumulation to its threshold)"""
    n = len(px)
    first = next((i for i in range(n) if not math.isnan(sigma[i])), None)
    if first is None:
        return None, math.inf
    s = list(sigma)
    for i in range(first + 1, n):
        if math.isnan(s[i]):
            s[i] = s[i - 1]
    out, up, dn, margin = [first], 0.0, 0.0, math.inf
    for i in range(first + 1, n):
        r = math.log(px[i] / px[i - 1])
        up, dn = max(0.0, up + r), min(0.0, dn + r)
        if i + 1 < n and ts[i] == ts[i + 1]:
            continue
        lam = max(mult * s[i], floor)
        margin = min(margin, abs(up - lam), abs(-dn - lam))
        if up >= lam:
            out.append(i)
            up = 0.0
        elif dn <= -lam:
            out.append(i)
            dn = 0.0
    return out, margin


def int_closes(c):
    return [int(x) for x in c]
