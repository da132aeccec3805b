"""P35 - what is finished stays: completed bars, their features, sampled events and resolved labels when later trades arrive."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import feat
from vlib.bars import arrays, make_td
from vlib.core import Facet, Skip, Violation, require, sut
from vlib.gen import DAY, NS, bulk, bulk_rows, trade_rows
from vlib.kern import log

PROPERTY = "P35"
RULE = "a case counts if at least one bar, event or label of the shorter history is finished and later trades follow it"
ASSUMPTIONS = ["later trades are not earlier than the last one known; where they carry the same stamp, the trades of that stamp are not finished yet",
               "a time bar is finished when a trade later than its stamp is known; the other bars when their closing trade is known; a label when a barrier was touched or its holding period is over",
               "the price tick is given: inferred from all prices it may legitimately change"]
SEC = NS["s"]
SEEN = [0]                                                # finished things compared by the last case


def eq(label, a, b):
    """two arrays of one shape"""
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, lambda: f"{label}: {a.shape} values before, {b.shape} after more trades")
    if a.dtype.kind == "f":
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= (1e-6 if a.dtype == np.float32 else 1e-12) * np.abs(a))
    else:
        ok = a == b
    if not np.all(ok):
        i = np.argwhere(~np.asarray(ok))[0].tolist()
        raise Violation(f"{label}{i}: {a[tuple(i)]!r}, but {b[tuple(i)]!r} once later trades are known")


def cuts_of(c, n):
    return sorted({max(2, min(n - 1, 2 + k % max(1, n - 2))) for k in c["cuts"]})


def kit_of(c, ts, px, am, sd, sigma):
    import pandas as pd
    from finmlkit.bar.kit import CUSUMBarKit, DollarBarKit, TickBarKit, TimeBarKit, VolumeBarKit
    td = make_td(ts, px, am, sd)
    k = c["k"]
    kind = c["kit"]
    if kind == "time":
        return TimeBarKit(td, pd.Timedelta(seconds=time_step(c, ts)))
    if kind == "tick":
        return TickBarKit(td, k)
    if kind == "volume":
        return VolumeBarKit(td, k * 1.5)
    if kind == "dollar":
        return DollarBarKit(td, k * 40.0)
    return CUSUMBarKit(td, sigma, sigma_mult=float(k) / 2, sigma_floor=c["floor"])


def time_step(c, ts):
    return c["k"] * c["step"]


def step_for(rows):
    """a bar length that gives at most some hundred bars"""
    span = sum(r[0] for r in rows[1:])
    return max(1, span // SEC // 200 + 1)


def build(kit, n):
    out = {"ohlcv": kit.build_ohlcv(), "directional": kit.build_directional_features()}
    theta = np.array([0.5 + (i % 5) * 0.75 for i in range(n)])
    out["size"] = kit.build_trade_size_features(theta, 2.0)
    out["footprints"] = kit.build_footprints(price_tick_size=0.5, imbalance_factor=2.0)
    return out


def run(c, ts, px, am, sd, sigma):
    try:
        kit = kit_of(c, ts, px, am, sd, sigma)
        ix = [int(x) for x in kit.bar_close_indices]
    except Exception:                                      # noqa: BLE001  too little data for a single bar
        return None
    stamps = [int(x) for x in kit.bar_close_timestamps]
    return kit, ix, stamps


def check_bars(c):
    SEEN[0] = 0
    ts, px, am, sd = arrays(c)
    n = len(ts)
    sigma = np.array([math.nan if i < c["lead"] or c["gap"] and (i * 5 + c["lead"]) % 7 in (1, 2, 4, 5)[:c["gap"]] else 0.004 * (1 + (7 * i) % 11) for i in range(n)])
    c = {**c, "step": step_for(c["rows"])}
    if (n > 2 and int(ts[-1] - ts[0]) // SEC // c["step"] > 5000):
        raise Skip
    full = run(c, ts.copy(), px.copy(), am.copy(), sd.copy(), sigma.copy())
    if full is None:
        raise Skip
    kit, ix, stamps = full
    fo = None
    for m in cuts_of(c, n):
        part = run(c, ts[:m].copy(), px[:m].copy(), am[:m].copy(), sd[:m].copy(), sigma[:m].copy())
        if part is None:
            done = expected_done(c, ix, stamps, ts, m)
            require(done == 0, lambda: f"{c['kit']} bars: no bars from the first {m} trades, but {done} of those found later end before them")
            continue
        pk, pix, pst = part
        done = expected_done(c, ix, stamps, ts, m)
        got = finished(c, pix, pst, ts, m)
        if c["kit"] == "time" and got == done + 1 and len(stamps) > done and pst[done] == stamps[done]:
            done = got                                     # the clock may already go one (empty) bar beyond the last trade
        require(got == done, lambda: f"{c['kit']} bars: {got} finished bars known after {m} trades, {done} of the same trades once {n} are known ({pix[:got][-3:]} / {ix[:done][-3:]})")
        eq(f"{c['kit']} bars: close index", pix[:done], ix[:done])
        eq(f"{c['kit']} bars: close stamp", pst[:done], stamps[:done])
        if done < 1 or len(pix) < 1:
            continue
        SEEN[0] += done
        fo = fo or sut(build, kit, len(ix))
        po = sut(build, pk, len(pix))
        for name in ("ohlcv", "directional", "size"):
            a, b = po[name], fo[name]
            require(list(a.columns) == list(b.columns), f"{name}: different columns")
            for col in a.columns:
                eq(f"{c['kit']} bars, {name} {col}", a[col].to_numpy()[:done], b[col].to_numpy()[:done])
            eq(f"{c['kit']} bars, {name} index", a.index.asi8[:done], b.index.asi8[:done])
        fa, fb = po["footprints"], fo["footprints"]
        for k in ("bar_timestamps", "buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini"):
            eq(f"{c['kit']} bars, footprint {k}", np.asarray(getattr(fa, k))[:done], np.asarray(getattr(fb, k))[:done])
        for k in ("price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances"):
            a, b = getattr(fa, k), getattr(fb, k)
            for i in range(done):
                eq(f"{c['kit']} bars, footprint {k} of bar {i}", a[i], b[i])
        if c["kit"] == "cusum":
            a, b = np.asarray(pk.get_sigma()), np.asarray(kit.get_sigma())
            eq("cusum bars: volatility", a[:done], b[:done])
        features(c, po, fo, done)


def finished(c, ix, stamps, ts, m):
    """bars of the run over the first m trades that later trades cannot change"""
    nxt = int(ts[m])
    if c["kit"] == "time":
        return sum(s < nxt for s in stamps if s <= int(ts[m - 1]) or s < nxt)
    if c["kit"] == "cusum":                                # bars end after the last trade of a stamp
        return sum(not (i < len(ts) and int(ts[i]) == nxt and i < m) for i in ix)
    return len(ix)


def expected_done(c, ix, stamps, ts, m):
    nxt = int(ts[m])
    if c["kit"] == "time":
        last = -(-int(ts[m - 1]) // (time_step(c, ts) * SEC)) * time_step(c, ts) * SEC      # the clock known after m trades ends here (or one bar later, see got)
        return sum(s < nxt and s <= last for s in stamps)
    if c["kit"] == "cusum":
        return sum(i < m and int(ts[i]) != nxt for i in ix)
    return sum(i < m for i in ix)


def features(c, po, fo, done):
    """a transform over the finished bars"""
    if not c.get("spec"):
        return
    cls, p, be = c["spec"]
    s = feat.SPECS[cls]
    if cls == "PriceVolumeCorrelation":
        return
    res = []
    for o in (po, fo):
        df = o["ohlcv"].join(o["directional"][["volume_buy", "volume_sell"]]) if "volume_buy" in o["directional"] else o["ohlcv"].join(o["directional"].rename(columns=str))
        df["ret"] = np.r_[math.nan, np.diff(np.log(df["close"].to_numpy()))]
        for k, f in (("ret1", 2.0), ("x", 4.0), ("y", 0.25), ("sig", 16.0)):
            df[k] = df["ret"] * f
        if not df.index.is_unique:
            return
        df = df.astype({k: float for k in ("volume", "vwap", "volume_buy", "volume_sell")})
        try:
            res.append([x.to_numpy(dtype=float) for x in feat.outputs(s.build(p)(df, backend=be))])
        except Exception as e:                             # noqa: BLE001  e.g. too few bars for the window
            if o is fo:
                raise Violation(f"{cls} {p} ({be}) works on the first {len(po['ohlcv'])} bars and raises {type(e).__name__}: {e} on {len(df)}") from e
            return
    for a, b in zip(*res):
        a, b = a[:done], b[:done]
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 + 1e-7 * np.abs(a))
        if not ok.all():
            i = int(np.argmin(ok))
            raise Violation(f"{cls} {p} ({be}) over {c['kit']} bars: {a[i]!r} at the finished bar {i}, but {b[i]!r} once later trades are known")


def check_events(c):
    SEEN[0] = 0
    from finmlkit.sampling.filters import cusum_filter
    ts, px, am, sd = arrays(c)
    n = len(px)
    thr = np.array([0.002 * (1 + (5 * i) % 12) for i in range(n)]) if c["vector"] else np.array([0.003 * c["k"]])
    full = [int(x) for x in sut(cusum_filter, px.copy(), thr.copy())]
    for m in cuts_of(c, n):
        got = [int(x) for x in sut(cusum_filter, px[:m].copy(), thr[:m].copy() if c["vector"] else thr.copy())]
        exp = [i for i in full if i < m]
        SEEN[0] += len(exp)
        require(got == exp, lambda: f"sampled events among the first {m} observations: {got[:20]}, but {exp[:20]} once {n} are known")


def check_labels(c):
    SEEN[0] = 0
    from finmlkit.label.tbm import triple_barrier
    ts, px, am, sd = arrays(c)
    n = len(px)
    lp = log(px)
    lo, up, vb, mc = float(c["lo"]), float(c["up"]), float(c["vb"]), c["mc"]
    ev0 = sorted(e % n for e in c["ev"])
    tg0 = [0.004 * (1 + (3 * i) % 9) for i in range(len(ev0))]
    sd0 = [1 if (i * 7 + c["k"]) % 3 else -1 for i in range(len(ev0))]

    def call(m, keep):
        ev = np.array([ev0[i] for i in keep], dtype=np.int64)
        return [np.asarray(v) for v in sut(triple_barrier, ts[:m].copy(), px[:m].copy(), ev, np.array([tg0[i] for i in keep]), (lo, up), vb, mc,
                                           np.array([sd0[i] for i in keep], dtype=np.int8) if c["meta"] else None, 0.0)]
    full = call(n, range(len(ev0)))
    for m in cuts_of(c, n):
        keep = [i for i, e in enumerate(ev0) if e < m]
        if not keep:
            continue
        part = call(m, keep)
        for q, i in enumerate(keep):
            e = ev0[i]
            over = vb * SEC < int(ts[m] - ts[e])            # the holding period has ended when the next trade arrives
            last = int(part[1][q])
            r = (lp[last] - lp[e]) * (sd0[i] if c["meta"] else 1)
            hit = last > e and int(ts[last] - ts[e]) >= mc * SEC and ((math.isfinite(up) and r > tg0[i] * up + 1e-9) or (math.isfinite(lo) and r < -tg0[i] * lo - 1e-9))
            if not (over or hit or last < m - 1):
                continue
            SEEN[0] += 1
            for name, a, b in zip(("label", "touch", "return", "ratio"), part, full):
                u, v = a[q], b[i]
                if not (u == v or (u != u and v != v) or abs(float(u) - float(v)) <= 1e-12):
                    raise Violation(f"{name} of the event at {e}: {u!r} after {m} trades with the label resolved, but {v!r} once {n} are known")


def check_table(c):
    """the labelling kit on a growing history"""
    SEEN[0] = 0
    import pandas as pd
    from finmlkit.label.kit import TBMLabel
    ts, px, am, sd = arrays(c)
    n = len(px)
    ev0 = sorted(e % n for e in c["ev"])
    idx = pd.DatetimeIndex(ts[ev0].view("datetime64[ns]"))
    f = pd.DataFrame({"vol": [0.004 * (1 + (3 * i) % 9) for i in range(len(ev0))], "rowid": np.arange(float(len(ev0))), "side": [1 if (i * 7 + c["k"]) % 3 else -1 for i in range(len(ev0))]}, index=idx)
    vb = min(float(c["vb"]), 3600.0)
    hold = int(vb * SEC)

    def call(kit, m):
        feats, out = sut(kit.compute_labels, make_td(ts[:m].copy(), px[:m].copy(), am[:m].copy(), sd[:m].copy()))
        return feats["rowid"].astype(int).tolist(), out
    mk = lambda: TBMLabel(f, target_ret_col="vol", min_ret=0.0, horizontal_barriers=(float(c["lo"]), float(c["up"])), vertical_barrier=pd.Timedelta(seconds=vb),  # noqa: E731
                          min_close_time=pd.Timedelta(seconds=c["mc"]), is_meta=c["meta"])
    shared = mk()
    ends = {}
    for m in [*cuts_of(c, n), n]:
        if int(ts[ev0[0]]) + hold > int(ts[m - 1]):
            continue
        rows, out = call(shared if c["shared"] else mk(), m)
        for i, k in enumerate(rows):
            row = tuple(out.iloc[i][x] for x in ("event_idx", "touch_idx", "labels", "returns", "vertical_touch_weights", "touch_time"))
            if k in ends:
                SEEN[0] += 1
                m0, old = ends[k]
                same = all(u == v or (u != u and v != v) or (isinstance(u, float) and abs(u - v) <= 1e-12) for u, v in zip(old, row))
                require(same, lambda: f"label of row {k}: {old} after {m0} trades, {row} after {m}")
            if m == n or int(ts[m]) > int(ts[m - 1]) or int(ts[ev0[k]]) + hold < int(ts[m]):     # (more trades of the very stamp the holding period ends at may follow)
                ends.setdefault(k, (m, row))
        for k in ends:
            require(k in rows, lambda: f"row {k} was labelled after {ends[k][0]} trades and is missing after {m}")


def check_trades(c):
    """preprocessing a longer history keeps the trades of the shorter one"""
    SEEN[0] = 0
    from finmlkit.bar.data_model import TradesData
    ts, px, am, sd = arrays(c)
    n = len(px)
    unit = c["unit"]
    t = ts // NS[unit]

    def frame(m):
        kw = {"is_buyer_maker": sd[:m] < 0} if c["maker"] else {"side": sd[:m].copy()} if c["maker"] is None else {}
        td = sut(TradesData, t[:m].copy(), px[:m].copy(), am[:m].astype(np.float64), np.arange(m), timestamp_unit=unit, preprocess=True, proc_res=c["res"], **kw)
        return td.data
    u = max(NS[unit], NS[c["res"]] if c["res"] else 1)
    full = frame(n)
    for m in cuts_of(c, n):
        part = frame(m)
        edge = int(ts[m]) // u * u
        a, b = part[part["timestamp"].to_numpy() < edge], full[full["timestamp"].to_numpy() < edge]
        SEEN[0] += len(a)
        require(len(a) == len(b), lambda: f"{len(a)} trades before the last stamp of the first {m} rows, {len(b)} once {n} rows are known")
        require(list(a.columns) == list(b.columns), "different columns")
        for col in a.columns:
            eq(f"preprocessed {col}", a[col].to_numpy(), b[col].to_numpy())


CUTS = st.lists(st.integers(0, 10 ** 4), min_size=1, max_size=3)
ROWS = trade_rows(4, 40, sides=(-1, 1), price_lo=60, price_hi=110)


def specs():
    names = [k for k in sorted(feat.SPECS) if k not in ("CUSUMTest", "PriceVolumeCorrelation")]
    return st.sampled_from(names).flatmap(lambda k: st.tuples(st.just(k), feat.SPECS[k].strategy(), st.sampled_from(["nb", "pd"])).map(list))


BASE = {"rows": ROWS, "base": st.just(1_700_000_000), "tick": st.just(0.5), "t0": st.sampled_from([0, 1, 999_999_999]), "cuts": CUTS, "k": st.integers(1, 6)}
BARS = {"kit": st.sampled_from(["time", "tick", "volume", "dollar", "cusum"]), "floor": st.sampled_from([0.0, 0.005]), "lead": st.integers(0, 3), "gap": st.sampled_from([0, 0, 1, 2, 4]), "spec": st.one_of(st.none(), specs())}
LAB = {"ev": st.lists(st.integers(0, 10 ** 4), min_size=1, max_size=8), "lo": st.sampled_from([1.0, 0.5, 2.0, "inf"]), "up": st.sampled_from([1.0, 2.0, "inf"]),
       "vb": st.sampled_from([0.5, 1.0, 1.75, 10.0, 59.999, 60.0, 600.0, "inf"]), "mc": st.sampled_from([0.0, 0.0, 1.0, 30.0]), "meta": st.booleans()}


def grows(c):
    return SEEN[0] > 0


def labels(c):
    m = cuts_of(c, len(c["rows"]))
    return [c.get("kit", "")] * ("kit" in c) + (["a tie at the cut"] if any(c["rows"][k][0] == 0 for k in m) else []) + [f"{len(m)} cuts"] + ([c["spec"][0]] if c.get("spec") else [])


def big(r, n, c):
    return {**{k: c[k] for k in c if k not in ("seed", "n")}, "rows": bulk_rows(r, n, lo=60, hi=110), "base": 1_700_000_000, "tick": 0.5, "t0": r.choice((0, 1)), "cuts": [r.randrange(n) for _ in range(2)],
            "k": r.randint(1, 30)}


def fix(d):
    return st.fixed_dictionaries(d)


KW = dict(nontrivial=grows, classify=labels)
FB = Facet("bars", fix({**BASE, **BARS}), check_bars, quick=900, thorough=18000, jit_quick=450, **KW)
FE = Facet("events", fix({**BASE, "vector": st.booleans()}), check_events, quick=900, thorough=20000, **KW)
FL = Facet("labels", fix({**BASE, **LAB}), check_labels, quick=1000, thorough=20000, **KW)
FT = Facet("label_table", fix({**BASE, **LAB, "shared": st.booleans()}), check_table, quick=400, thorough=8000, **KW)
FP = Facet("trades", fix({**BASE, "unit": st.sampled_from(["ns", "us", "ms"]), "res": st.sampled_from([None, "ms", "s"]), "maker": st.sampled_from([True, None, False])}), check_trades, quick=700,
           thorough=15000, **KW)
FACETS = [FB, FE, FL, FT, FP,
          bulk(FB, big, 40, 1200, sizes=(60, 200, 700), extra={k: v for k, v in BARS.items()}),
          bulk(FE, big, 60, 2000, extra={"vector": st.booleans()}),
          bulk(FL, big, 60, 1500, sizes=(60, 200, 700), extra=LAB)]
