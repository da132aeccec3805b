"""A catalogue of the library's public entry points over one shared 'world' of inputs (trades, a bar table, events, footprints).

world case   {"rows", "base", "tick", "t0", "t": bar table, "ev": [...], "seed"}      -> World (built deterministically)
operation    [kind, params...]                                                        -> run(world, op) -> nested outputs
flatten(x)   turns any output or input (arrays, tables, series, containers) into [(path, meta, array)], so that two results can be compared bitwise or
             up to a tolerance, and inputs can be compared before and after a call.
Used by P29 (inputs unchanged, repeatable), P34 (compiled against interpreted, threads, memory).
"""
from __future__ import annotations

import math
import os
import random
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import expr, feat
from vlib.bars import arrays, make_td
from vlib.gen import NS, bulk_rows, trade_rows

# ------------------------------------------------------------------------------------------------ worlds


@st.composite
def worlds(draw, lo=2, hi=30, tlo=1, thi=25):
    rows = draw(trade_rows(lo, hi, sides=(-1, 1), price_lo=60, price_hi=110))
    n = len(rows)
    m = draw(st.integers(1, 8))
    return {"rows": rows, "base": 1_700_000_000, "tick": 0.5, "t0": draw(st.sampled_from([0, 1, 999_999_999])), "t": draw(feat.tables(tlo, thi)),
            "ev": sorted(draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m))), "seed": draw(st.integers(0, 10 ** 6))}


def big_world(seed, n):
    r = random.Random(seed)
    return {"rows": bulk_rows(r, n, lo=60, hi=110), "base": 1_700_000_000, "tick": 0.5, "t0": 0, "t": feat.bulk_table(r, n), "ev": sorted(r.randrange(n) for _ in range(n // 5 + 1)),
            "seed": seed}


class World:
    def __init__(self, c, guard=None):
        """guard: None, or a number: every array handed to a kernel lies inside a larger buffer filled with that number"""
        import pandas as pd
        r = random.Random(c["seed"])
        self.c = c
        g = (lambda a: a) if guard is None else (lambda a: guarded(a, guard))
        ts, px, am, sd = arrays(c)
        n = len(ts)
        self.ts, self.px, self.am, self.sd = g(ts), g(px), g(am), g(sd)
        self.am64 = g(am.astype(np.float64))
        self.ids = g(np.arange(7, 7 + n, dtype=np.int64))
        self.maker = g(np.array([s < 0 for s in sd], dtype=np.bool_))
        self.closes = [0]
        while self.closes[-1] < n - 1 and len(self.closes) < 2 + n:
            self.closes.append(min(n - 1, self.closes[-1] + r.choice((0, 1, 1, 2, 3, 5, 9))))
            if r.random() < 0.05:
                break
        if len(self.closes) == 1:
            self.closes.append(0)
        self.closes = g(np.array(self.closes, dtype=np.int64))
        nb = len(self.closes) - 1
        self.theta = g(np.array([r.choice((0.25, 1.0, 4.0, 0.0)) for _ in range(nb)]))
        self.lows = g(np.array([px[max(a + 1, 0):b + 1].min() if b > a else px[b] for a, b in zip(self.closes, self.closes[1:])]))
        self.highs = g(np.array([px[max(a + 1, 0):b + 1].max() if b > a else px[b] for a, b in zip(self.closes, self.closes[1:])]))
        self.sigma = g(np.array([math.nan if r.random() < 0.1 else 0.004 * r.randint(1, 16) for _ in range(n)]))
        self.thr = g(np.array([0.002 * r.randint(1, 12) for _ in range(n)]))
        self.ev = g(np.array(c["ev"], dtype=np.int64))
        m = len(self.ev)
        self.targets = g(np.array([r.choice((0.004, 0.02, 0.001, 0.1)) for _ in range(m)]))
        self.evside = g(np.array([r.choice((1, -1)) for _ in range(m)], dtype=np.int8))
        self.touch = g(np.array([min(n - 1, e + r.choice((0, 1, 3, 12))) for e in c["ev"]], dtype=np.int64))
        self.labels = g(np.array([r.choice((1, -1, 1)) for _ in range(m)], dtype=np.int8))
        self.uniq = g(np.array([r.randint(1, 64) / 64 for _ in range(m)]))
        self.wts = g(np.array([r.randint(0, 64) / 64 for _ in range(m)]))
        self.td = make_td(ts.copy(), px.copy(), am.copy(), sd.copy())
        idx = pd.DatetimeIndex(ts[c["ev"]].view("datetime64[ns]"))
        self.feats = pd.DataFrame({"vol": np.array([r.choice((0.004, 0.02, 0.1)) for _ in range(m)]), "f1": np.arange(m) * 1.5, "side": np.array([r.choice((1, -1)) for _ in range(m)])}, index=idx)
        tcols, cc = feat.columns(c["t"])
        if guard is None:
            self.df = feat.frame(c["t"])
        else:
            self.df = pd.DataFrame({k: g(v) for k, v in cc.items()}, index=pd.DatetimeIndex(g(tcols).view("datetime64[ns]")), copy=False)
            self.df.index.name = "timestamp"
        for col, i, v in c.get("specials", ()):
            self.df.loc[self.df.index[i % len(self.df)], col] = float(v)
        self.df["prev"] = self.df["x"] * 3 + 1
        self.df["close"].to_numpy()
        self.series = g(cc["close"].copy())
        self._fp = None

    def footprint(self):
        """bars and footprints on a regular clock (shared by the operations of a history)"""
        if self._fp is None:
            import pandas as pd
            from finmlkit.bar.kit import TimeBarKit
            every = 10 * (1 + int(self.ts[-1] - self.ts[0]) // (600 * NS["s"]))       # at most some 60 bars
            kit = TimeBarKit(make_td(self.ts.copy(), self.px.copy(), self.am.copy(), self.sd.copy()), pd.Timedelta(seconds=every))
            if len(kit.bar_close_indices) == 0:
                raise ValueError("no bars")
            self._fp = (kit.build_ohlcv(), kit.build_footprints(price_tick_size=0.5))
        return self._fp

    def inputs(self):
        d = {k: v for k, v in vars(self).items() if k not in ("c", "_fp")}
        if self._fp is not None:
            d["fp_bars"], d["fp"] = self._fp
        return d


def guarded(a, fill):
    """a copy of the array inside a larger buffer (a view with foreign values on both sides)"""
    pad = 40
    if a.dtype == np.bool_:
        buf = np.full(len(a) + 2 * pad, bool(int(abs(fill)) % 2))
    elif a.dtype.kind == "i":
        buf = np.full(len(a) + 2 * pad, np.iinfo(a.dtype).max if fill > 0 else np.iinfo(a.dtype).min, dtype=a.dtype)
    else:
        buf = np.full(len(a) + 2 * pad, fill, dtype=a.dtype)
    buf[pad:pad + len(a)] = a
    return buf[pad:pad + len(a)]


# ------------------------------------------------------------------------------------------------ comparing

def flatten(x, path="", out=None):
    """-> [(path, meta, ndarray)]; meta carries types, names and index identity"""
    import pandas as pd
    out = [] if out is None else out
    if isinstance(x, dict):
        for k in x:
            flatten(x[k], f"{path}.{k}", out)
    elif isinstance(x, pd.DataFrame):
        out.append((path + "#columns", "frame", np.array([repr(c) for c in x.columns])))
        flatten(x.index, path + "#index", out)
        for i, c in enumerate(x.columns):
            flatten(x.iloc[:, i].array, f"{path}[{c!r}]", out)
    elif isinstance(x, pd.Series):
        out.append((path + "#name", "series", np.array([repr(x.name)])))
        flatten(x.index, path + "#index", out)
        flatten(x.array, path, out)
    elif isinstance(x, pd.DatetimeIndex):
        out.append((path, f"datetimes {x.dtype} name={x.name!r}", x.as_unit("ns").asi8))
    elif isinstance(x, (pd.Index, pd.api.extensions.ExtensionArray)):
        a = np.asarray(x)
        out.append((path, f"{x.dtype} name={getattr(x, 'name', None)!r}", a if a.dtype.kind != "O" else np.array([repr(v) for v in a])))
    elif type(x).__name__ == "TradesData":
        flatten(x.data, path + ".data", out)
        out.append((path + ".info", "", np.array([repr((x.missing_pct, x.data_ok, x.discontinuities, x.name, str(x.start_date), str(x.end_date)))])))
    elif type(x).__name__ == "FootprintData":
        for k in ("bar_timestamps", "price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances", "buy_imbalances_sum",
                  "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini", "price_tick"):
            flatten(getattr(x, k), f"{path}.{k}", out)
    elif isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (list, tuple)) or type(x).__module__.startswith("numba.typed"):
        for i, v in enumerate(x):
            flatten(v, f"{path}[{i}]", out)
        out.append((path + "#len", "", np.array([len(x)])))
    elif isinstance(x, np.ndarray):
        out.append((path, str(x.dtype), x))
    elif isinstance(x, (int, float, bool, str, type(None), np.generic)) or isinstance(x, pd.Timestamp):
        out.append((path, type(x).__name__, np.array([x]) if isinstance(x, (int, float, np.generic)) and not isinstance(x, bool) else np.array([repr(x)])))
    else:
        out.append((path, type(x).__name__, np.array([repr(type(x))])))
    return out


def snapshot(x):
    return [(p, m, a.shape, a.tobytes()) for p, m, a in flatten(x)]


def first_difference(a, b, exact=True):
    """of two snapshots; exact=False: up to the rounding of sums (parallel reductions add in the order the threads finish)"""
    if len(a) != len(b):
        return f"{len(a)} parts against {len(b)} ({sorted({x[0] for x in a} ^ {x[0] for x in b})[:4]})"
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return f"part {x[0]} against {y[0]}"
        if x[1] != y[1]:
            return f"{x[0]}: {x[1]} against {y[1]}"
        if x[2:] != y[2:]:
            # the bytes of an equal NaN may differ
            d = x[1].split()[0]
            if d in ("float64", "float32", "float") and x[2] == y[2]:
                u, v = (np.frombuffer(z[3], dtype="float32" if d == "float32" else "float64") for z in (x, y))
                if np.array_equal(u, v, equal_nan=True):
                    continue
                ok = (u == v) | (np.isnan(u) & np.isnan(v))
                if not exact:
                    with np.errstate(all="ignore"):
                        ok |= np.abs(u - v) <= (2e-7 if d == "float32" else 1e-12) * np.abs(u[np.isfinite(u)]).max(initial=0.0)
                    if ok.all():
                        continue
                i = int(np.argwhere(~ok)[0][0])
                return f"{x[0]}[{i}]: {u[i]!r} against {v[i]!r}"
            return f"{x[0]}: different content (shape {x[2]} against {y[2]})"
    return None


# ------------------------------------------------------------------------------------------------ operations

KITS = ["time", "tick", "volume", "dollar", "cusum"]


def pick(weights):
    """choose a kind first (a union of strategies would favour those with many branches)"""
    return st.sampled_from([k for k, (n, _) in enumerate(weights) for _ in range(n)]).flatmap(lambda k: weights[k][1])


def bar_ops():
    k = st.integers(1, 6)
    return pick([
        (4, st.builds(lambda kit, k, f, m: ["kit", kit, k, f, m], st.sampled_from(KITS), k, st.sampled_from([3.0, 1.0, 2.0]), st.sampled_from([5.0, 1.0]))),
        (4, st.sampled_from([["ohlcv", 0], ["ohlcv", 1], ["directional", 0], ["directional", 1], ["size", 5.0], ["size", 1.0], ["footprints", 3.0], ["footprints", 1.0], ["sides"], ["tick_size"]])),
        (3, st.builds(lambda u, res, bm, dup, sh: ["prepare", u, res, bm, dup, sh], st.sampled_from(["ns", "us", "ms", "s", None]), st.sampled_from([None, "ms", "us", "s"]),
                      st.sampled_from([None, "maker", "side"]), st.integers(0, 4), st.booleans())),
        (2, st.builds(lambda w, b, v: ["profile", w, b, v], st.sampled_from([10, 30, 60, 3600]), st.sampled_from([27, 3, 8]), st.sampled_from([68.34, 50.0, 95.0]))),
        (1, st.sampled_from([["fp_slice"], ["fp_table"]]))])


def label_ops():
    return pick([
        (3, st.builds(lambda *a: ["barrier", *a], st.sampled_from([1.0, 0.5, math.inf]), st.sampled_from([1.0, 2.0, math.inf]), st.sampled_from([1.0, 60.0, math.inf]),
                      st.sampled_from([0.0, 1.0]), st.booleans(), st.sampled_from([0.0, 0.003]))),
        (3, st.builds(lambda *a: ["tbm", *a], st.sampled_from([1.0, 0.5]), st.sampled_from([1.0, 2.0]), st.sampled_from([1.0, 60.0]), st.booleans(), st.sampled_from([0.0, 0.003]))),
        (4, st.sampled_from([["uniqueness"], ["attribution", True], ["attribution", False], ["decay", 0.5], ["decay", 1.0], ["decay", -0.5], ["decay", 0.0], ["balance"], ["info_weights"],
                             ["final_weights", 0], ["final_weights", 1], ["final_weights", 2], ["final_weights", 3]])),
        (1, st.sampled_from([["cusum_filter", 1], ["cusum_filter", 0]]))])


SAFE = sorted(feat.SPECS)


def spec_ops(backends=("nb", "nb", "pd")):
    return st.sampled_from(SAFE).flatmap(lambda k: st.tuples(st.just("spec"), st.just(k), feat.SPECS[k].strategy(), st.sampled_from(list(backends))).map(list))


def break_ops():
    return st.builds(lambda f, w, u: ["break", f, w, u], st.sampled_from(["rolling", "developing", "last"]), st.integers(5, 20), st.integers(2, 9))


def table_ops():
    return pick([
        (5, spec_ops()),
        (2, st.builds(lambda e, be: ["expr", e, be], expr.tree(st.one_of(expr.leaf(), expr.compose(hi=2)), 5), st.sampled_from(["nb", "pd"]))),
        (1, break_ops()),
        (2, st.builds(lambda es, o, be, retain: ["kitbuild", es, o, be, retain], st.lists(expr.tree(expr.leaf(), 3), min_size=1, max_size=4), st.sampled_from(["defined", "topo"]),
                      st.sampled_from(["nb", "pd"]), st.sampled_from([[], ["close"], ["x", "volume"]])))])


def run(w, op):
    """the operation's outputs; an exception of the library is part of the outcome"""
    k, a = op[0], op[1:]
    import pandas as pd
    if k == "kit":
        return run_kit(w, *a)
    if k == "ohlcv":
        from finmlkit.bar.base import comp_bar_ohlcv
        return comp_bar_ohlcv(w.px, w.am if a[0] else w.am64, w.closes)
    if k == "directional":
        from finmlkit.bar.base import comp_bar_directional_features
        return comp_bar_directional_features(w.px, w.am if a[0] else w.am64, w.closes, w.sd)
    if k == "size":
        from finmlkit.bar.base import comp_bar_trade_size_features
        return comp_bar_trade_size_features(w.am, w.theta, w.closes, a[0])
    if k == "footprints":
        from finmlkit.bar.base import comp_bar_footprints
        names = ["levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances", "buy_sum", "sell_sum", "cot", "run", "vp_skew", "vp_gini"]
        return dict(zip(names, comp_bar_footprints(w.px, w.am, w.closes, w.sd, 0.5, w.lows, w.highs, a[0]), strict=True))
    if k == "sides":
        from finmlkit.bar.utils import comp_trade_side_vector
        return comp_trade_side_vector(w.px)
    if k == "tick_size":
        from finmlkit.bar.utils import comp_price_tick_size
        return comp_price_tick_size(w.px)
    if k == "prepare":
        return prepare(w, *a)
    if k == "profile":
        from finmlkit.feature.core.volume import VolumePro
        bars, fp = w.footprint()
        return VolumePro(pd.Timedelta(seconds=a[0]), n_bins=a[1], va_pct=a[2]).compute(bars, fp)
    if k == "fp_slice":
        bars, fp = w.footprint()
        return [fp[1:], fp[: max(1, len(fp) // 2)], fp[0]]
    if k == "fp_table":
        bars, fp = w.footprint()
        return fp.get_df()
    if k == "barrier":
        from finmlkit.label.tbm import triple_barrier
        lo, up, vb, mc, meta, mr = a
        return triple_barrier(w.ts, w.px, w.ev, w.targets, (lo, up), vb, mc, w.evside if meta else None, mr)
    if k == "tbm":
        from finmlkit.label.kit import SampleWeights, TBMLabel
        lo, up, vb, meta, mr = a
        kit = TBMLabel(w.feats, target_ret_col="vol", min_ret=mr, horizontal_barriers=(lo, up), vertical_barrier=pd.Timedelta(seconds=vb), min_close_time=pd.Timedelta(0), is_meta=meta)
        f, out = kit.compute_labels(w.td)
        wt = kit.compute_weights(w.td)
        return {"features": f, "labels": out, "weights": wt, "acc": [kit.labels, kit.event_returns, kit.full_output, kit.features, kit.target_returns, kit.event_count],
                "info": SampleWeights.compute_info_weights(w.td, out)}
    if k == "uniqueness":
        from finmlkit.label.weights import average_uniqueness
        return average_uniqueness(w.ts, w.ev, w.touch)
    if k == "attribution":
        from finmlkit.label.weights import average_uniqueness, return_attribution
        _, con = average_uniqueness(w.ts, w.ev, w.touch)
        return return_attribution(w.ev, w.touch, w.px, con, a[0])
    if k == "decay":
        from finmlkit.label.weights import time_decay
        return time_decay(w.uniq, a[0])
    if k == "balance":
        from finmlkit.label.weights import class_balance_weights
        return class_balance_weights(w.labels, w.uniq)
    if k == "info_weights":
        from finmlkit.label.kit import SampleWeights
        return SampleWeights.compute_info_weights(w.td, pd.DataFrame({"event_idx": w.ev, "touch_idx": w.touch}, index=w.feats.index))
    if k == "final_weights":
        from finmlkit.label.kit import SampleWeights
        S = lambda v: pd.Series(v, index=w.feats.index)    # noqa: E731
        return SampleWeights.compute_final_weights(S(w.uniq), 0.5, S(w.wts + 0.5) if a[0] & 1 else None, S(w.wts) if a[0] & 2 else None, S(w.labels))
    if k == "cusum_filter":
        from finmlkit.sampling.filters import cusum_filter
        return cusum_filter(w.px, w.thr if a[0] else np.array([0.01]))
    if k == "spec":
        return feat.SPECS[a[0]].build(a[1])(w.df, backend=a[2])
    if k == "expr":
        return expr.build(a[0])(w.df, backend=a[1])
    if k == "break":
        import finmlkit.feature.core.structural_break.cusum as B
        if a[0] == "rolling":
            return B.cusum_test_rolling(w.series, a[1], a[2])
        if a[0] == "developing":
            return B.cusum_test_developing(w.series, a[2])
        return B.cusum_test_last(w.series)
    if k == "kitbuild":
        from finmlkit.feature.kit import FeatureKit
        return FeatureKit([expr.build(e) for e in a[0]], retain=list(a[3])).build(w.df, backend=a[2], order=a[1])
    if k == "store":
        from finmlkit.bar.data_model import TradesData
        d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
        try:
            w.td.save_h5(os.path.join(d, "t.h5"))
            return TradesData.load_trades_h5(os.path.join(d, "t.h5"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    raise AssertionError(op)


def run_kit(w, kind, k, factor, mult):
    import pandas as pd
    from finmlkit.bar.kit import CUSUMBarKit, DollarBarKit, TickBarKit, TimeBarKit, VolumeBarKit
    if kind == "time":
        span = int(w.ts[-1] - w.ts[0])
        kit = TimeBarKit(w.td, pd.Timedelta(seconds=max(1, span // NS["s"] // 400 + 1) * k))
    elif kind == "tick":
        kit = TickBarKit(w.td, k)
    elif kind == "volume":
        kit = VolumeBarKit(w.td, k * 1.5)
    elif kind == "dollar":
        kit = DollarBarKit(w.td, k * 60.0)
    else:
        kit = CUSUMBarKit(w.td, w.sigma, sigma_mult=float(k) / 2)
    ix = kit.bar_close_indices
    out = {"ix": ix, "ts": kit.bar_close_timestamps}
    if len(ix):
        out["ohlcv"] = kit.build_ohlcv()
        out["dir"] = kit.build_directional_features()
        theta = np.array([0.5 + (i % 5) for i in range(len(ix))])
        keep = theta.tobytes()
        out["size"] = kit.build_trade_size_features(theta, mult)
        out["theta unchanged"] = theta.tobytes() == keep
        out["fp"] = kit.build_footprints(price_tick_size=0.5, imbalance_factor=factor)
        if kind == "cusum":
            out["sigma"] = kit.get_sigma()
    return out


def prepare(w, unit, res, side, dup, shuffle):
    from finmlkit.bar.data_model import TradesData
    n = len(w.ts)
    r = random.Random(w.c["seed"] + 1)
    order = list(range(n)) + [r.randrange(n) for _ in range(dup)]
    if shuffle:
        order = sorted(order, key=lambda i: (i // 4, r.random()))
    ts = (w.ts // NS[unit or "ns"])[order]
    px, am, ids = w.px[order], w.am64[order], w.ids[order]
    keep = [a.tobytes() for a in (ts, px, am, ids)]
    kw = {"is_buyer_maker": w.maker[order]} if side == "maker" else {"side": w.sd[order]} if side == "side" else {}
    kk = [a.tobytes() for a in kw.values()]
    td = TradesData(ts, px, am, ids, timestamp_unit=unit, preprocess=True, proc_res=res, **kw)
    same = keep == [a.tobytes() for a in (ts, px, am, ids)] and kk == [a.tobytes() for a in kw.values()]
    return {"td": td, "inputs unchanged": same}
