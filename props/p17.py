"""P17 - triple-barrier labels against a direct search for the first touched barrier."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import NS, bulk
from vlib.kern import log

PROPERTY = "P17"
RULE = "a case counts if it has two events or more and at least one of them touches a horizontal barrier"
ASSUMPTIONS = ["observation stamps are non-decreasing, events are positions of observations, prices are positive, targets are non-negative",
               "an event without any observation inside its holding period gets label 0, a missing return and ratio, and itself as the touch position",
               "the ratio at a vertical touch is the progress towards the barrier on the side of the final return, divided by one plus the progress towards the other side, "
               "capped at one; progress is counted from the minimum close time on"]
GAPS = [0, 1, 1000, 100 * NS["ms"], 500 * NS["ms"], NS["s"], NS["s"], NS["s"], 3 * NS["s"], 60 * NS["s"]]


@st.composite
def case(draw, meta=None):
    n = draw(st.integers(2, 40))
    p = 64
    px = []
    walk = draw(st.sampled_from(["walk", "walk", "flat", "jump"]))
    for _ in range(n):
        p += draw({"walk": st.integers(-2, 2), "flat": st.sampled_from([0, 0, 0, 1, -1]), "jump": st.sampled_from([0, 8, -8, 30, -25])}[walk])
        p = min(max(p, 8), 512)
        px.append(p)
    m = draw(st.integers(1, 12))
    b = st.sampled_from([1.0, 1.0, 0.5, 2.0, 3.0, "inf", "-inf", 0.0])
    return {"base": draw(st.sampled_from([0, 1_700_000_000, 1_700_000_000])), "sub": draw(st.sampled_from([0, 0, 128_000_000, 999_999_999])),
            "gaps": draw(st.lists(st.sampled_from(GAPS), min_size=n, max_size=n)), "px": px,
            "ev": draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m)),
            # a target is a fraction of a move that the path may realise exactly
            "tgt": draw(st.lists(st.sampled_from([["x", 0.01], ["x", 0.05], ["x", 0.001], ["x", 0.2], ["x", 0.0], ["hit", 1], ["hit", 2], ["hit", 5], ["hit", 9]]), min_size=m, max_size=m)),
            "lo": draw(b), "up": draw(b),
            "vb": draw(st.sampled_from(["inf", 1e9, 0.1, 0.5, 1.0, 2.0, 3.0, 4.5, 10.0, 60.0, 61.0, 120.0])),
            "mc": draw(st.sampled_from([0.0, 0.0, 0.1, 1.0, 1.5, 3.0, 61.0])),
            "meta": draw(st.booleans()) if meta is None else meta,
            "side": draw(st.lists(st.sampled_from([1, -1, 1, -1, 0]), min_size=m, max_size=m)), "min_ret": draw(st.sampled_from([0.0, 0.0, 0.001, 0.03]))}


def inputs(c):
    t, ts = c["base"] * NS["s"] + c["sub"], []
    for g in c["gaps"]:
        t += g
        ts.append(t)
    px = [p / 64 for p in c["px"]]                         # the walk starts at 1: its log return to any price is the same number however it is computed
    lp = log(np.array(px))
    tg = []
    for e, (k, v) in zip(c["ev"], c["tgt"]):
        if k == "x":
            tg.append(v)
        else:                                           # the move from the event to the v-th later observation: a barrier touched exactly
            j = min(e + v, len(px) - 1)
            tg.append(float(abs(lp[j] - lp[e])))
    return ts, px, lp, tg


def reference(c, side, ratio=False):
    """log returns are differences of logs, or logs of ratios: they may round differently at an exact touch"""
    ts, px, lp, tg = inputs(c)
    ret = (lambda j, e: float(log(np.array([px[j] / px[e]]))[0])) if ratio else (lambda j, e: float(lp[j] - lp[e]))
    lo, up = float(c["lo"]), float(c["up"])
    vb = float(c["vb"])
    out = []
    for k, e in enumerate(c["ev"]):
        end = len(ts) - 1 if math.isinf(vb) else max(j for j in range(len(ts)) if ts[j] <= ts[e] + round(vb * 1e9))
        if end <= e:
            out.append((0, e, math.nan, math.nan, "none"))
            continue
        U, L = tg[k] * up, -tg[k] * lo
        s = side[k] if side is not None else 1
        hu = hl = 0.0
        touch, kind = end, "vertical"
        for j in range(e + 1, end + 1):
            if ts[j] - ts[e] < round(c["mc"] * 1e9):
                continue
            r = ret(j, e) * s
            if r > 0 and math.isfinite(U) and U != 0:
                hu = max(hu, r / U)
            if r < 0 and math.isfinite(L) and L != 0:
                hl = max(hl, r / L)
            if (math.isfinite(U) and r >= U) or (math.isfinite(L) and r <= L):
                touch, kind = j, "horizontal"
                break
        r = ret(touch, e) * s
        if side is not None:
            lab = int(r >= c["min_ret"])
        else:
            lab = -1 if r < 0 else 1
        if kind == "horizontal":
            q = 1.0
        elif r > 0:
            q = min(1.0, hu / (1 + hl)) if math.isfinite(U) and U != 0 else math.nan
        else:
            q = min(1.0, hl / (1 + hu)) if math.isfinite(L) and L != 0 else math.nan
        out.append((lab, touch, r, q, kind))
    return out


def call(c, ev=None, tg=None, side=None):
    from finmlkit.label.tbm import triple_barrier
    ts, px, _, t = inputs(c)
    return triple_barrier(np.array(ts, dtype=np.int64), np.array(px), np.array(c["ev"] if ev is None else ev, dtype=np.int64), np.array(t if tg is None else tg),
                          (float(c["lo"]), float(c["up"])), float(c["vb"]), c["mc"], side, c["min_ret"])


def check(c):
    side = np.array(c["side"], dtype=np.int8) if c["meta"] else None
    lab, touch, ret, rat = sut(call, c, side=side)
    exp = reference(c, c["side"] if c["meta"] else None)
    alt = reference(c, c["side"] if c["meta"] else None, ratio=True)
    if len(touch) == len(exp) == len(lab):
        same = lambda e, k: (e[0], e[1]) == (int(lab[k]), int(touch[k])) and (e[3] == rat[k] or abs(e[3] - rat[k]) < 1e-9 or (e[3] != e[3] and rat[k] != rat[k]))  # noqa: E731
        exp = [b if same(b, k) else a for k, (a, b) in enumerate(zip(exp, alt))]
    cmp_exact("touch position", touch, [e[1] for e in exp])
    cmp_float("return", ret, [e[2] for e in exp], rtol=1e-9, atol=1e-12)
    cmp_exact("label", lab, [e[0] for e in exp])
    # when the progress towards the barrier is exactly at the edge, rounding decides: the ratio is continuous there
    cmp_float("ratio", rat, [e[3] for e in exp], rtol=1e-9, atol=1e-12)
    require(lab.dtype == np.int8 and len(lab) == len(c["ev"]), "label array type or length")


def check_split(c):
    """an event's outcome does not depend on the other events"""
    side = np.array(c["side"], dtype=np.int8) if c["meta"] else None
    full = sut(call, c, side=side)
    t = inputs(c)[3]
    order = list(range(len(c["ev"])))[::-1]
    rev = sut(call, c, [c["ev"][i] for i in order], [t[i] for i in order], None if side is None else side[::-1].copy())
    for name, a, b in zip(["label", "touch", "return", "ratio"], full, rev):
        cmp_float(f"{name} when the events are listed in reverse", np.asarray(b)[::-1].astype(float), np.asarray(a).astype(float), rtol=0, atol=0)
    k = len(order) // 2
    one = sut(call, c, [c["ev"][k]], [t[k]], None if side is None else side[k:k + 1].copy())
    for name, a, b in zip(["label", "touch", "return", "ratio"], full, one):
        cmp_float(f"{name} of a single event", [float(b[0])], [float(a[k])], rtol=0, atol=0)
    if not c["meta"] and c["lo"] == c["up"] and math.isfinite(float(c["lo"])):
        # mirrored prices (1/p): symmetric barriers give mirrored outcomes
        d = dict(c)
        from finmlkit.label.tbm import triple_barrier
        ts, px, _, _ = inputs(c)
        m = sut(triple_barrier, np.array(ts, dtype=np.int64), np.array([1024.0 / p for p in px]), np.array(c["ev"], dtype=np.int64), np.array([x * 1.0000001 + 1e-9 for x in t]),
                (float(c["lo"]), float(c["up"])), float(c["vb"]), c["mc"], None, c["min_ret"])
        f = sut(triple_barrier, np.array(ts, dtype=np.int64), np.array(px), np.array(c["ev"], dtype=np.int64), np.array([x * 1.0000001 + 1e-9 for x in t]),
                (float(c["lo"]), float(c["up"])), float(c["vb"]), c["mc"], None, c["min_ret"])
        cmp_exact("touch position on mirrored prices", m[1], f[1])
        cmp_float("return on mirrored prices", m[2], -np.asarray(f[2]), rtol=1e-9, atol=1e-12)


def check_reject(c):
    from finmlkit.label.tbm import triple_barrier
    ts, px = np.arange(4, dtype=np.int64) * NS["s"], np.array([1.0, 2.0, 1.0, 2.0])
    e, t, s = np.array([0, 1]), np.array([0.1, 0.1]), np.array([1, 1], dtype=np.int8)
    bad = {"vb": (ts, px, e, t, (1.0, 1.0), c["v"], 0.0, None, 0.0), "min": (ts, px, e, t, (1.0, 1.0), 1.0, 0.0, None, c["v"] - 1e-9),
           "len": (ts[:-1], px, e, t, (1.0, 1.0), 1.0, 0.0, None, 0.0), "tgt": (ts, px, e, t[:1], (1.0, 1.0), 1.0, 0.0, None, 0.0),
           "side": (ts, px, e, t, (1.0, 1.0), 1.0, 0.0, s[:1], 0.0), "none": (ts, px, e[:0], t[:0], (1.0, 1.0), 1.0, 0.0, None, 0.0)}[c["k"]]
    expect_raises(ValueError, triple_barrier, *bad)


def kinds(c):
    return [e[4] for e in reference(c, c["side"] if c["meta"] else None)]


def labels(c):
    for k in set(kinds(c)):
        yield k
    yield "meta" if c["meta"] else "side"
    if any(isinstance(c[x], str) for x in ("lo", "up")):
        yield "disabled-barrier"
    if c["vb"] == "inf":
        yield "no-horizon"
    r = reference(c, c["side"] if c["meta"] else None)
    ts = inputs(c)[0]
    if any(e[4] == "horizontal" and e[1] == len(ts) - 1 for e in r):
        yield "hit-at-last-observation"


FACETS = [
    Facet("reference", case(), check, quick=2400, thorough=60000, classify=labels, nontrivial=lambda c: len(c["ev"]) > 1 and "horizontal" in kinds(c)),
    Facet("independence", case(), check_split, quick=800, thorough=16000, classify=labels, nontrivial=lambda c: len(c["ev"]) > 1),
    Facet("rejects", st.fixed_dictionaries({"k": st.sampled_from(["vb", "min", "len", "tgt", "side", "none"]), "v": st.sampled_from([0.0, -1.0, -0.5])}), check_reject, quick=24,
          thorough=50, nontrivial=lambda c: True),
]
JIT_WORKERS = 3


def big(r, n, c):
    p, px = 64, []
    for _ in range(n):
        p = min(max(p + r.choice((0, 0, 1, -1, 2, -2)), 8), 512)
        px.append(p)
    m = r.choice((3, 20, 150))
    b = lambda: r.choice((1.0, 1.0, 0.5, 2.0, 3.0, "inf"))  # noqa: E731
    return {"base": 1_700_000_000, "sub": r.choice((0, 128_000_000)), "gaps": [r.choice(GAPS) for _ in range(n)], "px": px,
            "ev": [r.randint(0, n - 1) for _ in range(m)], "tgt": [r.choice((["x", 0.01], ["x", 0.05], ["x", 0.2], ["hit", 2], ["hit", 9])) for _ in range(m)],
            "lo": b(), "up": b(), "vb": r.choice(("inf", 0.5, 3.0, 10.0, 60.0, 600.0, 4000.0)), "mc": r.choice((0.0, 0.0, 1.0, 61.0)), "meta": r.random() < 0.5,
            "side": [r.choice((1, -1, 0)) for _ in range(m)], "min_ret": r.choice((0.0, 0.001))}


FACETS.append(bulk(FACETS[0], big, 80, 1500, sizes=(60, 300, 800)))
