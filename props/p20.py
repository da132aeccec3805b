"""P20 - time decay and class balance weights."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, Skip, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import bulk

PROPERTY = "P20"
RULE = "a case counts if it has three labels or more and the oldest weight is below 1 (decay), or two classes or more with unequal totals (balance)"
ASSUMPTIONS = ["uniqueness values and base weights are non-negative with a positive sum"]


@st.composite
def decay(draw):
    n = draw(st.integers(1, 30))
    u = draw(st.lists(st.one_of(st.integers(0, 64), st.just(64)), min_size=n, max_size=n))
    return {"u": u, "lw": draw(st.one_of(st.sampled_from([-1.0, 0.0, 1.0, 0.5, -0.5, -0.25, -0.75, -0.999]), st.integers(-16, 16).map(lambda x: x / 16))), "scale": draw(st.sampled_from([1, 1, 2 ** -20, 1024]))}


def check_decay(c):
    from finmlkit.label.weights import time_decay
    u = np.array(c["u"]) / 64 * c["scale"]
    if u.sum() == 0:
        expect_raises(ValueError, time_decay, u, c["lw"])
        return
    keep = u.copy()
    w = np.asarray(sut(time_decay, u, c["lw"]))
    require(np.array_equal(u, keep), "time_decay changed its input")
    cum = np.cumsum(u)
    x = cum / cum[-1]
    lw = c["lw"]
    if lw >= 0:
        exp = lw + (1 - lw) * x
    elif lw == -1:
        exp = np.where(x >= 1, 1.0, 0.0)
    else:
        exp = np.maximum(0.0, 1 - (1 - x) / (1 + lw))
    cmp_float("time decay", w, exp, rtol=1e-9, atol=1e-9)
    require(abs(w[-1] - 1) <= 1e-9, lambda: f"newest weight {w[-1]}")
    require((np.diff(w) >= -1e-9).all() and (w >= 0).all() and (w <= 1 + 1e-9).all(), "weights are not increasing within [0, 1]")


@st.composite
def balance(draw):
    n = draw(st.integers(1, 30))
    cl = draw(st.sampled_from([[-1, 1], [0, 1], [-1, 0, 1], [1], [-3, 7, 100, -128]]))
    return {"lab": draw(st.lists(st.sampled_from(cl), min_size=n, max_size=n)), "w": draw(st.lists(st.one_of(st.integers(0, 64), st.integers(1, 64)), min_size=n, max_size=n))}


def check_balance(c):
    from finmlkit.label.weights import class_balance_weights
    lab, w = np.array(c["lab"], dtype=np.int8), np.array(c["w"]) / 16
    kl, kw = lab.copy(), w.copy()
    cls, cw, sums, fin = sut(class_balance_weights, lab, w)
    require(np.array_equal(lab, kl) and np.array_equal(w, kw), "inputs were changed")
    u = sorted(set(c["lab"]))
    cmp_exact("classes", cls, u)
    s = [math.fsum(x / 16 for x, y in zip(c["w"], c["lab"]) if y == k) for k in u]
    cmp_float("class sums", sums, s)
    tot = math.fsum(s)
    cmp_float("class weights", cw, [tot / (len(u) * x) if x > 0 else 0.0 for x in s])
    cmp_float("final weights", fin, [x / 16 * (tot / (len(u) * s[u.index(y)]) if s[u.index(y)] > 0 else 0.0) for x, y in zip(c["w"], c["lab"])])
    for k, x in zip(u, s):
        if x > 0:
            cmp_float(f"total weight of class {k}", [float(np.sum(fin[lab == k]))], [tot / len(u)])


@st.composite
def final(draw):
    n = draw(st.integers(1, 20))
    v = lambda lo: draw(st.lists(st.integers(lo, 64), min_size=n, max_size=n))  # noqa: E731
    return {"u": v(1), "lw": draw(st.sampled_from([1.0, 0.0, 0.5, -0.5, 1, 0])), "ra": draw(st.booleans()) and v(0) or None, "vt": draw(st.booleans()) and v(0) or None,
            "lab": draw(st.one_of(st.none(), st.lists(st.sampled_from([-1, 1]), min_size=n, max_size=n))), "idx": draw(st.sampled_from(["time", "int", "dup"]))}


def check_final(c):
    import pandas as pd
    from finmlkit.label.kit import SampleWeights
    n = len(c["u"])
    idx = {"time": pd.date_range("2024-01-01", periods=n, freq="7min"), "int": pd.RangeIndex(n), "dup": pd.Index([k // 2 for k in range(n)])}[c["idx"]]
    S = lambda v: None if v is None else pd.Series(np.array(v) / 64, index=idx)  # noqa: E731
    lab = None if c["lab"] is None else pd.Series(np.array(c["lab"], dtype=np.int8), index=idx)
    kw = dict(avg_uniqueness=S(c["u"]), time_decay_intercept=c["lw"], return_attribution=S(c["ra"]), vertical_touch_weights=S(c["vt"]), labels=lab)
    keep = {k: v.copy() for k, v in kw.items() if isinstance(v, pd.Series)}
    cum = np.cumsum(np.array(c["u"]) / 64)
    x, lw = cum / cum[-1], c["lw"]
    d = lw + (1 - lw) * x if lw >= 0 else np.maximum(0, 1 - (1 - x) / (1 + lw))
    if lw < 0 and np.any(np.abs(1 - (1 - x) / (1 + lw)) < 1e-9):
        raise Skip("a label exactly at the edge of the erased share: rounding decides whether its weight is zero")
    ra = None if c["ra"] is None else np.array(c["ra"], dtype=float)
    if ra is not None and ra.sum() == 0:
        expect_raises(ValueError, SampleWeights.compute_final_weights, **kw)
        return
    base = d * (ra * n / ra.sum() if ra is not None else np.array(c["u"]) / 64)
    if c["vt"] is not None:
        base = base * np.array(c["vt"]) / 64
    if base.mean() <= 0:
        expect_raises(ValueError, SampleWeights.compute_final_weights, **kw)
        return
    base = base / base.mean()
    if c["lab"] is not None:
        y = np.array(c["lab"])
        k = sorted(set(c["lab"]))
        fw = np.zeros(n)
        for z in k:
            t = base[y == z].sum()
            fw[y == z] = base[y == z] * (base.sum() / (len(k) * t)) if t > 0 else 0.0
    else:
        fw = base
    out = sut(SampleWeights.compute_final_weights, **kw)
    require(out.index.equals(idx), "index changed")
    require(("return_attribution" in out) == (ra is not None) and ("vertical_touch_weights" in out) == (c["vt"] is not None), f"columns {list(out.columns)}")
    cmp_float("time_decay_weights", out["time_decay_weights"].values, d, rtol=1e-9, atol=1e-9)
    if ra is not None:
        cmp_float("return_attribution", out["return_attribution"].values, ra * n / ra.sum())
    if c["vt"] is not None:
        cmp_float("vertical_touch_weights", out["vertical_touch_weights"].values, np.array(c["vt"]) / 64)
    cmp_float("weights", out["weights"].values, fw, rtol=1e-8, atol=1e-9)
    for k, v in keep.items():
        require(kw[k].equals(v), f"{k} was changed")


def check_reject(c):
    import pandas as pd
    from finmlkit.label.kit import SampleWeights
    from finmlkit.label.weights import time_decay
    expect_raises(ValueError, time_decay, np.array([0.5, 0.5]), c["bad"])
    s = pd.Series([0.5, 0.5])
    expect_raises(ValueError, SampleWeights.compute_final_weights, s, c["bad"])
    expect_raises(ValueError, SampleWeights.compute_final_weights, s, 1.0, **{c["arg"]: pd.Series([1.0, 1.0], index=[1, 2])})
    expect_raises(ValueError, SampleWeights.compute_final_weights, s, 1.0, **{c["arg"]: np.array([1.0, 1.0])})


FACETS = [
    Facet("decay", decay(), check_decay, quick=1500, thorough=40000, classify=lambda c: ["erased" if c["lw"] < 0 else "none" if c["lw"] == 1 else "decay"],
          nontrivial=lambda c: len(c["u"]) > 2 and c["lw"] < 1, examples=[{"u": [1, 1, 1, 0], "lw": -1.0, "scale": 1}]),
    Facet("balance", balance(), check_balance, quick=1500, thorough=40000, classify=lambda c: [f"classes:{len(set(c['lab']))}"], nontrivial=lambda c: len(set(c["lab"])) > 1),
    Facet("final", final(), check_final, quick=600, thorough=12000, classify=lambda c: [k for k in ("ra", "vt", "lab") if c[k] is not None] or ["plain"], nontrivial=lambda c: len(c["u"]) > 2),
    Facet("rejects", st.fixed_dictionaries({"bad": st.sampled_from([-1.01, 1.01, 2, -7]), "arg": st.sampled_from(["return_attribution", "vertical_touch_weights", "labels"])}),
          check_reject, quick=20, thorough=40),
]
JIT_WORKERS = 2


def big_decay(r, n, c):
    return {"u": [r.choice((64, r.randint(0, 64))) for _ in range(n)], "lw": r.randint(-16, 16) / 16, "scale": r.choice((1, 2 ** -20, 1024))}


def big_balance(r, n, c):
    cl = r.choice(([-1, 1], [0, 1], [-1, 0, 1], list(range(-8, 9))))
    return {"lab": [r.choice(cl) for _ in range(n)], "w": [r.choice((0, r.randint(1, 64), 16)) for _ in range(n)]}


FACETS.append(bulk(next(f for f in FACETS if f.check is check_decay), big_decay, 150, 3000))
FACETS.append(bulk(next(f for f in FACETS if f.check is check_balance), big_balance, 100, 2000))
