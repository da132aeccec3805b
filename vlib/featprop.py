"""Facets that compare a transform with its definition (used by P23 - P26)."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vlib import feat
from vlib.core import Facet, Skip, Violation, require, sut
from vlib.gen import bulk


def evaluate(spec, p, df, backend):
    """transform -> list of series, index and names checked"""
    tf = spec.build(p)
    res = feat.outputs(sut(tf, df, backend=backend))
    names = feat.names_of(tf)
    require(len(res) == len(names), lambda: f"{spec.cls}: {len(res)} outputs, {len(names)} declared")
    for r, nm in zip(res, names):
        require(len(r) == len(df) and r.index.equals(df.index), f"{spec.cls}: the output is not on the index of the table")
    return tf, res, names


def size(c, col):
    """magnitude of an input column: absolute errors are judged against it"""
    v = np.abs(c[col] if col in c else c["close"])
    v = v[np.isfinite(v)]
    return float(v.max()) if len(v) and v.max() > 0 else 1.0


def check_spec(spec, case):
    t, p = case["t"], case["p"]
    df = feat.frame(t)
    ts, c = feat.columns(t)
    exp = spec.ref(ts, c, p)
    atol = spec.atol * min(1.0, size(c, p.get("col") or "close")) if spec.scale_free is None else spec.atol
    for be in ("nb", "pd"):
        tf, res, names = evaluate(spec, p, df, be)
        require(len(res) == len(exp), f"{spec.cls}: {len(res)} outputs, expected {len(exp)}")
        for r, e, nm in zip(res, exp, names):
            feat.compare(f"{nm} ({be}, {p})", r.to_numpy(), e, spec.rtol, atol)
            if spec.bounds:
                v = r.to_numpy(dtype=float)
                v = v[~np.isnan(v)]
                if len(v) and nm != "vwap_drift":
                    lo, hi = spec.bounds
                    tol = 1e-9 * max(1.0, abs(lo), abs(hi) if hi < math.inf else 1.0)
                    require(v.min() >= lo - tol and v.max() <= hi + tol, lambda: f"{nm} ({be}, {p}) leaves its bounds [{lo}, {hi}]: {v.min()} .. {v.max()}")
        if spec.scale_free and be == "nb" and case.get("scale"):
            _, res2, _ = evaluate(spec, p, feat.frame({**t, "tick": t["tick"] * 8.0}), be)
            for a, b, e, nm in zip(res, res2, exp, names):
                feat.compare(f"{nm} of prices in another unit ({p})", b.to_numpy(), [x if e[i] is not feat.ANY else feat.ANY for i, x in enumerate(a.to_numpy(dtype=float).tolist())], 1e-6, 1e-7)


def informative(spec, case):
    ts, c = feat.columns(case["t"])
    exp = spec.ref(ts, c, case["p"])
    vals = set()
    for e in exp:
        for v in e:
            if v is feat.ANY:
                continue
            v = v.v if isinstance(v, feat.Close) else float(v)
            if v == v:
                vals.add(v)
    return len(vals) > 2


RULE = "a case counts if the definition gives at least three different defined values"


def facets(owner, quick=250, thorough=6000, table=None, holes=(), bulk_quick=25, bulk_thorough=600, lo=1, hi=40, sizes=(60, 150, 400), special=None):
    out = []
    for name, spec in feat.SPECS.items():
        if spec.owner != owner or spec.ref is None or name == "TimeCues":
            continue
        chk = (special or {}).get(name, check_spec)
        tb = (table or {}).get(name) or feat.tables(lo, hi, **spec.tkw)
        fields = {"t": tb, "p": spec.strategy(), "scale": st.booleans()}
        f = Facet(name, st.fixed_dictionaries(fields), lambda c, s=spec, k=chk: k(s, c), quick=quick, thorough=thorough,
                  nontrivial=lambda c, s=spec: informative(s, c),
                  classify=lambda c, s=spec: [f"bars:{10 * (len(c['t']['rows']) // 10)}+"] + ([f"window:{'1' if w == 1 else '2-5' if w < 6 else '6+'}"] if isinstance(w := c["p"].get("window", c["p"].get("length", c["p"].get("periods"))), int) else []))
        out.append(f)

        def big(r, n, c, spec=spec):
            p = dict(c["p"])
            for k in ("window", "span", "length"):
                if isinstance(p.get(k), int) and r.random() < 0.5:
                    p[k] = r.randint(13, 50) if spec.cls not in ("ADX",) else r.randint(9, 20)
            return {"t": feat.bulk_table(r, n, vol0=True), "p": p, "scale": r.random() < 0.3}
        b = bulk(f, big, bulk_quick, bulk_thorough, sizes=sizes, extra={"p": spec.strategy()})
        out.append(b)
        if name in holes:
            def with_holes(c, s=spec, k=chk):
                k(s, {**c, "t": {**c["t"], "holes": c["holes"]}, "scale": False})
            fields = {"t": tb, "p": spec.strategy(), "holes": st.lists(st.tuples(st.integers(0, 25), st.sampled_from(holes[name])).map(list), min_size=1, max_size=4)}
            out.append(Facet(name + "_missing", st.fixed_dictionaries(fields), with_holes, quick=quick, thorough=thorough,
                             nontrivial=lambda c, s=spec: informative(s, {**c, "t": {**c["t"], "holes": c["holes"]}})))
    return out
