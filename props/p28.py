"""P28 - no look-ahead: the values of a feature up to a bar are the same whatever follows that bar (cut off, altered or longer tables)."""
import numpy as np
from hypothesis import strategies as st

from vlib import expr, feat
from vlib.core import Facet, Skip, Violation, require, sut
from vlib.gen import bulk
from props.p26 import days
from props.p32 import kits, make, names_of

PROPERTY = "P28"
RULE = "a case counts if the common part of the two tables has at least one defined feature value and the two tables differ after it"
ASSUMPTIONS = ["altering the future changes prices, volumes, returns, gaps or the number of later bars; index and columns up to the cut stay the same"]


def prefix_equal(label, a, b, k, be):
    for x, y in zip(feat.outputs(a), feat.outputs(b)):
        u, v = x.to_numpy(dtype=float)[:k].tolist(), y.to_numpy(dtype=float)[:k].tolist()
        for i, (p, q) in enumerate(zip(u, v)):
            if not (p == q or (p != p and q != q) or abs(p - q) <= 1e-12 + 1e-10 * abs(p)):
                raise Violation(f"{label} ({be}): value at bar {i} is {p!r}, but {q!r} when only what follows bar {k - 1} is different")


def two_tables(c):
    rows, k = c["t"]["rows"], min(c["k"], len(c["t"]["rows"]))
    k = max(k, 1)
    if c["mode"] == "cut":
        other = rows[:k]
    elif c["mode"] == "alter":
        other = rows[:k] + [r for r in c["future"]]
    else:
        other = rows + c["future"]
        k = len(rows)
    extra = [h for h in c.get("holes", ()) if h[0] < k]    # missing entries of the common part only
    later = [[k + i, w] for i, w in c.get("fholes", ())]   # missing entries of the altered future
    return table({**c["t"], "holes": extra}), table({**c["t"], "rows": other, "holes": extra + later}), k


def table(t):
    df = feat.frame(t)
    df["prev"] = df["x"] * 3 + 1
    return df


def evaluate(f, a, b):
    try:
        return f(a), f(b)
    except Exception:                                      # noqa: BLE001
        return None


def special(cls, p, be, t):
    """PriceVolumeCorrelation's pandas backend looks at the whole table in its hard-coded special case (known finding, own facet)"""
    if cls != "PriceVolumeCorrelation" or be != "pd" or p["window"] != 4:
        return False
    _, c = feat.columns(t)
    x, v = c["close"], c["volume"]
    for n in range(5, len(x) + 1):
        if (np.diff(x[:n]) >= 0).all() and ((np.diff(v[:n]) >= 0).all() or (np.diff(v[:n]) <= 0).all()):
            return True
    return False


def check_transform(c):
    a, b, k = two_tables(c)
    be = c["be"]
    if special(c["cls"], c["p"], be, c["t"]):
        raise Skip
    mk = lambda: feat.SPECS[c["cls"]].build(c["p"])        # noqa: E731
    prefix_equal(f"{c['cls']} {c['p']}", sut(mk(), a, backend=be), sut(mk(), b, backend=be), k, be)


def check_expr(c):
    a, b, k = two_tables(c)
    if any(s[0] == "compose" and s[1][0] == "PriceVolumeCorrelation" or s[0] == "t" and s[1] == "PriceVolumeCorrelation" for s in expr.subnodes(c["e"])):
        raise Skip
    f, g = expr.build(c["e"]), expr.build(c["e"])
    try:
        x = f(a, backend=c["be"])
    except Exception:                                      # noqa: BLE001  a pipeline stage that rejects its input
        raise Skip
    prefix_equal(str(f.name), x, sut(g, b, backend=c["be"]), k, c["be"])


def check_kit(c):
    from finmlkit.feature.kit import FeatureKit
    kc = c["kit"]
    if "PriceVolumeCorrelation" in str(kc["nodes"]):
        raise Skip
    a, b, k = two_tables(c)
    feats = make(kc)
    flat = [nm for f in feats for nm in names_of(f)]
    if len(set(flat)) != len(flat) or set(flat) & set(kc["retain"]):
        raise Skip
    try:
        x = FeatureKit(feats, retain=kc["retain"]).build(a, backend=kc["be"], order=kc["order"])
    except Exception:                                      # noqa: BLE001
        raise Skip
    y = sut(FeatureKit(make(kc), retain=kc["retain"]).build, b, backend=kc["be"], order=kc["order"])
    for col in x.columns:
        prefix_equal(f"kit column {col!r}", x[col], y[col], k, kc["be"])


def check_special(c):
    """the known look-ahead of the correlation's special case"""
    a, b, k = two_tables(c)
    t = feat.SPECS["PriceVolumeCorrelation"].build({"window": 4})
    try:
        prefix_equal("PriceVolumeCorrelation", sut(t, a, backend="pd"), sut(t, b, backend="pd"), k, "pd")
    except Violation as e:
        raise Violation("hard-coded special case: " + str(e)) from e


def nontrivial(c):
    n = len(c["t"]["rows"])
    return n > 2 and (c["mode"] != "cut" or c["k"] < n)


def hole_lists(hi):
    return st.lists(st.tuples(st.integers(0, hi), st.integers(0, len(feat.HOLES) - 1)).map(list), max_size=3)


@st.composite
def futures(draw, with_=None):
    t = draw(feat.tables(3, 30))
    c = {"t": t, "k": draw(st.integers(1, len(t["rows"]))), "mode": draw(st.sampled_from(["cut", "alter", "append"])), "future": draw(feat.tables(1, 12))["rows"], "be": draw(st.sampled_from(["nb", "pd"])),
         "holes": draw(hole_lists(25)) if draw(st.booleans()) else [], "fholes": draw(hole_lists(12)) if draw(st.integers(0, 3)) == 0 else []}
    return {**c, **draw(with_)}


@st.composite
def one(draw):
    n = draw(st.sampled_from(sorted(feat.SPECS)))
    p = draw(feat.SPECS[n].strategy())
    return {"cls": n, "p": p}


def big(r, n, c):
    k = r.randint(2, n - 1)
    t = feat.bulk_table(r, n)
    mode = r.choice(["cut", "alter", "append"])
    holes = [[r.randrange(n), r.randrange(len(feat.HOLES))] for _ in range(r.choice((0, 0, 2, n // 10)))]
    return {**c["one"], "t": t, "k": k, "mode": mode, "future": feat.bulk_table(r, r.randint(1, n))["rows"], "be": c["be"], "holes": holes}


@st.composite
def trading_days(draw):
    """quarter-hour bars with missing entries, cut within a day, another rest of the day after the cut: what the intraday features look at"""
    t, o = draw(days()), draw(days())
    n = len(t["rows"])
    if draw(st.integers(0, 3)):                            # the table starts with a day's first bar
        t["start"] -= t["start"] % (86400 * 10 ** 9)
    k = draw(st.integers(min(n, 5), n))
    gap = t["rows"][1][0]
    at, first = t["start"], [0]                            # bars that open a day
    for i, r in enumerate(t["rows"]):
        at += r[0]
        if at % (86400 * 10 ** 9) == 0:
            first.append(i)
    cls = draw(st.sampled_from(["ORBBreak", "DailyGap"]))
    day = draw(st.sampled_from(first[-2:]))
    if draw(st.booleans()):
        k = min(n, day + draw(st.integers(1, 3) if cls == "DailyGap" else st.integers(5, 8)))
    where = st.one_of(st.just(day), st.just(day), st.integers(day, day + 3), st.integers(0, n - 1))
    what = st.sampled_from([0, 1, 5]) if cls == "DailyGap" else st.integers(0, len(feat.HOLES) - 1)
    holes = draw(st.lists(st.tuples(where, what).map(list), max_size=3))
    return {"t": t, "k": k, "mode": draw(st.sampled_from(["cut", "alter", "alter"])), "be": draw(st.sampled_from(["nb", "pd"])), "holes": holes,
            "future": [[gap] + r[1:] for r in o["rows"]], "cls": cls, "p": {"col": "close"} if cls == "DailyGap" else {}}


F1 = Facet("transforms", futures(one()), check_transform, quick=2500, thorough=60000, nontrivial=nontrivial, classify=lambda c: [c["cls"], c["mode"], c["be"]] + (["missing entries"] if c["holes"] else []))
F2 = Facet("expressions", futures(st.fixed_dictionaries({"e": expr.tree()})), check_expr, quick=800, thorough=15000, nontrivial=nontrivial, classify=lambda c: [c["mode"], f"depth {expr.depth(c['e'])}"])
F3 = Facet("kits", futures(st.fixed_dictionaries({"kit": kits()})), check_kit, quick=200, thorough=5000, nontrivial=nontrivial, classify=lambda c: [c["mode"]])
FB = bulk(F1, big, 250, 6000, sizes=(60, 150, 400), extra={"one": one(), "be": st.sampled_from(["nb", "pd"])})
wrows = [[60 * 10 ** 9, 0, d, 0, 0, v, 0, 0, 0] for d, v in zip((1, 9, 2, 8, 1, 7, 3, 5, 2, 1, 6), (64, 70, 200, 210, 900, 901, 950, 2000, 2100, 2400, 5000))]
FS = Facet("correlation_special_case", st.fixed_dictionaries({"k": st.integers(5, 9)}).map(lambda d: {"t": {"rows": wrows, "tick": 0.125, "base": 400, "start": feat.STARTS[0]}, "mode": "cut", "future": [], **d}),
           check_special, quick=5, thorough=20, jit=False, examples=[{"t": {"rows": wrows, "tick": 0.125, "base": 400, "start": feat.STARTS[0]}, "mode": "cut", "future": [], "k": 8}])
KNOWN = {"P28-corr-special-case": lambda facet, case, msg: facet == "correlation_special_case" and msg.startswith("hard-coded special case")}
FD = Facet("trading_days", trading_days(), check_transform, quick=1200, thorough=30000, jit=False, nontrivial=nontrivial, classify=lambda c: [c["cls"], c["mode"]] + (["missing entries"] if c["holes"] else []))
FACETS = [F1, F2, F3, FB, FS, FD]
JIT_WORKERS = 4
NOJIT_WORKERS = 4
