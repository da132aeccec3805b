"""P30 - the outputs of a transform: index, declared names, order; the same values with both backends, any index unit or column order; rejected inputs."""
import numpy as np
from hypothesis import strategies as st

from vlib import feat
from vlib.core import Facet, Skip, Violation, require, sut
from vlib.featprop import evaluate, informative
from props.p26 import days

PROPERTY = "P30"
RULE = "a case counts if the result has at least two different defined values"
ASSUMPTIONS = ["the daily gap and the opening range are compared across index units and for UTC only: another time zone may mean another calendar day (the calendar cues are documented as UTC)",
               "with repeated time stamps only index, names and, for transforms that do not use time, values are checked"]
UNIT = {"ns": 1, "us": 1000, "ms": 10 ** 6, "s": 10 ** 9}
MIXED = {"PriceVolumeCorrelation"}                         # its table backend has a known special case (P25), compared there


def rejects(f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception:                                      # noqa: BLE001
        return None
    return r


def with_unit(t, unit):
    u = UNIT[unit]
    return {**t, "start": t["start"] // u * u, "rows": [[(max(1, r[0] // u) if r[0] else 0) * u] + r[1:] for r in t["rows"]]}


def vary(df, c):
    import pandas as pd
    if c["index"] == "range":
        df = df.reset_index(drop=True)
    elif c["index"] == "str":
        df = df.set_axis(pd.Index([f"bar {i}" for i in range(len(df))]))
    elif c["index"] == "float":
        df = df.set_axis(pd.Index(np.arange(len(df)) / 4 - 3))
    elif c["index"] == "repeated":
        df = df.set_axis(df.index[np.arange(len(df)) // 2])
    elif c["index"] == "UTC":
        df = df.tz_localize("UTC")
    elif c["index"] == "tz":
        df = df.tz_localize("UTC").tz_convert("America/New_York")
    if c["index"] != "time":
        df.index.name = c["iname"]
    else:
        df = df.rename_axis(c["iname"])
    if c["extra"]:
        df["note"] = "text"
        df["bar_id"] = np.arange(len(df))
    return df[sorted(df.columns, key=lambda k: (hash_(k, c["order"]), k))] if c["order"] else df


def hash_(k, seed):
    import zlib
    return zlib.crc32(f"{seed}{k}".encode())


def same_values(label, a, b):
    u, v = a.to_numpy(dtype=float), b.to_numpy(dtype=float)
    ok = (u == v) | (np.isnan(u) & np.isnan(v)) | (np.abs(u - v) <= 1e-12 * np.abs(u))
    if not ok.all():
        i = int(np.argmin(ok))
        raise Violation(f"{label}: bar {i} is {v[i]!r}, but {u[i]!r} on the plain table of the same bars")


def named(label, tf, res, df):
    names = feat.names_of(tf)
    require(len(res) == len(names), lambda: f"{label}: {len(res)} outputs, names {names}")
    require(len(set(names)) == len(names), lambda: f"{label}: names {names} repeat")
    for r, nm in zip(res, names):
        require(r.name == nm, lambda: f"{label}: output named {r.name!r}, declared {nm!r}")
        require(len(r) == len(df) and r.index.equals(df.index), lambda: f"{label}: {nm} is not on the index of the table")
        require(type(r.index) is type(df.index) and getattr(r.index, "dtype", None) == df.index.dtype, lambda: f"{label}: {nm} has an index of {r.index.dtype}, the table of {df.index.dtype}")
        require(list(r.index.names) == list(df.index.names), lambda: f"{label}: {nm} has an index named {r.index.names}, the table {df.index.names}")


def check_table(c):
    s = feat.SPECS[c["cls"]]
    t = with_unit(c["t"], c["unit"])
    plain = feat.frame(t)
    df = vary(feat.frame(t, unit=c["unit"]), c)
    label = f"{s.cls} {c['p']} ({c['be']}, {c['unit']}, {c['index']})"
    tf = s.build(c["p"])
    declared = feat.names_of(tf)
    if s.time and c["index"] in ("range", "str", "float"):
        if s.cls in ("DailyGap", "ORBBreak", "TimeCues", "BarRate", "BarDuration", "BarDurationEWMA", "ReturnT", "EWMST"):
            require(rejects(tf, df, backend=c["be"]) is None, lambda: f"{label}: a table without time stamps is accepted by a transform that needs them")
        return
    keep = df.copy()
    res = feat.outputs(sut(tf, df, backend=c["be"]))
    named(label, tf, res, df)
    require(feat.names_of(tf) == declared, lambda: f"{label}: the declared names change from {declared} to {feat.names_of(tf)} with a call")
    require(df.equals(keep) and list(df.columns) == list(keep.columns), lambda: f"{label}: the table is changed")
    if s.time and c["index"] == "repeated" or s.cls in ("DailyGap", "ORBBreak") and c["index"] == "tz":
        return
    _, ref, _ = evaluate(s, c["p"], plain, c["be"])
    for a, b, nm in zip(ref, res, declared):
        same_values(f"{label} {nm}", a, b)
    only = df[[k for k in df.columns if k in set(tf.requires)]]
    for a, b, nm in zip(res, feat.outputs(sut(s.build(c["p"]), only, backend=c["be"])), declared):
        same_values(f"{label} {nm} of the required columns alone", a, b)


def check_missing(c):
    s = feat.SPECS[c["cls"]]
    tf = s.build(c["p"])
    df = feat.frame(c["t"])
    req = list(dict.fromkeys(tf.requires))
    require(set(req) <= set(df.columns), lambda: f"{s.cls} {c['p']}: requires {req}")
    col = req[c["k"] % len(req)]
    cut = df.drop(columns=[col]) if c["how"] == "drop" else df.rename(columns={col: col.upper()})
    for be in ("nb", "pd"):
        require(rejects(tf, cut, backend=be) is None, lambda: f"{s.cls} {c['p']} ({be}): a table without the required column {col!r} is accepted")
    if s.cls != "Identity":
        require(rejects(tf, df, backend="numba") is None, lambda: f"{s.cls}: an unknown backend is accepted")
    sut(tf, df, backend="nb")                              # and still works on the complete table


def check_backends(c):
    s = feat.SPECS[c["cls"]]
    if s.cls in MIXED:
        raise Skip
    df = feat.frame(c["t"])
    ts, cc = feat.columns(c["t"])
    mask = s.ref(ts, cc, c["p"]) if s.ref else None
    ta, a, names = evaluate(s, c["p"], df, "nb")
    _, b, _ = evaluate(s, c["p"], df, "pd")
    for k, (x, y) in enumerate(zip(a, b)):
        u, v = x.to_numpy(dtype=float).tolist(), y.to_numpy(dtype=float).tolist()
        for i, (p, q) in enumerate(zip(u, v)):
            e = mask[k][i] if mask else None
            if e is feat.ANY or p == q or (p != p and q != q):
                continue
            tol = 2 * e.tol if isinstance(e, feat.Close) else 2 * (s.atol + s.rtol * abs(p))
            if not abs(p - q) <= tol:
                raise Violation(f"{names[k]} {c['p']}: bar {i} is {p!r} compiled and {q!r} with the table backend")


# ------------------------------------------------------------------------------------- transforms a user derives from the base classes

def user(kind, ins, outs, scale):
    from finmlkit.feature import base

    def pd_(self, x):
        r = tuple((sum(x[c] * (j + 1) for c in self.requires) * scale + j).rename(nm) for j, nm in enumerate(feat.names_of(self)))
        return r if kind in ("SIMO", "MIMO") else r[0]

    def nb_(self, x):
        a = self._prepare_input_nb(x)
        a = [a] if kind in ("SISO", "SIMO") else [a[c] for c in self.requires]
        r = tuple(sum(v * (j + 1) for v in a) * scale + j for j in range(outs if kind in ("SIMO", "MIMO") else 1))
        return self._prepare_output_nb(x.index, r if kind in ("SIMO", "MIMO") else r[0])
    cls = type("User" + kind, (getattr(base, kind + "Transform"),), {"_pd": pd_, "_nb": nb_})
    names = [f"out{j}" for j in range(outs)]
    return cls(ins[0] if kind in ("SISO", "SIMO") else ins, names if kind in ("SIMO", "MIMO") else names[0])


def check_user(c):
    df = vary(feat.frame(with_unit(c["t"], c["unit"]), unit=c["unit"]), c)
    ins = c["ins"] if c["kind"][:2] == "MI" else c["ins"][:1]
    outs = c["outs"] if c["kind"][2:] == "MO" else 1
    tf = sut(user, c["kind"], ins, outs, 0.5)
    exp_names = [(ins[0] + "_" if c["kind"][:2] == "SI" else "") + f"out{j}" for j in range(outs)]
    label = f"a {c['kind']} transform ({c['be']})"
    require(list(tf.requires) == list(ins), lambda: f"{label}: requires {tf.requires}, built with {ins}")
    require(feat.names_of(tf) == exp_names and isinstance(tf.output_name, str) == (c["kind"][2:] == "SO"), lambda: f"{label}: names {tf.output_name}, built with {exp_names}")
    raw = sut(tf, df, backend=c["be"])
    require(isinstance(raw, tuple) == (c["kind"][2:] == "MO"), lambda: f"{label}: returns {type(raw).__name__}")
    res = feat.outputs(raw)
    named(label, tf, res, df)
    for j, r in enumerate(res):
        exp = sum(df[k].to_numpy() * (j + 1) for k in ins) * 0.5 + j
        require(np.array_equal(r.to_numpy(), exp, equal_nan=True), lambda: f"{label}: output {j} ({r.name}) is {r.to_numpy()[:5]}, its own values are {exp[:5]}")
    cut = df.drop(columns=[ins[c["k"] % len(ins)]])
    require(rejects(tf, cut, backend=c["be"]) is None, lambda: f"{label}: a table without {ins[c['k'] % len(ins)]!r} is accepted")
    if c["kind"][2:] == "MO":
        bad = list(range(outs + 1)) if c["k"] % 2 else list(range(outs - 1))
        require(rejects(tf._prepare_output_nb, df.index, tuple(np.zeros(len(df)) for _ in bad)) is None, lambda: f"{label}: {len(bad)} results for {outs} names are accepted")


@st.composite
def spec(draw, names=None):
    n = draw(st.sampled_from(names or sorted(feat.SPECS)))
    s = feat.SPECS[n]
    return {"cls": n, "p": draw(s.strategy()), "t": draw(days() if n in ("DailyGap", "ORBBreak") else feat.tables(1, 25, **s.tkw)), "be": draw(st.sampled_from(["nb", "pd"]))}


def joined(base, more):
    return st.builds(lambda a, b: {**a, **b}, base, st.fixed_dictionaries(more))


def counts(c):
    if "cls" in c and feat.SPECS[c["cls"]].ref is not None:
        return informative(feat.SPECS[c["cls"]], c)
    return len(c["t"]["rows"]) > 2


VARY = {"unit": st.sampled_from(["ns", "us", "ms", "s"]), "index": st.sampled_from(["time", "time", "UTC", "tz", "range", "str", "float", "repeated"]), "iname": st.sampled_from([None, "timestamp", "t"]),
        "extra": st.booleans(), "order": st.integers(0, 50)}
KW = dict(nontrivial=counts)
COLNAMES = ["close", "open", "x", "volume", "high"]
FACETS = [
    Facet("tables", joined(spec(), VARY), check_table, quick=2500, thorough=50000, classify=lambda c: [c["cls"], c["index"], c["unit"], c["be"]], **KW),
    Facet("missing_columns", joined(spec(), {"k": st.integers(0, 5), "how": st.sampled_from(["drop", "rename"])}), check_missing, quick=700, thorough=10000, classify=lambda c: [c["cls"]], **KW),
    Facet("backends", spec(), check_backends, quick=2000, thorough=40000, classify=lambda c: [c["cls"]], **KW),
    Facet("derived_transforms", st.fixed_dictionaries({"kind": st.sampled_from(["SISO", "MISO", "SIMO", "MIMO"]), "ins": st.lists(st.sampled_from(COLNAMES), min_size=2, max_size=4, unique=True),
                                                       "outs": st.integers(2, 4), "t": feat.tables(1, 12), "be": st.sampled_from(["nb", "pd"]), "k": st.integers(0, 3), **VARY}),
          check_user, quick=500, thorough=8000, classify=lambda c: [c["kind"], c["index"]], **KW),
]
