"""P34 - compiled against interpreted execution of the same call on the same inputs; thread counts; foreign memory around the inputs."""
import numpy as np
from hypothesis import strategies as st

from vlib import entries, feat
from vlib.core import Facet, Skip, Violation, require
from vlib.gen import NS  # noqa: F401
from vlib.peer import Peer, outcome

PROPERTY = "P34"
RULE = "a case counts if the call returns a result with at least one defined number in both executions"
ASSUMPTIONS = ["amounts are exact binary fractions, so that sums do not depend on the precision an interpreter picks for intermediate values",
               "where a quantity is ill-conditioned (the reference definition marks it) it is not compared between executions; its bounds are checked elsewhere",
               "thread counts 1 to 3; the schedule within a run is the operating system's"]


def agree(op, a, b, what, mask=None):
    require(isinstance(a, tuple) == isinstance(b, tuple), lambda: f"{op}: one execution raises and the other does not: {a if isinstance(a, tuple) else 'result'} / {b if isinstance(b, tuple) else 'result'} ({what})")
    if isinstance(a, tuple):
        return
    require([p for p, _ in a] == [p for p, _ in b], lambda: f"{op}: differently structured results ({what})")
    k = -1
    for (p, x), (_, y) in zip(a, b):
        require(x.shape == y.shape, lambda: f"{op} {p}: shape {x.shape} against {y.shape} ({what})")
        if x.dtype.kind in "fc" or y.dtype.kind in "fc":
            u, v = x.astype(np.float64), y.astype(np.float64)
            k += 1
            if mask is not None:
                exp = mask[k]
                u, v, tol = masked(u, v, exp)
            else:
                big = np.abs(v[np.isfinite(v)]).max(initial=0.0)
                r = 3e-5 if np.float32 in (x.dtype, y.dtype) else 1e-8
                if "vp_" in p:                              # deviations from a single-precision mean price
                    r, big = 3e-5, 100.0
                tol = r * np.abs(v) + (1e-6 if r > 1e-6 else 1e-9) * max(1.0, big)
            with np.errstate(all="ignore"):
                ok = (np.isnan(u) & np.isnan(v)) | (u == v) | (np.abs(u - v) <= tol)
            if not ok.all():
                i = int(np.argwhere(~ok)[0][0])
                raise Violation(f"{op} {p}[{i}]: {u[i]!r} compiled, {v[i]!r} {what}")
        else:
            eq = x == y
            if not np.all(eq):
                i = int(np.argwhere(~eq)[0][0])
                raise Violation(f"{op} {p}[{i}]: {x[i]!r} compiled, {y[i]!r} {what}")


def masked(u, v, exp):
    keep = np.array([e is not feat.ANY for e in exp])
    tol = np.array([0.0 if e is feat.ANY else 2 * e.tol if isinstance(e, feat.Close) else 0.0 if e != e or abs(e) == float("inf") else 2e-6 * abs(e) + 2e-6 for e in exp])
    return u[keep], v[keep], tol[keep]


def reference_mask(c, op):
    if op[0] != "spec":
        return None
    ref = feat.SPECS[op[1]].ref
    if ref is None:
        return None
    ts, cols = feat.columns(c["t"])
    cols["prev"] = cols["x"] * 3 + 1
    return ref(ts, cols, op[2])


def check_modes(c):
    got = outcome(c["w"], c["op"])
    want = Peer.ask(c["w"], c["op"])
    if c["op"][0] == "break" or c["op"][:2] == ["spec", "CUSUMTest"]:      # the critical value of tied reference points is not determined
        if not isinstance(got, tuple) and not isinstance(want, tuple):
            got, want = statistics(got), statistics(want)
    agree(c["op"], got, want, "interpreted", reference_mask(c["w"], c["op"]))


def statistics(o):
    f = [k for k, (p, a) in enumerate(o) if a.dtype.kind == "f"]
    drop = {f[k] for k in (1, 3) if k < len(f)} if len(f) == 4 else set(f[1:])
    return [x for k, x in enumerate(o) if k not in drop]


def check_threads(c):
    import numba
    res = []
    w = entries.big_world(c["seed"], c["n"]) if "seed" in c else c["w"]
    for n in c["threads"]:
        numba.set_num_threads(n)
        try:
            res.append(snap(w, c["op"], None))
        finally:
            numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)
    for r, n in zip(res[1:], c["threads"][1:]):
        d = entries.first_difference(res[0], r, False)
        require(d is None, lambda: f"{c['op']}: result with {c['threads'][0]} thread(s) and with {n}: {d}")


def snap(w, op, guard):
    try:
        return entries.snapshot(entries.run(entries.World(w, guard), op))
    except Exception as e:                                 # noqa: BLE001
        return [("raised", type(e).__name__, (), b"")]


def check_memory(c):
    """values next to the arrays, and what freshly allocated memory holds, are irrelevant"""
    a, b = snap(c["w"], c["op"], 1e300), snap(c["w"], c["op"], -7.0)
    d = entries.first_difference(a, b, False)
    require(d is None, lambda: f"{c['op']}: the result depends on memory outside the inputs: {d}")
    d = entries.first_difference(a, snap(c["w"], c["op"], None), False)
    require(d is None, lambda: f"{c['op']}: the result depends on memory outside the inputs: {d}")


def check_extreme(c):
    if c["op"][1] == "EWMST":
        raise Skip                                         # its weights lose precision for long half-lives; compared (with that in account) in modes_features
    got = outcome(c["w"], c["op"])
    want = Peer.ask(c["w"], c["op"])
    agree(c["op"], got, want, "interpreted")


BAR = entries.pick([
    (3, st.builds(lambda kit, k, f, m: ["kit", kit, k, f, m], st.sampled_from(entries.KITS), st.integers(1, 6), st.sampled_from([3.0, 1.0, 2.0]), st.sampled_from([5.0, 1.0]))),
    (5, st.sampled_from([["ohlcv", 0], ["ohlcv", 1], ["directional", 0], ["directional", 1], ["size", 5.0], ["size", 1.0], ["footprints", 3.0], ["footprints", 1.0], ["sides"], ["tick_size"]])),
    (1, st.builds(lambda u, res, bm, dup, sh: ["prepare", u, res, bm, dup, sh], st.sampled_from(["ns", "us", "ms"]), st.sampled_from([None, "ms", "us"]),
                  st.sampled_from([None, "maker", "side"]), st.integers(0, 4), st.booleans())),
    (2, st.builds(lambda w, b, v: ["profile", w, b, v], st.sampled_from([10, 30, 60, 3600]), st.sampled_from([27, 3, 8]), st.sampled_from([50.0, 25.0, 75.0])))])
NUM = st.one_of(BAR, entries.label_ops(), entries.spec_ops(["nb"]), entries.break_ops())


def one(op, **kw):
    return st.builds(lambda w, o: {"w": w, "op": o}, entries.worlds(**kw), op)


def labels(c):
    return [c["op"][0] + (" " + str(c["op"][1]) if c["op"][0] in ("spec", "kit", "break") else "")]


SPECIALS = st.lists(st.tuples(st.sampled_from(["close", "high", "low", "open", "vwap", "x", "volume", "ret", "volume_buy"]), st.integers(0, 24),
                              st.sampled_from(["nan", "inf", "-inf", "0", "-0.0", "-3", "1e308", "5e-324", "1e-160"])).map(list), min_size=1, max_size=4)
THREADS = st.sampled_from([[1, 2, 3], [3, 1], [2, 3, 1]])
KW = dict(nojit=False, classify=labels)
FACETS = [
    Facet("modes_bars", one(BAR), check_modes, quick=900, thorough=14000, **KW),
    Facet("modes_labels", one(entries.label_ops()), check_modes, quick=700, thorough=12000, **KW),
    Facet("modes_features", one(st.one_of(entries.spec_ops(["nb"]), entries.break_ops()), hi=3, thi=40), check_modes, quick=1800, thorough=24000, **KW),
    Facet("modes_extreme", st.builds(lambda w, o, s: {"w": {**w, "specials": s}, "op": o}, entries.worlds(hi=3, thi=25), entries.spec_ops(["nb"]), SPECIALS), check_extreme, quick=1500,
          thorough=20000, **KW),
    Facet("threads", st.builds(lambda s, n, o, t: {"seed": s, "n": n, "op": o, "threads": t}, st.integers(0, 2 ** 31), st.integers(20, 500),
                               entries.pick([(2, BAR), (2, entries.label_ops()), (3, entries.spec_ops(["nb"]))]), THREADS), check_threads, quick=400, thorough=6000, **KW),
    Facet("memory", one(entries.pick([(2, BAR), (2, entries.label_ops()), (4, entries.spec_ops(["nb"])), (1, entries.break_ops())])), check_memory, quick=900, thorough=14000, **KW),
]
