"""P29 - inputs are left bitwise unchanged and computations are repeatable, for single calls and histories of calls over shared inputs."""
from hypothesis import strategies as st

from vlib import entries
from vlib.core import Facet, Skip, require, sut  # noqa: F401

PROPERTY = "P29"
RULE = "a case counts if at least one call of the history returns a result (not an error)"
ASSUMPTIONS = ["the footprint container may switch between its two documented list representations; its values must not change", "results agree up to the rounding of sums: parallel reductions may add in another order",
               "an input the library rejects must be rejected again on repetition and stay unchanged as well"]


def outcome(w, op):
    try:
        return entries.snapshot(entries.run(w, op))
    except Exception as e:                                 # noqa: BLE001
        return [("raised", type(e).__name__, (), str(e)[:80].encode())]


def run_history(c):
    w = entries.World(c["w"])
    first, ok = {}, False
    kept = []
    for k, op in enumerate(c["ops"]):
        if op[0] in ("profile", "fp_slice", "fp_table"):
            try:
                w.footprint()
            except ValueError:
                continue
        before = entries.snapshot(w.inputs())
        try:
            live = entries.run(w, op)
            got = entries.snapshot(live)
            ok = True
            kept.append((op, live, got))
        except Exception as e:                             # noqa: BLE001
            got = [("raised", type(e).__name__, (), b"")]
        d = entries.first_difference(before, entries.snapshot(w.inputs()))
        require(d is None, lambda: f"call {k} {op} changed its inputs: {d}")
        for p, m, s, b in got:
            require(not (p.endswith("unchanged") and b"True" not in b.replace(b"\0", b"")), lambda: f"call {k} {op} changed an array passed in")
        key = repr(op)
        if key in first:
            d = entries.first_difference(first[key], got, False)
            require(d is None, lambda: f"repeating {op} over the same inputs gives another result: {d}")
        first[key] = got
    for op, live, got in kept:                             # results handed out earlier are not touched by later calls
        d = entries.first_difference(got, entries.snapshot(live))
        require(d is None, lambda: f"the result of {op} changed after it was returned: {d}")
    for key, op in {repr(o): o for o in c["ops"]}.items():  # nor does the history matter: fresh inputs, single call
        if key in first:
            fresh = entries.World(c["w"])
            try:
                got = entries.snapshot(entries.run(fresh, op))
            except Exception as e:                         # noqa: BLE001
                got = [("raised", type(e).__name__, (), b"")]
            d = entries.first_difference(first[key], got, False)
            require(d is None, lambda: f"{op} gives another result on fresh equal inputs than after {len(c['ops'])} calls: {d}")
    return ok


def check(c):
    run_history(c)


def nontrivial(c):
    return bool(c["ops"])


def history(op, lo=1, hi=3):
    """calls with deliberate repetitions"""
    return st.lists(op, min_size=lo, max_size=hi).flatmap(lambda ops: st.lists(st.sampled_from(range(len(ops))), max_size=2).map(lambda again: ops + [ops[i] for i in again] + [ops[0]]))


def cases(op, lo=1, hi=3, **kw):
    return st.builds(lambda w, o: {"w": w, "ops": o}, entries.worlds(**kw), history(op, lo, hi))


def labels(c):
    return sorted({o[0] for o in c["ops"]} | {o[1] for o in c["ops"] if o[0] in ("spec", "kit", "break")})


FACETS = [
    Facet("bars", cases(entries.bar_ops()), check, quick=900, thorough=16000, jit_quick=250, classify=labels),
    Facet("labels", cases(entries.label_ops()), check, quick=900, thorough=16000, jit_quick=250, classify=labels),
    Facet("features", cases(entries.table_ops(), thi=20), check, quick=900, thorough=16000, jit_quick=280, classify=labels),
    Facet("mixed", cases(st.one_of(entries.bar_ops(), entries.label_ops(), entries.table_ops()), lo=2, hi=6), check, quick=500, thorough=9000, jit_quick=180, classify=labels),
    Facet("store", cases(st.one_of(st.just(["store"]), entries.bar_ops()), lo=1, hi=2), check, quick=40, thorough=600, jit_quick=20, classify=labels),
]
JIT_WORKERS = 4
