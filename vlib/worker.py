"""One worker process: runs a property's facets in one mode (nojit / jit) with one seed.  Started by vlib.manager."""
from __future__ import annotations

import argparse
import collections
import importlib
import json
import os
import sys
import time
import traceback


def facet_check(facet, case):
    from vlib.core import Skip, Violation
    try:
        facet.check(case)
    except (Skip, Violation):
        raise
    except Exception as e:  # noqa: BLE001
        # an exception that comes out of the code under test, on an input of the property's domain
        tb = traceback.extract_tb(e.__traceback__)
        if any("/finmlkit/" in f.filename for f in tb):
            raise Violation(f"the code under test raised {type(e).__name__}: {str(e)[:300]}") from e
        raise


class Lines:
    """which source lines of the code under test ran (interpreted mode: also inside the kernels); each line is reported once, so it costs nothing after that"""

    def __init__(self, repo):
        self.hit, self.root = set(), os.path.realpath(repo) + os.sep
        m = sys.monitoring

        def line(code, no):
            f = code.co_filename
            if f.startswith(self.root):
                self.hit.add((f[len(self.root):], no))
            return m.DISABLE
        try:
            m.use_tool_id(m.COVERAGE_ID, "verif")
            m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
            m.set_events(m.COVERAGE_ID, m.events.LINE)
        except ValueError:                                 # another tool has it: no line report
            pass

    def report(self):
        out = {}
        for f, no in self.hit:
            out.setdefault(f, []).append(no)
        return {f: sorted(v) for f, v in out.items()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--mode", required=True)
    ap.add_argument("--facets", required=True)      # comma separated
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--tier", required=True)
    ap.add_argument("--shards", type=int, required=True)
    ap.add_argument("--shard", type=int, required=True)
    ap.add_argument("--deadline", type=float, required=True)
    ap.add_argument("--out", required=True)
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    t0 = time.time()
    lines = Lines(a.repo) if a.mode == "nojit" else None

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45 if a.tier == "quick" else 120

    import finmlkit
    if not os.path.realpath(finmlkit.__file__).startswith(os.path.realpath(a.repo) + os.sep):
        raise SystemExit(f"harness error: finmlkit imported from {finmlkit.__file__}, not {a.repo}")
    import logging
    logging.disable(logging.CRITICAL)

    from vlib.core import Skip, Violation, _default, abbreviate, case_hash, quiet
    mod = importlib.import_module(f"props.{a.prop.lower()}")
    known = getattr(mod, "KNOWN", {})

    res = {"mode": a.mode, "shard": a.shard, "seed": a.seed, "facets": {}, "violations": [], "errors": [], "import_s": round(time.time() - t0, 2)}

    cur = open(a.out + ".cur", "w")     # the case being executed: read by the driver when this process dies or hangs

    for fname in a.facets.split(","):
        facet = next(f for f in mod.FACETS if f.name == fname)
        st = {"evaluations": 0, "discarded": 0, "nontrivial": 0, "hashes": set(), "labels": collections.Counter(),
              "samples": [], "known": collections.Counter(), "truncated": False, "max_ms": 0.0}
        last = {}
        t1 = time.time()

        def run_case(case):
            if time.time() - t0 > a.deadline and not last.get("failing"):
                st["truncated"] = True
                return
            st["evaluations"] += 1
            tc = time.time()
            cur.seek(0)
            cur.truncate()
            cur.write(json.dumps({"facet": fname, "t": tc, "case": case}, default=_default))
            cur.flush()
            try:
                with quiet():
                    facet_check(facet, case)
            except Skip:
                st["discarded"] += 1
                return
            except Violation as v:
                for kid, pred in known.items():
                    if pred(facet.name, case, str(v)):
                        st["known"][kid] += 1
                        return
                last["failing"] = True
                last["case"], last["msg"] = case, str(v)
                raise
            finally:
                st["max_ms"] = max(st["max_ms"], 1000 * (time.time() - tc))
            for lab in facet.classify(case):
                st["labels"][lab] += 1
            if facet.nontrivial(case):
                h = case_hash(case)
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    st["nontrivial"] += 1
                    if len(st["samples"]) < 1 and st["evaluations"] > 3:
                        st["samples"].append(abbreviate(case))

        n = facet.quick if a.tier == "quick" else facet.thorough
        if a.mode == "jit":
            alt = facet.jit_quick if a.tier == "quick" else facet.jit_thorough
            n = alt if alt is not None else n
        n = max(1, -(-n // a.shards))
        try:
            for ex in facet.examples:
                run_case(ex)
            if facet.strategy is not None:
                sd = (a.seed * 1_000_003 + a.shard * 7919 + (13 if a.mode == "jit" else 0) + sum(map(ord, fname)) * 101) % (2 ** 32)

                @hypothesis.seed(sd)
                @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                          backend="hypothesis")
                @given(facet.strategy)
                def test(case):
                    run_case(case)

                test()
        except Violation:
            res["violations"].append({"facet": fname, "mode": a.mode, "message": last["msg"], "case": last["case"]})
        except Exception:  # noqa: BLE001 - anything else is an error of the harness, not a violation
            if last.get("failing"):
                # Hypothesis raised (e.g. Flaky) after a real failing case was seen: re-run it outside the library.
                try:
                    with quiet():
                        facet_check(facet, last["case"])
                    # the code under test gave a wrong answer once and a right one now: a result that depends on something else than its input
                    res["violations"].append({"facet": fname, "mode": a.mode, "message": last["msg"] + "  [not on every run: the result is not a function of the input]", "case": last["case"]})
                except Violation as v:
                    res["violations"].append({"facet": fname, "mode": a.mode, "message": str(v), "case": last["case"]})
            else:
                res["errors"].append(f"{fname}: {traceback.format_exc()[-4000:]}")
        st["wall_s"] = round(time.time() - t1, 2)
        st["hashes"] = sorted(st["hashes"])
        st["labels"] = dict(st["labels"])
        st["known"] = dict(st["known"])
        st["max_ms"] = round(st["max_ms"], 1)
        res["facets"][fname] = st
    res["wall_s"] = round(time.time() - t0, 2)
    res["lines"] = lines.report() if lines else {}
    with open(a.out, "w") as f:
        json.dump(res, f, default=_default)


if __name__ == "__main__":
    main()
