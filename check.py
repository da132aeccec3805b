#!/opt/venv/bin/python
"""Check driver.

  check.py P07 [--tier quick|thorough] [--seed N]   run a property's check; exit 0 / 1 (+ VIOLATION line) / 2 harness error
  check.py replay FILE                              re-run a recorded failing case without the library
"""
from __future__ import annotations

import argparse
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = int(os.environ.get("VERIF_CORES", "8"))


def env_for(mode, scratch, hashseed):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("FMK_", "NUMBA_", "HYPOTHESIS"))}
    e.update({
        "PYTHONPATH": os.pathsep.join([REPO, HERE, os.path.join(HERE, "vendor")]),
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),   # never read a stale .pyc of the code under test
        "PYTHONHASHSEED": str(hashseed),
        "FMK_CONSOLE_LOGGER_LEVEL": "CRITICAL",
        "FMK_FILE_LOGGER_LEVEL": "CRITICAL",
        "NUMBA_NUM_THREADS": "3",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMEXPR_MAX_THREADS": "1",
        "MALLOC_PERTURB_": "165" if mode == "jit" else "90",   # memory the code reads without having written it holds a recognisable pattern
        "TMPDIR": scratch,
        "VERIF_SCRATCH": scratch,
    })
    if mode == "nojit":
        e["NUMBA_DISABLE_JIT"] = "1"
    return e


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


def line_report(prop, results):
    """per anchor file of the property: source lines inside functions, how many of them ran, and the ranges that did not"""
    anchors = []
    for row in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(row)
        if d["id"] == prop:
            anchors = d["anchors"]["files"]
    hit = collections.defaultdict(set)
    for r in results:
        for f, v in r.get("lines", {}).items():
            hit[f].update(v)
    if os.environ.get("VERIF_LINES"):                      # for the author: every line that ran, of any file
        with open(os.path.join(os.environ["VERIF_LINES"], prop + ".json"), "w") as fh:
            json.dump({f: sorted(v) for f, v in hit.items()}, fh)
    out = {}
    for f in sorted(set(anchors) | set(hit)):
        path = os.path.join(REPO, f)
        if not os.path.isfile(path) or not any(f == x or f.startswith(x.rstrip("/") + "/") for x in anchors):
            continue
        todo, exe = [compile(open(path).read(), path, "exec")], set()
        while todo:
            code = todo.pop()
            todo += [c for c in code.co_consts if hasattr(c, "co_lines")]
            if code.co_name != "<module>" and code.co_flags & 2:   # bodies of functions (optimised code), without their first line
                exe |= {n for _, _, n in code.co_lines() if n and n != code.co_firstlineno}
        missed = sorted(exe - hit[f])
        ranges, order = [], sorted(exe)
        for n in missed:
            if ranges and order.index(n) == order.index(ranges[-1][1]) + 1:
                ranges[-1][1] = n
            else:
                ranges.append([n, n])
        out[f] = {"lines": len(exe), "ran": len(exe) - len(missed), "not_run": [f"{a}-{b}" if a < b else str(a) for a, b in ranges][:60]}
    return out


def facets_of(prop, scratch):
    code = ("import json,importlib,logging;logging.disable(50);"
            f"m=importlib.import_module('props.{prop.lower()}');"
            "print('@@'+json.dumps({'rule':m.RULE,'assumptions':m.ASSUMPTIONS,'level':getattr(m,'LEVEL','exploration'),"
            "'facets':[(f.name,bool(f.nojit),bool(f.jit)) for f in m.FACETS],'jit_workers':getattr(m,'JIT_WORKERS',None),"
            "'nojit_workers':getattr(m,'NOJIT_WORKERS',None),'deadline':getattr(m,'DEADLINE',{})}))")
    p = subprocess.run([PY, "-c", code], env=env_for("nojit", scratch, 0), cwd=scratch, capture_output=True, text=True)
    if p.returncode:
        return None, p.stdout[-1000:] + p.stderr[-4000:]
    return json.loads(p.stdout[p.stdout.rindex("@@") + 2:]), None


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        scratch = tempfile.mkdtemp(prefix="verif-")
        try:
            mode = json.load(open(sys.argv[2]))["mode"]
            sys.exit(subprocess.run([PY, "-m", "vlib.replay", os.path.abspath(sys.argv[2])], env=env_for(mode, scratch, 0), cwd=scratch).returncode)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    if len(sys.argv) > 1 and sys.argv[1] == "selftest":
        # nothing to compile: verify that the interpreter, the vendored library and every check module load against /repo
        scratch = tempfile.mkdtemp(prefix="verif-")
        try:
            bad = 0
            for f in sorted(os.listdir(os.path.join(HERE, "props"))):
                if f.startswith("p") and f.endswith(".py"):
                    info, err = facets_of(f[:-3].upper(), scratch)
                    if err:
                        bad += 1
                        print(f"ERROR {f}: {err}")
            print("selftest:", "failed" if bad else "ok")
            return 2 if bad else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--facet")
    ap.add_argument("--mode")
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    scratch = tempfile.mkdtemp(prefix="verif-")
    procs = []
    try:
        info, err = facets_of(prop, scratch)
        if err:
            # The code under test does not import (or the harness is broken): no verdict.
            print(f"ERROR property={prop}: cannot load the check\n{err}")
            return 2
        quick = a.tier == "quick"
        deadline = info["deadline"].get(a.tier, 150 if quick else 1500)
        nj = [f for f, n, _ in info["facets"] if n and (not a.facet or f == a.facet)]
        jt = [f for f, _, j in info["facets"] if j and (not a.facet or f == a.facet)]
        if a.mode == "nojit":
            jt = []
        if a.mode == "jit":
            nj = []
        jobs = []
        n_j = info["jit_workers"] or 4
        n_n = info["nojit_workers"] or 4
        if not jt:
            n_n = min(CORES, max(n_n, 4) + 4)
        if nj:
            for s in range(n_n):
                order = nj[s % len(nj):] + nj[:s % len(nj)]
                jobs.append(("nojit", order, s, n_n))
        if jt:
            # each JIT facet goes to one worker (compilation is the cost), in both tiers
            buckets = [jt[i::n_j] for i in range(n_j)]
            for i, b in enumerate(buckets):
                if b:
                    jobs.append(("jit", b, i, 1))
        results, dead = [], []

        def died(out, mode, why, hang=0):
            """The process running the code under test crashed or hung in a case: that case is a violation."""
            try:
                c = json.load(open(out + ".cur"))
            except (OSError, ValueError):
                return False
            if hang and time.time() - c["t"] < hang:
                return False
            dead.append({"facet": c["facet"], "mode": mode, "message": why, "case": c["case"]})
            return True
        for i, (mode, fl, shard, shards) in enumerate(jobs):
            out = os.path.join(scratch, f"r{i}.json")
            log = open(os.path.join(scratch, f"log{i}.txt"), "w")
            cmd = [PY, "-m", "vlib.worker", "--prop", prop, "--mode", mode, "--facets", ",".join(fl), "--seed", str(a.seed),
                   "--tier", a.tier, "--shards", str(shards), "--shard", str(shard), "--deadline", str(deadline), "--out", out,
                   "--repo", REPO]
            wd = os.path.join(scratch, f"w{i}")
            os.makedirs(wd)
            procs.append((subprocess.Popen(cmd, env=env_for(mode, scratch, a.seed + i), cwd=wd, stdout=log, stderr=subprocess.STDOUT,
                                           start_new_session=True), out, log.name, mode, fl))
        hard = deadline + (360 if quick else 900)
        errors = []
        for p, out, log, mode, fl in procs:
            try:
                p.wait(max(1, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                if died(out, mode, "the code under test did not return from this case", hang=240):
                    continue
                errors.append(f"worker {mode} {fl} did not end within {hard:.0f} s\n" + open(log).read()[-1500:])
                continue
            if p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                if died(out, mode, f"the process running the code under test was ended by signal {-p.returncode} in this case"):
                    continue
            if p.returncode or not os.path.exists(out):
                errors.append(f"worker {mode} {fl} ended with {p.returncode}\n" + open(log).read()[-4000:])
                continue
            results.append(json.load(open(out)))

        # ------------------------------------------------------------------------------------------ aggregate
        facets = {}
        viol, known_hits = list(dead), collections.Counter()
        for r in results:
            errors += r["errors"]
            viol += r["violations"]
            for f, s in r["facets"].items():
                d = facets.setdefault(f, {"evaluations": {}, "discarded": 0, "hashes": set(), "labels": collections.Counter(),
                                          "samples": [], "truncated": 0, "wall_s": {}, "max_ms": 0})
                d["evaluations"][r["mode"]] = d["evaluations"].get(r["mode"], 0) + s["evaluations"]
                d["wall_s"][r["mode"]] = round(max(d["wall_s"].get(r["mode"], 0), s["wall_s"]), 1)
                d["discarded"] += s["discarded"]
                d["hashes"] |= set(s["hashes"])
                d["labels"].update(s["labels"])
                d["samples"] += s["samples"][:1]
                d["truncated"] += bool(s["truncated"])
                d["max_ms"] = max(d["max_ms"], s["max_ms"])
                known_hits.update(s["known"])
        ev = sum(sum(d["evaluations"].values()) for d in facets.values())
        cov = {
            "evaluations": ev,
            "distinct_nontrivial": sum(len(d["hashes"]) for d in facets.values()),
            "rule": info["rule"],
            "samples": [{"facet": f, "case": s} for f, d in facets.items() for s in d["samples"][:1]][:12],
            "discarded": sum(d["discarded"] for d in facets.values()),
            "facets": {f: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["hashes"]), "discarded": d["discarded"],
                           "distribution": dict(d["labels"].most_common(40)), "shards_truncated_by_deadline": d["truncated"],
                           "wall_s": d["wall_s"], "slowest_case_ms": d["max_ms"]}
                       for f, d in facets.items()},
            "known_finding_hits": dict(known_hits),
            "source_lines_interpreted": line_report(prop, results),
        }
        evidence = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": info["level"],
                    "coverage": cov, "wall_s": round(time.time() - t0, 1), "assumptions": info["assumptions"], "violations": len(viol),
                    "harness_errors": len(errors)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        if not a.facet and not a.mode:
            with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
                json.dump(evidence, f, indent=1)

        for e in errors:
            print("ERROR", e)
        # ---- known findings: the listed witness must still show the finding; report it as known
        for k in load_known(prop):
            hits = known_hits.get(k["id"], 0)
            if hits:
                print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']} ({hits} generated cases matched)")
        seen = set()
        rdir = os.path.join(HERE, "replays", prop)
        for v in sorted(viol, key=lambda v: len(json.dumps(v["case"]))):
            if (v["facet"], v["mode"]) in seen:
                continue
            seen.add((v["facet"], v["mode"]))
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{v['facet']}-{v['mode']}-seed{a.seed}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "facet": v["facet"], "mode": v["mode"], "seed": a.seed, "message": v["message"], "case": v["case"]}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  facet={v['facet']} mode={v['mode']}: {v['message']}")
            print(f"  case: {json.dumps(v['case'])[:600]}")
        print(f"property={prop} tier={a.tier} seed={a.seed} evaluations={ev} distinct_nontrivial={cov['distinct_nontrivial']} "
              f"discarded={cov['discarded']} violations={len(viol)} errors={len(errors)} wall={evidence['wall_s']}s")
        if viol:
            return 1
        return 2 if errors else 0
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
