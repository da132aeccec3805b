#!/usr/bin/env python3
"""Verify planted bugs:  tools/plant.py ID...   (scratch copies under /tmp/bt; never touches /repo)
For each: patch applies, demo passes on /repo's tree and fails with the patch, stable tests pass with it, property's quick check catches it.
Options: --no-tests, --no-check, --seed N"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))

def stable():
    b = BASE
    for k in ("stable", "pass", "passed", "tests"):
        if isinstance(b, dict) and k in b:
            b = b[k]
    return set(b)

def tests(copy, bid):
    rep = f"/tmp/bt/rep-{bid}"
    shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    s = open("/opt/vp/test.sh").read().replace("reports=/opt/vp/reports", f"reports={rep}").replace("cd /repo", f"cd {copy}")
    sh = f"/tmp/bt/t-{bid}.sh"; open(sh, "w").write(s)
    out = f"/tmp/bt/out-{bid}.json"
    r = subprocess.run(["bash", sh, out], capture_output=True, text=True)
    res = json.load(open(out))
    p = res.get("passed") or res.get("pass")
    miss = stable() - set(p)
    shutil.rmtree(rep, ignore_errors=True)
    return sorted(miss), r.stdout.strip().splitlines()[-1:]

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = [a for a in sys.argv[1:] if a.startswith("--")]
    for bid in args:
        d = os.path.join(HERE, "seeded", bid)
        meta = json.load(open(d + "/meta.json"))
        copy = f"/tmp/bt/{bid}"
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        msg = []
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            print(bid, "PATCH DOES NOT APPLY", r.stderr); continue
        dd = f"/tmp/bt/demo-{bid}"; shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        a = subprocess.run(["bash", dd + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["bash", dd + "/demo.sh"], cwd=copy, capture_output=True, text=True)
        msg.append(f"demo clean={a.returncode} patched={b.returncode}")
        ok = a.returncode == 0 and b.returncode != 0
        if not ok:
            msg.append("DEMO BAD: " + (a.stdout + a.stderr)[-500:] + "|" + (b.stdout + b.stderr)[-500:])
        else:
            msg.append("(" + (b.stdout + b.stderr).strip().splitlines()[-1][:100] + ")")
        if "--no-tests" not in opt:
            miss, last = tests(copy, bid)
            msg.append("tests ok" if not miss else f"TESTS FAIL {len(miss)} {miss[:4]}")
        if "--no-check" not in opt:
            t = time.time()
            e = dict(os.environ, VERIF_REPO=copy)
            for s in (1,):
                r = subprocess.run([PY, HERE + "/check.py", meta["property"], "--seed", str(s)], env=e, capture_output=True, text=True, cwd=HERE)
                v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  facet", "ERROR"))]
                msg.append(f"check rc={r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode==1 else 'MISSED'} {v[1][:150] if len(v)>1 else v}")
                if "--record" in opt:
                    how = v[1].split(":")[0].strip() if len(v) > 1 else ""
                    with open(os.path.join(HERE, "tools/bugs.jsonl"), "a") as f:
                        f.write(json.dumps({"id": bid, "result": f"caught ({how})" if r.returncode == 1 else "missed"}) + "\n")
        print(bid, meta["property"], " ; ".join(msg), flush=True)
        shutil.rmtree(copy, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)
main()
