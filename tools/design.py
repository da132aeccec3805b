#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/methods.py, the facets of props/*.py, known_findings.jsonl and tools/bugs.jsonl."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "vendor"), os.path.join(HERE, "tools")]
import methods  # noqa: E402


def main():
    out = [open(os.path.join(HERE, "tools/design_head.md")).read().rstrip(), "", "## The properties, one by one", ""]
    bugs = {}
    bf = os.path.join(HERE, "tools/bugs.jsonl")
    for line in open(bf) if os.path.exists(bf) else []:
        b = json.loads(line)
        bugs[b["id"]] = b
    for line in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(line)
        m = importlib.import_module("props." + d["id"].lower())
        out += [f"### {d['id']} {d['title']}", "", methods.M[d["id"]][1], ""]
        out += ["Cases per mode, quick / thorough: " + "; ".join(f"`{f.name}` {f.quick} / {f.thorough}{'' if f.jit else ' (interpreted only or mode-free)'}" for f in m.FACETS) + ".", ""]
        out += [f"Non-trivial: {m.RULE}.", "", "Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    out += ["## Planted bugs and the checks that catch them", "", "Each was tried with tools/plant.py: demo clean/patched, stable tests, then the property's quick check.", "", "| bug | property | needs | quick check |", "|---|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        meta = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
        b = bugs.get(i, {})
        out.append(f"| {i} | {meta['property']} | {meta['needs']} | {b.get('result', 'not run')} |")
    out += ["", "## Genuine defects", "", "Repaired (`fix:` commits in /repo):", ""]
    kf = [json.loads(x) for x in open(os.path.join(HERE, "known_findings.jsonl"))]
    out += [f"- {k['property']} {k['id'].split('-', 1)[1]}: {k['what']}" for k in kf if k["status"] == "fixed"]
    out += ["", "Recorded, not repaired (known findings, printed as KNOWN-FINDING on every run):", ""]
    out += [f"- {k['property']} {k['id']}: {k['what']}" for k in kf if k["status"] == "open"]
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
