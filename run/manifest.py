#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from jobs.py and properties.jsonl."""
import json
import os
import subprocess
import jobs as J

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    js = J.jobs(p["id"], "quick")
    if not js:
        na.append({"property": p["id"], "reason": J.NOT_APPLICABLE.get(p["id"], "no check built yet")})
        continue
    kinds = {j["kind"] for j in js}
    mods = sorted({t["mod"] for j in js for t in j.get("tlc", [])} | {j["spec"] for j in js if "spec" in j})
    how = []
    if "seq" in kinds:
        how.append("TLC behaviours and exported transition systems replayed into the code")
    if "conc" in kinds:
        how.append("recorded controlled-schedule traces checked by TLC")
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 run/check.py %s thorough" % p["id"],
        "technique": "TLA+/TLC specification (%s); %s" % (", ".join(mods), "; ".join(how)),
        "level": "model_checking",
        "level_note": J.NOTES.get(p["id"]) or J.NOTE,
    })
hooks = {"guard": "--cfg vp_hooks", "enable": "RUSTFLAGS='--cfg vp_hooks' when building harness/conc", "source_commits": J.HOOK_COMMITS}
m = {"version": 1, "setup_cmd": "python3 run/check.py setup", "hooks": hooks, "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
