#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and harness/conf.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(f"{HERE}/harness/conf.json"))
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
checks, na = [], []
for p in props:
    c = conf["props"].get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 bin/check.py {p['id']}",
                       thorough_cmd=f"VERIF_TIER=thorough python3 bin/check.py {p['id']}",
                       technique=c.get("technique", "runtime monitor: seeded workloads on the real package, each call's result and errors checked online against an independent base-R oracle"),
                       level=c.get("level", "exploration"),
                       level_note=c.get("note", "Random workloads over vector types, sizes and options; holds on every execution observed, says nothing about inputs not drawn.")))
m = dict(version=1, setup_cmd="python3 bin/build.py plain && python3 bin/build.py san", checks=checks, not_applicable=na)
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
