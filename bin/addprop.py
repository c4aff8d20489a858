#!/usr/bin/env python3
"""addprop.py ID quick thorough [key=value...]  - (re)register a property in conf.json."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/conf.json")
c = json.load(open(p))
e = c["props"].setdefault(sys.argv[1], {})
e["quick"], e["thorough"] = int(sys.argv[2]), int(sys.argv[3])
for kv in sys.argv[4:]:
    k, v = kv.split("=", 1)
    try: v = json.loads(v)
    except ValueError: pass
    e[k] = v
json.dump(c, open(p, "w"), indent=1)
