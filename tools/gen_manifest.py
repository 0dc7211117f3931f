#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units import UNITS, TECH, NOTE
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in UNITS:
        kinds = {u["kind"] for u in UNITS[i]}
        tech = TECH.get(i) or ("stateless model checking of the real code: all schedules and environment answers up to a cost bound under a controlled scheduler" if "xs" in kinds
                               else "explicit enumeration of all operation sequences up to a depth on the real code against a reference model")
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=tech, level="model_checking", level_note=NOTE.get(i, NOTE["xs" if "xs" in kinds else "seq"])))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
