#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and bin/registry.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
from registry import CHECKS
NA = {}
f = os.path.join(R, "tools", "not_applicable.json")
if os.path.exists(f): NA = json.load(open(f))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
            technique=c.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"
                            + (", including replayed TLC-generated behaviours" if "generate" in c else "")),
            level="model_checking",
            level_note=c.get("note", "The specification's own model is exhaustive for small constants; the real code is compared "
                "with it on the recorded behaviours (exhaustively enumerated small machines/inputs plus seeded larger ones), not on all inputs. "
                "Trusts TLC, NTL as used by the driver to build inputs, and the JSON recording.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet; nothing is claimed for it")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="TLA+ / TLC. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
