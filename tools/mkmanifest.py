#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import registry
reg = registry()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = reg.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    cmd = "python3 check.py " + p["id"]
    checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd + " thorough", evidence_file="evidence/%s.json" % p["id"],
                       technique=c.technique, level=c.level, level_note=c.level_note()))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks are compiled into detox: the monitor is preloaded (shim/mon.c) and all oracles observe "
                     "the unmodified program from outside; sanitizer builds are made from /repo/src in a scratch "
                     "directory. VERIF_TIER selects the number of cases, VERIF_SEED every random choice."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
