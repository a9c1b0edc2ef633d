#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.table import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS: continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --thorough" % p,
        evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"], level_note=c["level_note"]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 run.py --setup",
    checks=checks, not_applicable=na,
    notes="Every check is run.py <property>: it compiles /repo/src from the working tree together with a harness and the mc explorer, enumerates the bounded space exhaustively and compares with a reference model. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "unclaimed")
