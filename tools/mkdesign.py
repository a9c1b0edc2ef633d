#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (properties.jsonl, checks/table.py, the scenario
lists of the last quick runs in evidence/, WHY below), the planted bugs (seeded/*/meta.json), tools/design_tail.md."""
import json, os, sys, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + "/checks"); import table
W = json.load(open(R + "/tools/design_why.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
out = [open(R + "/tools/design_head.md").read().rstrip() + "\n"]
seeds = {}
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for p in props:
    i = p["id"]; c = table.CHECKS.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    if not c: out.append("Not applicable: %s\n" % table.NOT_APPLICABLE[i]); continue
    w = W["why"].get(i, {})
    out.append("*Specified*: %s\n" % p["statement"])
    out.append("*Decided by*: %s. %s\n" % (c["technique"], c["level_note"]))
    if w.get("oracle"): out.append("*Oracle and seams*: %s\n" % w["oracle"])
    out.append("*Bounds*: %s. Builds: %s.\n" % (c["bounds"], ", ".join(c["builds"])))
    ev = R + "/evidence/%s.json" % i
    sc = W["scenarios"].get(i, [])
    if os.path.exists(ev) and json.load(open(ev)).get("tier") == "quick":
        sc = []; seen = set()
        for s in json.load(open(ev))["coverage"]["scenarios"]:
            if s["scenario"] not in seen: seen.add(s["scenario"]); sc.append([s["scenario"], s["desc"]])
        W["scenarios"][i] = sc
    out.append("*Scenarios*: " + "; ".join("`%s` (%s)" % (a, b) for a, b in sc) + ".\n")
    if c.get("assumptions"): out.append("*Assumptions*: " + "; ".join(c["assumptions"]) + ".\n")
    if w.get("reach"): out.append("*Why tests cannot settle it*: %s\n" % w["reach"])
    if seeds.get(i):
        out.append("*Planted bugs* (all caught by this check" + (" unless noted" if any(W["missed"].get(n, "").startswith("NOT") for n, _ in seeds[i]) else "") + "): " + "; ".join("`%s`%s" % (n, " (first missed: %s)" % W["missed"][n] if n in W["missed"] else "") for n, _ in seeds[i]) + ".\n")
out.append(open(R + "/tools/design_tail.md").read())
json.dump(W, open(R + "/tools/design_why.json", "w"), indent=1, ensure_ascii=False)
open(R + "/DESIGN.md", "w").write("\n".join(out))
