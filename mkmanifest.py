#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": c.get("technique", "TLA+ trace validation with TLC: executions of the real code driven by TLC-generated behaviours, checked against the specification"),
                   "level": "model_checking",
                   "level_note": c.get("note", "Exhaustive for the bounded design models; every recorded execution of the real code is decided by TLC against the specification. Executions are sampled from TLC-generated behaviours and enumerated scenarios, so schedules and histories outside them are not covered.")})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). No hooks in /repo: the harness in /verif/harness uses the public API only. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
