#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and driver/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "driver")]
from properties import P
import checks
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["q"]}, "why_tests_cant": x["why"],
                            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
ck, na = [], []
for x in P:
    pid = x["id"]
    if pid in checks.PROPS:
        ck.append({"property": pid, "quick_cmd": "python3 driver/check.py %s --tier quick" % pid, "thorough_cmd": "python3 driver/check.py %s --tier thorough" % pid,
                   "technique": "symbolic execution of the compiler's LLVM IR with z3" + (", over bounded thread schedules" if any(checks.RUNS[r].get("threads") for r in checks.PROPS[pid]["runs"]) else ""),
                   "level": "model_checking", "level_note": checks.PROPS[pid].get("note", "exhaustive within the bounds listed in the evidence file; bounds and exclusions in DESIGN.md")})
    else: na.append({"property": pid, "reason": x["na"] or "no check is registered yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 driver/setup.py", "checks": ck, "not_applicable": na}, f, indent=1); f.write("\n")
print(len(ck), "checks,", len(na), "not claimed")
