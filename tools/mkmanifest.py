#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for pid in allp:
    if pid not in props.PROPS:
        continue
    s = props.PROPS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 checks/run.py {pid} --tier quick",
        "thorough_cmd": f"python3 checks/run.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": s.get("technique", "runtime monitoring against a reference model"),
        "level": s.get("level", "exploration"),
        "level_note": s.get("note", "Held on the executions listed in the evidence file; says nothing about inputs not driven. Trusts: ") + "; ".join(s.get("assumptions", []) or ["the oracle in /verif/harness"]),
    })
doc = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks,
       "not_applicable": [{"property": p, "reason": props.NA.get(p, "no check built yet")} for p in allp if p not in props.PROPS]}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
