#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vp/meta.py."""
import json
import pathlib
import sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
sys.dont_write_bytecode = True
from vp import meta, props  # noqa: E402

props.load()
NA = getattr(meta, "NA", {})
with open(V / "properties.jsonl", "w") as f:
    for pid in sorted(meta.P):
        p = meta.P[pid]
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"],
                                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
checks = [{"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
           "technique": meta.P[pid]["technique"], "level": props.REG[pid][1].get("level", "model_checking"),
           "level_note": meta.P[pid]["note"]} for pid in sorted(meta.P) if pid in props.REG and pid not in NA]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: every check drives the public C++ and Python interfaces. See DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
miss = [p for p in meta.P if p not in props.REG and p not in NA]
print(len(meta.P), "properties,", len(checks), "checks", "MISSING " + str(miss) if miss else "")
for p in meta.P:
    n = meta.P[p]["statement"]
    if n.count(". ") > 3:
        print("long statement", p, n.count(". "))
