#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (and na.json for properties not claimed)."""
import json, os
import props as P
H = os.path.dirname(os.path.abspath(__file__))
with open(H + "/properties.jsonl", "w") as f:
    for i, p in sorted(P.PROPS.items()):
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
    for n in getattr(P, "NA", []):
        f.write(json.dumps({k: n[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for i, p in sorted(P.PROPS.items()):
    checks.append({"property": i, "quick_cmd": f"python3 vf.py check {i}", "thorough_cmd": f"python3 vf.py check {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": "symbolic execution of the real code (LLVM IR instrumented at build), SMT over the reals (z3, cvc5, interval branch-and-prune), counterexamples replayed",
                   "level": "model_checking", "level_note": ("Every path within the bounds, decided by solver. Bounds: " + p["bounds"] + ("; " + p["note"] if p["note"] else ""))})
json.dump({"version": 1, "setup_cmd": "python3 vf.py setup", "checks": checks, "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in getattr(P, "NA", [])]}, open(H + "/MANIFEST.json", "w"), indent=1)
