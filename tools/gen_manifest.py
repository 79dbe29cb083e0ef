#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    s = props.PROPS[i]
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": s.get("technique", "bounded symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3, bit-vectors)"),
        "level": "model_checking",
        "level_note": "every path and every assertion decided by the solver for all symbolic values within the bounds: " + s["bounds"],
    })
na = [{"property": k, "reason": v} for k, v in getattr(props, "NOT_APPLICABLE", {}).items()]
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. check.py compiles /repo's current C++ sources to LLVM IR, executes the harnesses symbolically (engine/), "
              "replays counterexamples natively under AddressSanitizer and writes evidence/."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
