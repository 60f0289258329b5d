#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks (run after editing it)."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(root, "lib"), os.path.join(root, "checks")]
sys.dont_write_bytecode = True
import table
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in table.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": table.TECH.get(i, "TLA+ specification, TLC: exhaustive small model plus validation of traces of the real code"),
            "level": "model_checking",
            "level_note": table.NOTES.get(i, "Every recorded execution of the real code is checked step by step against the TLA+ specification; "
                          "the specification itself is explored exhaustively for small constants. Trusts TLC, the trace driver and its choice of inputs."),
        })
    else:
        na.append({"property": i, "reason": table.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, checked with TLC); trace drivers in harness/ compiled against /repo/src; "
              "known_findings.json lists recorded defects. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
