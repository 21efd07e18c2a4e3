#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/suites.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import suites as S
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in S.SUITES_OF:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "TLA+ specification explored by TLC; its behaviours are executed on the real library and every observation compared (model-based conformance)"
                         + ("; random histories of the real library are checked against the specification by TLC" if "trace" in S.SUITES_OF[i] else ""),
            "level": "model_checking",
            "level_note": "suites: " + ", ".join(S.SUITES_OF[i]) + ". " + "Exhaustive within the bounds recorded in the evidence file, sampled beyond them; the other suites in brief.",
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through the public API."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
