#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "make -C engine", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i, "technique": "symbolic execution of the LLVM IR of the real code, decided by Z3 (dsym); counterexamples replayed natively", "level": "model_checking",
            "level_note": CHECKS[i].get("note", "bounded symbolic execution: every assertion is decided by the solver for all values of the symbolic inputs within the bounds listed per entry in the evidence; claims nothing outside them")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
