#!/usr/bin/env python3
"""Write MANIFEST.json from the registered rules and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
import harness
import rules  # noqa: registers the rules

REASONS = {
    "C90": "Equality of a dictionary with the re-parse of its own encoding is a statement about the inverse of percent-encoding over "
           "all strings; no static argument in reach bounds it (the codecs are library primitives).",
    "C91": "The exact value of percent- and charset-decoding is decided inside the Python library; the analysis treats those as "
           "uninterpreted, so it has nothing to compare.",
    "C92": "Running time is not observable to the abstract semantics used here; a cost analysis of string concatenation and regular "
           "expression matching on this interpreter is out of reach.",
}
NOTE = "The whole input space of the entry points is covered by abstraction; loops are summarised, so the verdict is independent of " \
       "sizes and chunkings. Relies on the library models of sa/models.py (see DESIGN.md, Assumptions)."
TECH = "static analysis: path-sensitive abstract interpretation of the current source (interprocedural, loops widened); "

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in harness.RULES:
        meta = harness.RULES[i][1]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH + meta.get("what", ""), "level": "other",
                       "level_note": NOTE + (" " + meta["note"] if meta.get("note") else "")})
    else:
        na.append({"property": i, "reason": REASONS.get(i, "No static check for this property yet.")})
out = {"version": 1, "setup_cmd": "python3 -c \"import ast,sys; sys.exit(0)\"", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
