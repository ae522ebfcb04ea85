#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from table import TABLE, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        r = TABLE[i]
        checks.append(dict(
            property=i,
            quick_cmd="VERIF_TIER=quick python3 tools/check.py %s" % i,
            thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s --tier thorough" % i,
            technique="contract-based deductive verification: Verus contracts on functions extracted mechanically from /repo on every run (proofs/%s); bounded replay against the real crate for functions out of reach" % ", ".join(t + ".rs" for t in r["proofs"]),
            level="proof",
            level_note="Proved for all inputs: the functions listed in the evidence under functions_under_contract. Assumed: Verus/Z3, the extraction rules of tools/vx (DESIGN.md), the trusted_base of the evidence. Bounded, not proved: %s." % r["bounded_for"],
        ))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no contract built yet")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the verified text is extracted from /repo's sources on every run, and the replay harness uses the public API. /repo carries only fix: commits.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
