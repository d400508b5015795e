#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered rules."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from absint import rules1, rules2
from absint.rules_text import TEXT, NA, ASSUME
RULES = dict(rules1.RULES1, **rules2.RULES2)
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in RULES:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "abstract interpretation of the source (trace partitioning, byte-provenance and affine-interval domains, effect trace rules)",
            "level": "other",
            "level_note": TEXT.get(i, {}).get("note", TEXT.get(i, {}).get("rule", "")) + " Assumes: " + "; ".join(ASSUME + TEXT.get(i, {}).get("assume", [])) + ".",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Every check parses /repo's current source and interprets it abstractly; nothing of /repo is imported or executed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
