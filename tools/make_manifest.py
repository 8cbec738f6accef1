#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NOT_CLAIMED.get(p, "specification and conformance check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; the implementation is bound to them by replayed behaviours and validated traces. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
