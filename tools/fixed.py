#!/usr/bin/env python3
"""tools/fixed.py PROPERTY COMMIT WHAT: record a repaired defect in known_findings.json."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(P, "w"), indent=1)
