#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json (development aid)"""
import json
import os
import sys

F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(F)) if os.path.exists(F) else dict(findings=[], fixed=[])
if len(sys.argv) > 3:
    d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])))
json.dump(d, open(F, "w"), indent=1)
