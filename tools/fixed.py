#!/usr/bin/env python3
"""Records a repaired defect: fixed.py PROPERTY ASSERT COMMIT TEXT"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(f)); p, i, c, t = sys.argv[1:]
k.append({"property": p, "id": i, "status": "fixed", "what": f"fixed: property={p} {c} {t}"})
json.dump(k, open(f, "w"), indent=1)
