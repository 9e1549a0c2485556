#!/usr/bin/env python3
"""fixed.py PROP COMMIT TEXT : record a repaired defect"""
import json,sys
p='/verif/known_findings.json'; k=json.load(open(p))
k.append({"status":"fixed","line":"fixed: property=%s %s %s"%tuple(sys.argv[1:4])})
json.dump(k,open(p,'w'),indent=1)
