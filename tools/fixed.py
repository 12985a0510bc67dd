#!/usr/bin/env python3
# tools/fixed.py PROP HASH WHAT...: record a repaired defect
import json,sys
p='/verif/known-findings.json'
d=json.load(open(p))
d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {' '.join(sys.argv[3:])}")
json.dump(d,open(p,'w'),indent=1)
