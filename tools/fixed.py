#!/usr/bin/env python3
"""fixed.py FID PROP COMMIT 'what'  -- record a repaired defect"""
import json,sys
p='/verif/known_findings.json'
d=json.load(open(p))
k='findings' if 'findings' in d else [x for x in d if isinstance(d[x],list)][0]
f,pr,c,w=sys.argv[1:5]
d[k].append({"id":f,"property":pr,"status":"fixed","commit":c,"what":f"fixed: property={pr} {c} {w}"})
json.dump(d,open(p,'w'),indent=1)
