#!/usr/bin/env python3
"""meta_add.py Pxx key=json ... : edit harness/meta.json"""
import json, sys
f='/verif/harness/meta.json'; m=json.load(open(f)); d=m.setdefault(sys.argv[1],{})
for a in sys.argv[2:]:
    k,v=a.split('=',1); d[k]=json.loads(v)
d.setdefault("bounds",{"quick":"","thorough":""}); d.setdefault("min_cases",{"quick":1000})
json.dump(m,open(f,'w'),indent=1)
