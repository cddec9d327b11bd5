#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md from the planted bugs (all are run with plant.py catch)."""
import json,glob,os
rows=[]
notes=json.load(open(os.path.dirname(os.path.abspath(__file__))+'/notes.json'))
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'].replace('|','/'),notes.get(i,'caught')))
s=open('/verif/DESIGN.md').read().split('\n## 7.')[0].rstrip()
s+='\n\n## 7. Planted bugs and the checks that catch them\n\nEvery bug is run against the check of the property it breaks ("caught" = exit 1 with that property\'s VIOLATION line in\nthe quick tier). "strengthened" = first missed, caught since the check was extended.\n\n| bug | check | what it breaks | result |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n'
open('/verif/DESIGN.md','w').write(s)
