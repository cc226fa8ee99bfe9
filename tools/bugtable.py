#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for m in sorted(glob.glob(here+'/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append('| %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),d['property'],d['what_it_breaks'],d['needs']))
p=here+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'(\|---\|---\|---\|---\|\n)(\| b.*\n)+',lambda m:m.group(1)+'\n'.join(rows)+'\n',s)
open(p,'w').write(s)
