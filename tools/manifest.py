#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NA={}
exec(open(root+'/tools/claims.py').read())
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'./check.sh {i} --thorough',
      evidence_file=f'evidence/{i}.json', technique=TECH.get(i,DEFAULT_TECH), level='model_checking', level_note=NOTE.get(i,DEFAULT_NOTE)))
m=dict(version=1, setup_cmd='./check.sh build', checks=checks,
  not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
  notes='No hooks in /repo: the library is generic over its coordinate type, so the real code is compiled with a symbolic coordinate type through its public API (see DESIGN.md).')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
open(root+'/MANIFEST.json','a').write('\n')
