#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table below (tools/table.py)."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'tools'))
import table
with open(os.path.join(V,'properties.jsonl'),'w') as f:
    for p in table.PROPS:
        assert len(p['title'])<=80,p['id']
        d=dict(id=p['id'],title=p['title'],statement=p['statement'],
          quantifier=dict(over=p['over'],text=p['qtext']),why_tests_cant=p['why'],
          anchors=dict(files=p['files'],mechanism=[dict(name=n,where=w) for n,w in p['mech']]))
        f.write(json.dumps(d)+'\n')
m=dict(version=1,setup_cmd='./setup.sh',
  checks=[dict(property=p['id'],quick_cmd='./check '+p['id'],thorough_cmd='./check %s --thorough'%p['id'],
     technique=p.get('technique','contracts on the real functions; VCs from clang LLVM IR, discharged by z3/cvc5'),
     level=p.get('level','proof'),level_note=p['note']) for p in table.PROPS if not p.get('na')],
  not_applicable=[dict(property=p['id'],reason=p['na']) for p in table.PROPS if p.get('na')])
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
import subprocess
for p in table.PROPS:
    for f in p['files']+[w for _,w in p['mech']]: assert os.path.exists('/repo/'+f),(p['id'],f)
try:
    sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V,'properties.jsonl')): jsonschema.validate(json.loads(l),s)
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json'))); print('valid')
except ImportError: print('not validated')
