"""Rewrites the two tables of DESIGN.md from known_findings.json and seeded/*/meta.json."""
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=open(V+'/DESIGN.md').read()
rows=[]
for k in json.load(open(V+'/known_findings.json')):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',k.get('entry',''))
    if m: rows.append('| %s | %s | %s |'%m.groups())
def put(d,head,rows):
    a=d.index(head)+len(head); z=a
    while d[z:].startswith('|'): z=d.index('\n',z)+1 if '\n' in d[z:] else len(d)
    return d[:a]+'\n'.join(rows)+'\n'+d[z:]
d=put(d,'| property | commit | defect |\n|---|---|---|\n',rows)
rows=[]
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s | check %s |'%(os.path.basename(os.path.dirname(f)),m['property'],m['what_it_breaks'],m['property']))
d=put(d,'| seed | property | what it breaks | caught by |\n|---|---|---|---|\n',rows)
open(V+'/DESIGN.md','w').write(d)
