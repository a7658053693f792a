#!/usr/bin/env python3
"""Fills the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json,os,re
r=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(r+'/tools/caught.json')) if os.path.exists(r+'/tools/caught.json') else {}
rows=['| planted bug | property | what it breaks | caught by |','|---|---|---|---|']
for d in sorted(os.listdir(r+'/seeded')):
    m=json.load(open(f'{r}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {c.get(d,'?')} |")
p=r+'/DESIGN.md'; s=open(p).read()
t='<!-- table -->\n'+'\n'.join(rows)+'\n<!-- /table -->'
s=s.replace('@@TABLE@@',t) if '@@TABLE@@' in s else re.sub(r'<!-- table -->.*?<!-- /table -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
