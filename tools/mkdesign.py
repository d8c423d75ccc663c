# fills FIXLIST and SEEDLIST of tools/DESIGN.in.md into DESIGN.md
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(V+'/tools/DESIGN.in.md').read()
k=json.load(open(V+'/known_findings.json'))
fx='\n'.join('* '+x[len('fixed: property='):].replace(' ',' (',1).replace(' ',') ',2).replace(') ',' ',1) for x in k['fixed'])
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    caught=m.get('caught_by',m['property'])
    rows.append(f"| {d} | {m['property']} | {caught} | {m['needs']} |")
sd='| bug | property | caught by | needs |\n|---|---|---|---|\n'+'\n'.join(rows)
open(V+'/DESIGN.md','w').write(t.replace('FIXLIST',fx).replace('SEEDLIST',sd))
