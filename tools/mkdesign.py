"""fills the tables of DESIGN.md (text between markers) from checks/, properties and seeded/"""
import json, os, re, importlib, sys, ast
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
notes=json.load(open(V+'/tools/level_notes.json'))
out=[]
for p in props:
    i=p['id']; f=V+'/checks/%s.py'%i.lower()
    out.append('### %s %s\n'%(i,p['title']))
    if not os.path.exists(f):
        out.append('Check not built yet.\n'); continue
    t=ast.parse(open(f).read()); g={}
    for n in t.body:
        if isinstance(n,ast.Assign) and n.targets[0].id in ('CASES','RULE','ASSUMPTIONS','NEED'):
            try: g[n.targets[0].id]=ast.literal_eval(n.value)
            except Exception: g[n.targets[0].id]=None
    tech,note=notes[i]
    out.append('* Decided by: %s.'%tech)
    out.append('* Workload and oracle: %s.'%g.get('RULE'))
    out.append('* Cases: quick %s; thorough %s.'%(', '.join('%s %d'%tuple(c) for c in g['CASES']['quick']), ', '.join('%s %d'%tuple(c) for c in g['CASES']['thorough'])))
    out.append('* Bounds: %s %s'%('; '.join(g.get('ASSUMPTIONS') or []), note))
    out.append('* Beyond the tests: %s\n'%p['why_tests_cant'])
T='\n'.join(out)
rows=['| bug | property | needs | caught by |','|---|---|---|---|']
cat=json.load(open(V+'/tools/catches.json')) if os.path.exists(V+'/tools/catches.json') else {}
for b in sorted(os.listdir(V+'/seeded')) if os.path.isdir(V+'/seeded') else []:
    m=json.load(open(V+'/seeded/%s/meta.json'%b))
    rows.append('| %s | %s | %s | %s |'%(b,m['property'],m['needs'].replace('|','/'),cat.get(b,'?')))
s=open(V+'/tools/design.in.md').read()
open(V+'/DESIGN.md','w').write(s.replace('@@TABLE@@',T).replace('@@BUGS@@','\n'.join(rows)))
