#!/usr/bin/env python3
# writes DESIGN.md
import json,os,re,sys,glob
V='/verif'
sys.path.insert(0,V+'/tools')
from design_props import P
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
na=json.load(open(V+'/tools/not_applicable.json'))
bounds={}
for d,_,fs in os.walk(V+'/harness/overlay'):
    for f in sorted(fs):
        if not f.endswith('.go'): continue
        b=None
        for l in open(d+'/'+f):
            if l.startswith('//gosym:bounds '): b=l[len('//gosym:bounds '):].strip()
            m=re.match(r'func VP_([A-Z]\d\d)_(\w+)\(',l)
            if m:
                bounds.setdefault(m.group(1),[]).append((m.group(2),b or '',os.path.relpath(d+'/'+f,V+'/harness/overlay'))); b=None
out=[open(V+'/tools/design_head.md').read().rstrip(),'','## 4. The properties','']
for p in props:
    i=p['id']
    out+=['### %s %s'%(i,p['title']),'']
    if i in na:
        out+=['*Not applicable.* '+na[i],'']; continue
    w,o=P[i]
    out+=['*Decided on:* '+w,'','*Oracle:* '+o,'','*Bounds:*','']
    for n,b,f in bounds.get(i,[]): out.append('- `%s` (%s): %s'%(n,f,b))
    out.append('')
out+=['## 5. Defects found on the pinned commit','','Each was shown against the real code by a replayed counterexample and is','repaired by a separate `fix:` commit in /repo; none is left open','(`known-findings.jsonl` holds only `fixed` entries).','']
for l in open(V+'/known-findings.jsonl'):
    d=json.loads(l); out.append('- %s (%s): %s'%(d['property'],d['commit'],d['what']) if d['status']=='fixed' else '- OPEN %s: %s'%(d['property'],d['what']))
out+=['','## 6. Planted bugs','','Each breaks a property, compiles and passes the stable tests; the property\'s','own check reports every one of them (quick tier).','','| Planted bug | Property | Needs |','|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); out.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),d['property'],d['needs'].replace('|','/').replace('\n',' ')))
tail=V+'/tools/design_tail.md'
if os.path.exists(tail): out+=['',open(tail).read().rstrip()]
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
miss=[p['id'] for p in props if p['id'] not in na and (p['id'] not in P or p['id'] not in bounds)]
print('DESIGN.md',len(out),'lines; missing',miss)
