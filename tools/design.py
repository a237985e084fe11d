#!/usr/bin/env python3
# rewrites the generated tables of DESIGN.md: contracts per property, planted bugs
import json,os,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
notes=json.load(open(V+'/tools/levels.json'))
proved={};bounded={}
for f in sorted(glob.glob(V+'/contracts/**/*.go',recursive=True)):
    src=open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (V[CTB])_(\w+)',src):
        c,k,n=m.groups()
        ps=[p for l in re.findall(r'^//vc:property (.*)$',c,re.M) for p in l.split()]
        fo=re.search(r'^//vc:for (.*)$',c,re.M)
        name=(fo.group(1) if fo else n)+('' if k!='VT' else ' (theorem)')
        if k=='VB' and fo: name+=' (assumed at call sites)'
        th='//vc:thorough' in c
        for p in ps: (bounded if k=='VB' else proved).setdefault(p,[]).append(name+(' (thorough only)' if th else ''))
out=['| property | level | contracts discharged deductively | executed only (bounded) |','|---|---|---|---|']
for p in props:
    i=p['id'];n=notes.get(i,{})
    if 'na' in n: out.append(f'| {i} | not applicable | {n["na"]} | |'); continue
    out.append('| %s | %s | %s | %s |'%(i,n.get('level','proof'),', '.join(proved.get(i,[])) or '—',', '.join(bounded.get(i,[])) or '—'))
t1='\n'.join(out)
out=['| planted bug | property (and check) | what breaks | needs |','|---|---|---|---|']
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    out.append('| %s | %s | %s | %s |'%(d,m['property'],m['what_it_breaks'],m['needs']))
t2='\n'.join(out)
s=open(V+'/DESIGN.md').read()
for k,t in (('contracts',t1),('seeds',t2)):
    s=re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)'%k,lambda m:m.group(1)+t+'\n'+m.group(2),s,flags=re.S)
open(V+'/DESIGN.md','w').write(s)
