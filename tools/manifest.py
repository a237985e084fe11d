#!/usr/bin/env python3
# writes MANIFEST.json from the table below and properties.jsonl
import json,os,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
tagged=set()
for f in glob.glob(V+'/contracts/**/*.go',recursive=True):
    for m in re.finditer(r'^//vc:property (.*)$',open(f).read(),re.M):
        tagged|=set(m.group(1).split())
notes=json.load(open(V+'/tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']; n=notes.get(i,{})
    if 'na' in n or i not in tagged:
        na.append({'property':i,'reason':n.get('na','no contract for it yet')})
        continue
    checks.append({'property':i,'quick_cmd':f'bash check.sh {i} quick','thorough_cmd':f'bash check.sh {i} thorough',
      'technique':n.get('technique','contract-based deductive verification: contracts on the real functions, verification conditions generated from /repo\'s SSA form by govc and discharged by SMT solvers; failing contracts are executed on the real code for a concrete input'),
      'level':n.get('level','proof'),'level_note':n.get('note','see DESIGN.md')})
json.dump({'version':1,'setup_cmd':'bash check.sh --build','checks':checks,'not_applicable':na,
 'notes':'Contracts in /verif/contracts (overlaid on /repo), verifier in /verif/govc. See DESIGN.md.'},open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
