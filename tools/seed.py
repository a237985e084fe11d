#!/usr/bin/env python3
# seed.py SPEC...: build /verif/seeded/<id> from a python spec file defining
# id, prop, edits=[(file, old, new)], pkg, test (Go test source, func TestDemo),
# needs, breaks; and validate it in a scratch copy.
import sys,os,subprocess,json,shutil,re
V='/verif/seeded/'
DEMO='''#!/bin/bash
# runs the demonstration test against the package in the current directory
. /opt/vp/env.sh >/dev/null 2>&1
cd "${DEMO_REPO:-/repo}"
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(dir)szz_seed_demo_test.go" "$D/demo_test.go.txt" > "$T/o.json"
cp "$D/demo_test.go.txt" "$T/zz_seed_demo_test.go"
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(dir)szz_seed_demo_test.go" "$T/zz_seed_demo_test.go" > "$T/o.json"
timeout 250 go test -overlay "$T/o.json" -count=1 -run '^TestSeedDemo$' %(pkg)s || exit 1
exit 0
'''
for spec in sys.argv[1:]:
    g={}
    exec(open(spec).read(),g)
    W='/tmp/seedwork'
    subprocess.run(['rm','-rf',W]); subprocess.run(['cp','-a','/repo',W],check=True)
    d=V+g['id']; os.makedirs(d,exist_ok=True)
    pkg=g.get('pkg','.'); dr='' if pkg=='.' else pkg[2:]+'/'
    open(d+'/demo.sh','w').write(DEMO%{'dir':dr,'pkg':pkg}); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(g['test'])
    env=dict(os.environ,DEMO_REPO=W)
    r=subprocess.run(['bash',d+'/demo.sh'],cwd=W,env=env,capture_output=True,text=True)
    ok=True
    if r.returncode: print(g['id'],'DEMO FAILS UNCHANGED',r.stdout[-1500:],r.stderr[-500:]); ok=False
    for f,o,n in g['edits']:
        s=open(W+'/'+f).read()
        if s.count(o)!=1: print(g['id'],'EDIT COUNT',f,s.count(o),repr(o[:60])); ok=False
        open(W+'/'+f,'w').write(s.replace(o,n))
    p=subprocess.run(['git','diff'],cwd=W,capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(p)
    r=subprocess.run(['bash',d+'/demo.sh'],cwd=W,env=env,capture_output=True,text=True)
    if r.returncode==0: print(g['id'],'DEMO PASSES WITH BUG'); ok=False
    else: last=(r.stdout+r.stderr)[-300:]
    r=subprocess.run('. /opt/vp/env.sh; cd '+W+' && go build $PKGS && go test -json -vet=off -count=1 -skip "^TestForkedChain\$" $PKGS',shell=True,cwd=W,capture_output=True,text=True,executable='/bin/bash')
    base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if isinstance(json.load(open('/opt/vp/BASELINE.json')),dict) else [])
    got=set()
    for l in r.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'): got.add((e['Package'],e['Test']))
    names={t for _,t in got}
    miss=[b for b in base if not any(b.endswith(t) for t in names)]
    if miss: print(g['id'],'TESTS LOST',miss[:5], r.stderr[-500:]); ok=False
    json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
    subprocess.run(['rm','-rf',W])
    print(g['id'],'OK' if ok else 'BAD', last.strip().replace('\n',' | ')[:200] if ok else '')
