#!/usr/bin/env python3
"""Makes and confirms planted bugs: tools/mkseed.py [id ...]. Reads tools/seeds/*.py (lists of SEEDS),
applies each change in a scratch copy, confirms that it builds, passes the stable tests, and that the
demonstration passes without and fails with it; writes seeded/<id>/."""
import sys,os,glob,json,subprocess,shutil,tempfile,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
DEMO='''#!/bin/bash
# runs the demonstration beside this file against the repository in the current directory
d=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
python3 - "$repo" "$d" > "$w/ov.json" <<'P'
import glob,json,os,sys
r,d=sys.argv[1:]
ov={f:"" for f in glob.glob(r+"/*_test.go")}
for f in glob.glob(d+"/*_test.go"): ov[r+"/zz_"+os.path.basename(f)]=f
print(json.dumps({"Replace":ov}))
P
go test -vet=off RACE -overlay "$w/ov.json" -run '^TestDemo' -count=1 -timeout 120s .
'''
def sh(cmd,cwd=None,timeout=400):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,timeout=timeout)
    return p.returncode,p.stdout+p.stderr
seeds=[]
for f in sorted(glob.glob(V+'/tools/seeds/*.py')):
    ns={}; exec(open(f).read(),ns); seeds+=ns['SEEDS']
want=set(sys.argv[1:])
common=open(V+'/tools/seeds/common_test.go').read()
helper=open(V+'/replay/helper_test.go').read()
stable=json.load(open('/opt/vp/BASELINE.json'))
for s in seeds:
    if want and s['id'] not in want: continue
    out=f"{V}/seeded/{s['id']}"
    if not want and os.path.exists(out+'/patch.diff'): continue
    w=tempfile.mkdtemp(prefix='seed'); r=w+'/repo'
    try:
        sh(f'git -C /repo worktree prune; cp -a /repo {r}')
        sh('git checkout -q -- .',r)
        for f,a,b in s['edits']:
            p=r+'/'+f; t=open(p).read()
            assert t.count(a)==1,(s['id'],f,a,t.count(a))
            open(p,'w').write(t.replace(a,b))
        rc,diff=sh('git diff',r)
        d=w+'/demo'; os.mkdir(d)
        ext=s.get('ext',False)
        if not ext:
            open(d+'/helper_test.go','w').write(helper); open(d+'/common_test.go','w').write(common)
        head=s['demo']
        open(d+'/demo_test.go','w').write(head)
        open(d+'/demo.sh','w').write(DEMO.replace('RACE','-race' if s.get('race') else ''))
        rc,o=sh('gofmt -l *.go gobwas gorilla stackexchange; go build ./...',r)
        if rc: print(s['id'],'BUILD',o); continue
        rc0,o0=sh(f'bash {d}/demo.sh','/repo'); rc1,o1=sh(f'bash {d}/demo.sh',r)
        if rc0!=0 or rc1==0: print(s['id'],'DEMO clean',rc0,o0[-1500:] if rc0 else '','patched',rc1,o1[-300:]); continue
        if 'build failed' in o1 or '[setup failed]' in o1: print(s['id'],'DEMO does not compile',o1[-500:]); continue
        # repository tests
        bad=None
        for i in range(2):
            rc,o=sh("go test -vet=off -count=1 -json . 2>/dev/null",r)
            passed=set()
            for l in o.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Test'])
            names=[re.split(r'[/: ]',x if isinstance(x,str) else x['name'])[-1] for x in (stable.get('stable') or stable.get('passed') or stable.get('tests'))]
            miss=[n for n in names if n not in passed]
            if miss: bad=miss
        if bad: print(s['id'],'TESTS fail',bad); continue
        os.makedirs(out,exist_ok=True)
        for f in os.listdir(d): shutil.copy(d+'/'+f,out)
        open(out+'/patch.diff','w').write(diff)
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(out+'/meta.json','w'),indent=1)
        print(s['id'],'ok')
    finally: shutil.rmtree(w)
