#!/bin/bash
# tryrefactors.sh [id ...]: the verifier on behaviour-preserving edits; prints what it reports
V=$(cd "$(dirname "$0")/.." && pwd); export V
python3 - "$V" "$@" <<'P'
import sys,glob,subprocess,shutil,tempfile,os
from concurrent.futures import ThreadPoolExecutor
V=sys.argv[1]; want=set(sys.argv[2:])
R=[]
for f in sorted(glob.glob(V+'/tools/refactors/*.py')):
    ns={}; exec(open(f).read(),ns); R+=ns['R']
def go(it):
    id,edits=it
    w=tempfile.mkdtemp(prefix='rf',dir='/tmp'); r=w+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',r]); subprocess.run('git checkout -q -- .',shell=True,cwd=r)
        for f,a,b in edits:
            t=open(r+'/'+f).read()
            if t.count(a)<1: return id+' NO MATCH in '+f+': '+a[:60]
            open(r+'/'+f,'w').write(t.replace(a,b,1))
        e=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
        p=subprocess.run('gofmt -l *.go; go build ./... && go vet -unusedresult=false . >/dev/null 2>&1; go build ./...',shell=True,cwd=r,env=e,capture_output=True,text=True)
        if p.returncode: return id+' BUILD '+p.stdout+p.stderr
        if os.environ.get('TESTS'):
            p=subprocess.run('go test -vet=off -count=1 .',shell=True,cwd=r,env=e,capture_output=True,text=True)
            if p.returncode: print(id,'TESTS FAIL',p.stdout[-300:])
        p=subprocess.run([V+'/bin/gvc','-repo',r,'-all'],cwd=V,env=e,capture_output=True,text=True)
        out=[l for l in (p.stdout+p.stderr).split('\n') if l.startswith(('FAIL','panic','   x')) or 'not analys' in l]
        bad=[l.strip()[:160] for l in out if 'reply-own-in-handler' not in l and not l.startswith('FAIL')]
        return id+(' ok' if not bad and ('roots' in p.stdout) else ' ALARM '+' | '.join(bad)+('' if 'roots' in p.stdout else p.stdout[-300:]+p.stderr[-500:]))
    finally: shutil.rmtree(w,ignore_errors=True)
with ThreadPoolExecutor(3) as ex:
    for l in ex.map(go,[x for x in R if not want or x[0] in want]): print(l,flush=True)
P
