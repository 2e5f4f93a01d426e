#!/bin/bash
# trybattery.sh id ...: do the concrete scenarios of a mutant's property fail on it? (the verifier is not run)
V=$(cd "$(dirname "$0")/.." && pwd)
python3 - "$V" "$@" <<'P'
import sys,glob,subprocess,shutil,tempfile,os,re,json
from concurrent.futures import ThreadPoolExecutor
V=sys.argv[1]; want=set(sys.argv[2:])
M=[]
for f in sorted(glob.glob(V+'/tools/mutants/*.py')):
    ns={}; exec(open(f).read(),ns); M+=ns['M']
def go(it):
    id,edits=it; prop=id[:3]
    w=tempfile.mkdtemp(prefix='mb',dir='/tmp'); r=w+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',r])
        for f,a,b in edits:
            t=open(r+'/'+f).read()
            if t.count(a)<1: return id+' NO MATCH in '+f+': '+a[:60]
            open(r+'/'+f,'w').write(t.replace(a,b,1))
        res=[]
        e=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
        for pkg,fs in [('.',glob.glob(V+'/replay/*_test.go'))]+[(os.path.relpath(d,V+'/replay/sub'),glob.glob(d+'/*_test.go')) for d in glob.glob(V+'/replay/sub/*/*')]:
            if not any('TestReplay_'+prop in open(x).read() for x in fs): continue
            ov={r+'/'+pkg+'/zz_verif_'+os.path.basename(x):x for x in fs}
            for x in glob.glob(r+'/'+pkg+'/*_test.go'): ov[x]=''
            o=w+'/ov%d.json'%len(res); json.dump({"Replace":{os.path.normpath(k):v for k,v in ov.items()}},open(o,'w'))
            race=['-race'] if prop in ('C20','C21','C22') else []
            p=subprocess.run(['go','test','-vet=off','-overlay',o,'-run','TestReplay_'+prop,'-timeout','120s']+race+['./'+pkg],cwd=r,env=e,capture_output=True,text=True)
            t=p.stdout+p.stderr
            m=re.findall(r'--- FAIL: (\S+)|(panic: .{0,60}|fatal error: .{0,60}|DATA RACE|\[build failed\])',t)
            res.append('pass' if p.returncode==0 else 'FAIL '+' '.join(x or y for x,y in m[:3]))
        return id+' '+' | '.join(res)
    finally: shutil.rmtree(w,ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    for l in ex.map(go,[x for x in M if not want or x[0] in want]): print(l,flush=True)
P
