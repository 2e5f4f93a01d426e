#!/bin/bash
# trymutants.sh [id ...]: the check of a mutant's property (all properties with ALLP=1) on a scratch copy
V=$(cd "$(dirname "$0")/.." && pwd); export V
python3 - "$V" "$@" <<'P'
import sys,glob,subprocess,shutil,tempfile,os,re
from concurrent.futures import ThreadPoolExecutor
V=sys.argv[1]; want=set(sys.argv[2:])
M=[]
for f in sorted(glob.glob(V+'/tools/mutants/*.py')):
    ns={}; exec(open(f).read(),ns); M+=ns['M']
def go(it):
    id,edits=it; prop=id[:3]
    w=tempfile.mkdtemp(prefix='mu',dir='/tmp'); r=w+'/repo'; v=w+'/v'
    try:
        subprocess.run(['cp','-a','/repo',r]); subprocess.run('git checkout -q -- .',shell=True,cwd=r)
        os.mkdir(v)
        for n in ('contracts','replay','known_findings.json'): subprocess.run(['cp','-a',V+'/'+n,v+'/'])
        for f,a,b in edits:
            t=open(r+'/'+f).read()
            if t.count(a)<1: return id+' NO MATCH in '+f+': '+a[:60]
            open(r+'/'+f,'w').write(t.replace(a,b,1))
        e=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
        p=subprocess.run('go build ./...',shell=True,cwd=r,env=e,capture_output=True,text=True)
        if p.returncode: return id+' BUILD '+p.stdout+p.stderr
        p=subprocess.run([V+'/bin/gvc','-repo',r,'-prop',prop,'-tier','quick','-verif',v,'-contracts',v+'/contracts'],cwd=V,env=e,capture_output=True,text=True)
        o=p.stdout+p.stderr
        viol=[l for l in o.split('\n') if l.startswith('VIOLATION')]
        obs=sorted(set(re.findall(r'[A-Za-z.]+/[a-z]+:[a-z-]+',o)))[:4]
        s='missed' if p.returncode==0 else ('caught-replay' if any('no-failing' not in x for x in viol) else 'caught-norep') if p.returncode==1 and viol else 'BROKEN rc=%d '%p.returncode+o[-300:]
        extra=''
        if s=='missed':
            p=subprocess.run([V+'/bin/gvc','-repo',r,'-all'],cwd=V,env=e,capture_output=True,text=True)
            bad=[l.strip()[:90] for l in p.stdout.split('\n') if l.startswith('   x') and 'reply-own-in-handler' not in l]
            extra=' (other: '+' | '.join(bad)+')' if bad else ' (nothing at all)'
        return id+' '+s+' '+' '.join(obs)+extra
    finally: shutil.rmtree(w,ignore_errors=True)
with ThreadPoolExecutor(3) as ex:
    for l in ex.map(go,[x for x in M if not want or x[0] in want]): print(l,flush=True)
P
