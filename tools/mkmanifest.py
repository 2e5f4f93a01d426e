#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl
import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
NA={}  # property -> reason
NOTES=json.load(open('tools/level_notes.json'))
GEN="Proved for all inputs, paths and loop iterations of the contracted functions, generated from /repo's source on every run; trusts gvc (the obligation generator in /verif/gvc), go/ssa, z3/cvc5 and the library models; assumptions are listed in the evidence file. "
checks=[]
for l in open('properties.jsonl'):
    p=json.loads(l)['id']
    if p in NA: continue
    checks.append({"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough",
      "technique":"contract-based deductive verification of the real code (contracts over the functions' events and results, weakest preconditions by symbolic execution of go/ssa, discharged by z3 and cvc5)",
      "level":"proof","level_note":GEN+NOTES.get(p,"")})
json.dump({"version":1,"setup_cmd":"bash build.sh","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: contracts live in /verif/contracts and are bound to the functions by name; /repo only has fix: commits."},open('MANIFEST.json','w'),indent=1)
