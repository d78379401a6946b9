#!/usr/bin/env python3
# writes MANIFEST.json from the list of implemented checks (checks/Cxx.cpp) and properties.jsonl
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
notes=json.load(open('tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    n=notes.get(i)
    if n and 'na' not in n and os.path.exists('checks/%s.cpp'%i):
        checks.append({"property":i,"quick_cmd":"./check %s --tier quick"%i,"thorough_cmd":"./check %s --tier thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":n['technique'],"level":n.get('level','model_checking'),"level_note":n['note']})
    else:
        na.append({"property":i,"reason":(n or {}).get('na','check not built yet')})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na,"notes":"Stateless bounded model checking of the real library: every check rebuilds NULLC from /repo into /verif/build and enumerates a finite space of programs, inputs, host call histories or faults completely. No hooks are needed in /repo (fault injection interposes operator new through nullcInitCustomAlloc and link-time wrapping)."}
json.dump(m,open('MANIFEST.json','w'),indent=1)
