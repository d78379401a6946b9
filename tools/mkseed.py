#!/usr/bin/env python3
# mkseed.py: stdin = python dict {name, property, needs, breaks, edits:{file:[(old,new)]}, case, expected, [cpp]} -> /verif/seeded/NAME (patch made in the scratch clone /tmp/wp)
import sys,os,subprocess,json,shutil
d=eval(sys.stdin.read()); n='/verif/seeded/'+d['name']; os.makedirs(n,exist_ok=True)
subprocess.check_call('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD',shell=True,cwd='/tmp/wp')
for f,e in d['edits'].items():
    subprocess.run(['python3','/verif/tools/edit.py','/tmp/wp/'+f],input=repr(e).encode(),check=True)
open(n+'/patch.diff','wb').write(subprocess.check_output(['git','diff'],cwd='/tmp/wp'))
subprocess.check_call(['git','checkout','-q','--','.'],cwd='/tmp/wp')
json.dump({'property':d['property'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(n+'/meta.json','w'),indent=1)
sh='#!/bin/bash\n# run with cwd = repository root after the build\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp)\n'
if 'cpp' in d:
    open(n+'/demo.cpp','w').write(d['cpp'])
    sh+='g++ -g -w -I. %s "$d/demo.cpp" bin/libnullc.a -o "$t" -ldl -rdynamic || exit 3\ntimeout 100 "$t"; r=$?\n' % d.get('flags','')
else:
    shutil.copy('/verif/tools/seed_run.cpp',n+'/run.cpp'); open(n+'/case.nc','w').write(d['case']); open(n+'/expected.txt','w').write(d['expected'])
    sh+='g++ -g -w -I. "$d/run.cpp" bin/libnullc.a -o "$t" -ldl -rdynamic || exit 3\ntimeout 100 "$t" "$d/case.nc" "$(cat "$d/expected.txt")"; r=$?\n'
sh+='rm -f "$t"; exit $r\n'
open(n+'/demo.sh','w').write(sh); os.chmod(n+'/demo.sh',0o755)
