#!/usr/bin/env python3
# addlevel.py ID TECHNIQUE NOTE | addlevel.py ID --na REASON : edits tools/levels.json and regenerates MANIFEST.json
import json,sys,subprocess
p='/verif/tools/levels.json'; d=json.load(open(p))
d[sys.argv[1]]={'na':sys.argv[3]} if sys.argv[2]=='--na' else {'technique':sys.argv[2],'note':sys.argv[3]}
json.dump(d,open(p,'w'),indent=1,sort_keys=True)
subprocess.check_call(['python3','/verif/tools/mkmanifest.py'])
