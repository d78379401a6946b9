#!/usr/bin/env python3
# edit.py FILE: reads python-literal pairs from stdin [(old,new),...]; newline style of the file is preserved
import sys
p=sys.argv[1]; b=open(p,'rb').read(); crlf=b'\r\n' in b
s=b.decode('latin-1').replace('\r\n','\n')
for o,n in eval(sys.stdin.read()):
    assert s.count(o)==1,(s.count(o),o)
    s=s.replace(o,n)
if crlf: s=s.replace('\n','\r\n')
open(p,'wb').write(s.encode('latin-1'))
