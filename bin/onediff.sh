#!/bin/bash
# development helper: as one.sh, and compare the two outputs of a text harness
cd "$(dirname "$0")/.."; bin/one.sh "$@" >/tmp/r.txt 2>&1; python3 - <<'P'
import re,difflib
t=open('/tmp/r.txt','rb').read().decode('latin1'); a,b=t.split('======')[:2]; 
def rn(s):
    seen={}
    def f(m):
        k=m.group(1)
        d=seen.setdefault(k,{}); return k+'~%d'%d.setdefault(m.group(2),len(d)+1)
    return re.sub(r"(?<!')\b(M|BL|CHMEC|RESU|CRESU|TBLO|uloc|RETB|unit|tbresloc_|tbresu_)(\d+)",f,s)
print('\n'.join(difflib.unified_diff(rn(a).split('\n'),rn(b).split('\n'),lineterm='',n=1)))
P
