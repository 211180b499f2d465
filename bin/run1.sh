#!/bin/bash
# development helper: build one harness file and explore one harness
cd "$(dirname "$0")/.."; f=harness/$1.cpp; S=$(sed -n '1s#// srcs: ##p' $f)
bin/vsbuild.py sym $f $S >/tmp/run1.$$ 2>&1 || { grep -E "error|Error:" /tmp/run1.$$ | grep -v RuntimeError | head -${E:-12}; exit 1; }
X=$(ls ${VS_BUILD:-build}/bin/$1-sym-* | grep -v '\.a$')
for h in $(echo $2 | tr , ' '); do
timeout ${T:-300} $X --harness $h --out /tmp/o-$h.json --jobs 8 --budget ${B:-100}
python3 - /tmp/o-$h.json <<'P'
import json,sys
d=json.load(open(sys.argv[1])); n=int(__import__('os').environ.get('N','1500'))
print({k:d[k] for k in ('harness','exhaustive','wall_s','solver_s','paths','queries','unsat','unknown','assertions','concretizations','diverged','timeouts','pending')})
for k,v in d['notes'].items(): print('  ',v,k[:n])
print('  reached',[r for r in d['reached'] if not r.startswith('assert:')])
seen=set()
for v in d['violations']:
    if v['label'] in seen: continue
    seen.add(v['label']); print("  VIOL",v["label"],str(v["how"])[:300],str(v["inputs"])[:400])
P
done
