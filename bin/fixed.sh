#!/bin/bash
# development helper: fixed.sh PROP "commit subject" "what failed" FILES... : commit a repair in /repo and list it
P=$1; S=$2; W=$3; shift 3
git -C /repo commit -q -m "fix: $S" -- "$@" || exit 1
H=$(git -C /repo rev-parse --short HEAD)
python3 - "$P" "$H" "$W" <<'X'
import json,sys
p='/verif/known_findings.json';k=json.load(open(p));L=k if isinstance(k,list) else k['findings']
L.append({"status":"fixed","property":sys.argv[1],"text":"fixed: property=%s %s %s"%tuple(sys.argv[1:4])})
json.dump(k,open(p,'w'),indent=1)
X
echo $H
