#!/bin/bash
# development helper: one.sh HARNESSFILE harness N : run the N-th reported violation once more with diagnostics
cd "$(dirname "$0")/.."; X=$(ls -t ${VS_BUILD:-build}/bin/$1-sym-* | grep -v '\.a$' | head -1); mapfile -t A < <(python3 -c "
import json,sys
v=json.load(open('/tmp/o-$2.json'))['violations'][$3]; print(v['label'],file=sys.stderr)
for k,x in v['inputs'].items(): print('--in'); print(f'{k}={x}')")
VS_DEBUG=1 VS_SHOW=1 $X --harness $2 --one "${A[@]}"
