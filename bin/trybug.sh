#!/bin/bash
# trybug.sh ID...: apply seeded/ID to a scratch clone (/tmp/tb), build, test, run its demo and its property's check (development helper)
cd "$(dirname "$0")/.."; T=/tmp/tb
[ -d $T ] || git clone -q /repo $T
git -C $T fetch -q; git -C $T reset -q --hard origin/HEAD
sed "s#/repo#$T#g" /opt/vp/build.sh > /tmp/tb-build.sh; sed "s#/repo#$T#g" /opt/vp/test.sh > /tmp/tb-test.sh
[ -n "$NOBASE" ] || bash /tmp/tb-build.sh >/tmp/bug-build.log 2>&1
demo() { rm -rf /tmp/tb-demo; cp -r seeded/$1 /tmp/tb-demo; sed -i "s#/repo#$T#g" /tmp/tb-demo/demo.sh; (cd $T && bash /tmp/tb-demo/demo.sh > $2 2>&1); }
for id in "$@"; do [ -n "$NOBASE" ] || { demo $id /tmp/demo0-$id.log; echo "$id clean demo $?"; }; done
[ -n "$CLEANONLY" ] && exit
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
 git -C $T apply $PWD/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
 bash /tmp/tb-build.sh >/tmp/bug-build.log 2>&1; b=$?
 bash /tmp/tb-test.sh /tmp/bug-test.json >/dev/null 2>&1
 t=$(python3 -c "import json;d=json.load(open('/tmp/bug-test.json'));b=json.load(open('/opt/vp/BASELINE.json'));b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b;print('lost',[x for x in b if x not in d['passed']][:5])" 2>&1)
 demo $id /tmp/demo1-$id.log; d1=$?
 r=$(VS_BUILD=/tmp/tbb VS_REPO=$T bin/check.py $p 2>&1 | grep -E "VIOLATION|harness |INCONC" | head -4)
 git -C $T checkout -q -- .
 echo "== $id ($p): build=$b tests=$t demo bug=$d1"; echo "$r"
done
