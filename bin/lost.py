import json,sys
d=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b;l=[x for x in b if x not in d['passed']];print('lost',l);sys.exit(bool(l))
