#!/usr/bin/env python3
"""replay.py FILE: rebuild the uninstrumented harness from /repo and run it on a recorded counterexample."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vsbuild, check
fn = os.path.abspath(sys.argv[1]); t = open(fn).read()
m = re.search(r'# property (\S+) harness (\S+) file (\S+)\n# params (.*)', t)
src = vsbuild.V + '/harness/' + m.group(3)
env = dict(os.environ)
for k, v in json.loads(m.group(4)).items(): env['VS_PARAM_' + k] = str(v)
inp = fn + '.in'
with open(inp, 'w') as f: f.write(''.join(l + '\n' for l in t.splitlines() if l and not l.startswith('#')))
exe = vsbuild.executable(src, 'rep', check.srcs_of(src))
r = subprocess.run([exe, '--harness', m.group(2), '--file', inp], env=env); os.unlink(inp)
sys.exit(r.returncode)
