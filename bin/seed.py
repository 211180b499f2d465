# development helper: writes seeded/ID from text replacements in /repo
import json, sys, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SEEDREPO', '/repo')
HEAD = '''#!/bin/bash
# translates the deck beside this script with the built vegapp and looks at the output
APP=/repo/_build/bin/vegapp
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp "$H"/* "$W"/; cd "$W"
'''
def make(id, prop, edits, needs, breaks, fmt=None, deck=None, py=None, demo=None, files={}, opts='', nas='in.nas', infmt='nastran'):
    d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True)
    try:
        for f, o, n in edits:
            s = open(R + '/' + f).read(); assert s.count(o) == 1, (id, f, s.count(o), o[:60])
            open(R + '/' + f, 'w').write(s.replace(o, n, 1))
        diff = subprocess.check_output(['git', '-C', R, 'diff'], text=True)
    finally: subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    if demo is None:
        demo = HEAD + '"$APP" -o out %s %s %s %s >log 2>&1 || { cat log; exit 2; }\n' % (opts, nas, infmt, fmt) + "python3 - <<'P' || { tail -5 log; exit 1; }\nfrom demo_rd import *\n" + py + '\nP\n'
        shutil.copy(V + '/bin/demo_rd.py', d + '/demo_rd.py'); open(d + '/' + nas, 'w').write(deck)
    open(d + '/demo.sh', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
    for k, v in files.items(): open(d + '/' + k, 'w').write(v)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
