#!/usr/bin/env python3
# development helper: mut.py FILE : tries planted changes [(PROP, file, old, new)] quickly: copy of /repo, check only
import sys, subprocess, shutil, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/mut'
L = runpy.run_path(sys.argv[1])['M']; pick = set(map(int, sys.argv[2:]))
for i, (prop, *ed) in enumerate(L):
    if pick and i not in pick: continue
    if not os.path.isdir(W): subprocess.check_call(['git', 'clone', '-q', os.environ.get('MUTSRC','/repo'), W])
    subprocess.check_call(['git', '-C', W, 'fetch', '-q']); subprocess.check_call(['git', '-C', W, 'reset', '-q', '--hard', 'origin/HEAD'])
    ok = True
    for k in range(0, len(ed), 3):
        f, o, n = ed[k:k+3]; s = open(W + '/' + f).read()
        if s.count(o) != 1: print(i, prop, 'BAD EDIT', s.count(o), o[:70]); ok = False; break
        open(W + '/' + f, 'w').write(s.replace(o, n))
    if not ok: continue
    for p in prop.split(','):
        r = subprocess.run([V + '/bin/check.py', p], env=dict(os.environ, VS_REPO=W, VS_BUILD='/tmp/mutb', VS_EVIDENCE='/tmp/mutb'), capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]; x = [l for l in (r.stdout + r.stderr).split('\n') if 'INCONC' in l or 'error:' in l][:2]
        print(i, p, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, repr(ed[2][:60]), x, flush=True)
