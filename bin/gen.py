#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json and checks.json from bin/proptable.py and bin/checktable.py (development helper, not needed by a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from proptable import P, NA
from checktable import H
cfg = {k: {'harnesses': v} for k, v in H.items()}
json.dump({'properties': cfg}, open(V + '/checks.json', 'w'), indent=1)
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
checks = []
for p in P:
    if p['id'] not in cfg: assert p['id'] in NA, p['id']; continue
    i = p['id']
    checks.append({'property': i, 'quick_cmd': 'bin/check.py %s --tier quick' % i, 'thorough_cmd': 'bin/check.py %s --tier thorough' % i,
                   'technique': 'symbolic execution of the LLVM code of /repo, every assertion decided by z3', 'level': 'other',
                   'level_note': p['note'] + ' Every feasible path within the bounds is executed on the code compiled from /repo; the solver decides each assertion for all values on the path; counterexamples are replayed on the uninstrumented code. Trusted: the LLVM pass and runtime in engine/, its libc models, z3.'})
m = {'version': 1, 'setup_cmd': 'bin/vsbuild.py', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: the engine instruments LLVM bitcode. fix: commits in /repo are listed in known_findings.json.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

# DESIGN.md: everything after the marker is generated from the tables above, known_findings.json and seeded/*/meta.json
MARK = '<!-- generated by bin/gen.py from here on -->\n'
head = open(V + '/DESIGN.md').read().split(MARK)[0]
known = json.load(open(V + '/known_findings.json'))['findings']
seeds = {}
for d in sorted(os.listdir(V + '/seeded')):
    try: seeds[d] = json.load(open(V + '/seeded/' + d + '/meta.json'))
    except OSError: pass
out = ['## Properties, and how each is decided\n',
       'Technique, for all of them: symbolic execution of the LLVM code compiled from /repo in the same run; every assertion is a z3 query over all values of the path.',
       'Columns of each table: harness, and the bounds within which it explores every path (`vs_choose` structure times symbolic values).\n']
for p in P:
    i = p['id']
    out.append('### %s - %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    if i not in H:
        out.append('Not applicable: ' + NA[i] + '\n'); continue
    out.append('Quantified over: %s. Tests cannot settle it: %s.\n' % (p['quant'], p['why']))
    for x in H[i]:
        out.append('* `harness/%s: %s` - %s' % (x['file'], x['name'], x['bounds']))
    out.append('* code encoded: %s; oracle: the harness computes the expected view from the deck it built, and compares it with the view read back from the output.' % ', '.join(p['files']))
    out.append('* limits: %s' % p['note'])
    for k in known:
        if k['property'] == i:
            if k['status'] == 'fixed': out.append('* defect repaired: %s' % k['text'].split('property=%s ' % i, 1)[1])
            else: out.append('* KNOWN FINDING (not repaired) %s: %s' % (k['id'], k['what']))
    for s, m in seeds.items():
        if m['property'] == i: out.append('* planted bug `%s`: %s, needs %s - %s' % (s, m['what_it_breaks'], m['needs'], m.get('caught', 'caught by this check')))
    out.append('')
open(V + '/DESIGN.md', 'w').write(head + MARK + '\n'.join(out))
