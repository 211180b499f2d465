#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property by symbolic execution of /repo's current sources.

Exit 0: no violation in what was explored (evidence/<id>.json says whether the exploration was complete).
Exit 1: a solver counterexample that the uninstrumented code reproduces; prints VIOLATION property=<id> replay=<file>."""
import argparse, json, os, subprocess, sys, time, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vsbuild
V = vsbuild.V
def srcs_of(path):
    with open(path) as f:
        for line in f:
            m = re.match(r'//\s*srcs:\s*(.*)', line)
            if m: return m.group(1).split()
    return None
def known():
    out = []
    p = V + '/known_findings.json'
    if os.path.exists(p):
        for e in json.load(open(p))['findings']: out.append(e)
    return out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(V + '/checks.json'))['properties'][a.prop]
    t0 = time.time()
    os.makedirs(V + '/evidence/replays', exist_ok=True)
    for f in os.listdir(V + '/evidence/replays'):
        if f.startswith(a.prop + '-'): os.unlink(V + '/evidence/replays/' + f)
    jobs = os.environ.get('VS_JOBS', '8')
    limit = 720 if tier == 'quick' else 6 * 3600
    res = []; viol = []; knownhits = []; inconclusive = []; build_s = 0.0; exe = {}; rebuilt = False
    hs = [h for h in cfg['harnesses'] if not a.only or h['name'] == a.only]
    for h in hs:
        src = V + '/harness/' + h['file']
        if src not in exe:
            tb = time.time()
            exe[src] = vsbuild.executable(src, 'sym', srcs_of(src)); build_s += time.time() - tb
        o = dict(h.get('all', {})); o.update(h.get(tier, {}))
        if tier == 'quick' and o.get('skip'): continue
        left = limit - (time.time() - t0)
        if left < 5: inconclusive.append('%s: no time left' % h['name']); continue
        env = dict(os.environ); params = o.get('params', {})
        for k, v in params.items(): env['VS_PARAM_' + k] = str(v)
        outp = (os.environ.get('VS_BUILD') or V + '/build') + '/out-%s-%s.json' % (a.prop, h['name'])
        if os.path.exists(outp): os.unlink(outp)
        cmd = [exe[src], '--harness', h['name'], '--out', outp, '--jobs', jobs, '--seed', str(seed), '--budget', str(min(o.get('budget', 90 if tier == 'quick' else 1800), left)),
               '--path-timeout', str(o.get('path_timeout', 60)), '--query-timeout-ms', str(o.get('query_ms', 20000))]
        for k in known():
            if k['property'] == a.prop and k.get('status') == 'known' and k['harness'] == h['name']: cmd += ['--known', k['label']]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        def broken(): # nothing but crashes: a damaged build rather than a finding
            if not os.path.exists(outp): return True
            d = json.load(open(outp)); return not [x for x in d['reached'] if not x.startswith('assert:')] and bool(d['violations']) and all(v['label'].startswith('crash') for v in d['violations'])
        if not rebuilt and broken():
            rebuilt = True
            for v in (json.load(open(outp))['violations'] if os.path.exists(outp) else [])[:1]: sys.stderr.write('%s: every path ends in %s %s\n' % (h['name'], v['label'], v['how'][:600]))
            sys.stderr.write('building again without precompiled headers\n'); tb = time.time(); vsbuild.clean(); exe = {src: vsbuild.executable(src, 'sym', srcs_of(src))}; build_s += time.time() - tb; cmd[0] = exe[src]
            if os.path.exists(outp): os.unlink(outp)
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if not os.path.exists(outp):
            inconclusive.append('%s: engine ended with %d: %s' % (h['name'], r.returncode, r.stdout[-300:])); continue
        d = json.load(open(outp)); d['params'] = params; d['bounds'] = h.get('bounds', ''); res.append(d)
        missing = [x for x in h.get('reach', []) if x not in d['reached']]
        if missing: inconclusive.append('%s: not reached: %s' % (h['name'], ', '.join(missing)))
        seen = set()
        for v in d['violations']:
            label = v['label']
            if label in seen: continue
            # replay on the uninstrumented code
            tb = time.time(); rep = vsbuild.executable(src, 'rep', srcs_of(src)); build_s += time.time() - tb
            fn = V + '/evidence/replays/%s-%s-%d.txt' % (a.prop, h['name'], len(viol) + len(knownhits) + len(inconclusive))
            with open(fn, 'w') as f:
                for k, x in sorted(v['inputs'].items()): f.write('%s %d\n' % (k, x))
            try:
                rr = subprocess.run([rep, '--harness', h['name'], '--file', fn], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60)
                text, code = rr.stdout, rr.returncode
            except subprocess.TimeoutExpired as ex:
                text = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or ''); text += '\nREPLAY-VIOLATION hang: no result within 60 s\n'; code = 1
            got = re.findall(r'^REPLAY-VIOLATION (.*)$', text, re.M)
            if code in (-14,): got.append('hang')
            if not got and code < 0: got = ['crash:signal %d' % -code]
            kind = lambda x: x.split(':')[0] if x.split(':')[0] in ('crash', 'hang', 'exception') else x
            if got and kind(label) not in [kind(g) for g in got]:
                if a.verbose: print('OTHER LABELS', got)
                got = []
            if not got:
                inconclusive.append('%s: counterexample for "%s" not reproduced by the real code: %s' % (h['name'], label, v['how'][:400])); os.unlink(fn)
                if a.verbose: print('NOT REPRODUCED', h['name'], label, v['inputs'], text[-2000:])
                continue
            with open(fn, 'a') as f:
                f.write('# property %s harness %s file %s\n# params %s\n# violated: %s (found by: %s)\n' % (a.prop, h['name'], h['file'], json.dumps(params), '; '.join(got), v['how']))
                f.write('# replay: bin/replay.py %s\n' % os.path.relpath(fn, V))
                for line in text.splitlines()[:200]: f.write('#| %s\n' % line)
            ks = [k for k in known() if k['property'] == a.prop and k.get('status') == 'known' and k['harness'] == h['name']]
            unlisted = [g for g in got if not any(k['label'] == g for k in ks)]
            if not unlisted:
                seen.add(label)
                for k in ks:
                    if k['label'] in got and k['id'] not in [x['id'] for x in knownhits]: knownhits.append(k)
            else:
                seen.add(label); viol.append((h['name'], unlisted, fn, v))
                if not a.only and not a.verbose: break
        if viol and not a.verbose: break
    ex = bool(res) and all(d['exhaustive'] for d in res) and not inconclusive
    s = lambda k: sum(d[k] for d in res)
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {
              'explanation': 'Bounded symbolic execution of the LLVM code compiled from /repo in this run; every feasible path within the bounds is explored and every assertion is decided by z3 for all values on the path.' ,
              'exhaustive': ex,
              'paths': s('paths'), 'solver_queries': s('queries'), 'unsat': s('unsat'), 'sat': s('sat'), 'unknown': s('unknown'), 'unsat_answers_reused': s('reused_unsat'),
              'solver_time_s': round(s('solver_s'), 2), 'assertions_evaluated': s('assertions'), 'assertions_decided_by_solver': s('assert_unsat') + s('assert_sat'), 'assertions_constant_on_path': s('assert_constant'),
              'symbolic_operations': s('symbolic_ops'), 'terms': s('terms'), 'path_conditions_validated': s('validated'), 'concretizations': s('concretizations'),
              'functions_encoded': sorted({f for d in res for f in d['functions']}),
              'inconclusive': inconclusive, 'build_s': round(build_s, 1),
              'harnesses': [{k: d[k] for k in ('harness', 'exhaustive', 'pending', 'wall_s', 'solver_s', 'paths', 'queries', 'unsat', 'sat', 'unknown', 'assertions', 'branches', 'timeouts', 'params', 'bounds', 'reached', 'samples', 'notes')} for d in res],
              'known_findings_seen': [k['id'] for k in knownhits]},
          'assumptions': cfg.get('assumptions', [])}
    with open(V + '/evidence/%s.json' % a.prop, 'w') as f: json.dump(ev, f, indent=1)
    for d in res:
        print('%s %s: paths=%d queries=%d unsat=%d solver=%.1fs wall=%.1fs %s' % (a.prop, d['harness'], d['paths'], d['queries'], d['unsat'], d['solver_s'], d['wall_s'], 'exhaustive within bounds' if d['exhaustive'] else 'NOT exhaustive'))
    for x in inconclusive: print('INCONCLUSIVE', x)
    for k in knownhits: print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    for hn, labels, fn, v in viol:
        print('  harness %s: %s' % (hn, '; '.join(labels)))
        print('VIOLATION property=%s replay=%s' % (a.prop, fn))
    print('%s %s tier, wall %.1f s (build %.1f s)' % (a.prop, tier, time.time() - t0, build_s))
    return 1 if viol else 0
if __name__ == '__main__':
    sys.exit(main())
