# readers for the demonstration scripts (a copy lies beside each demo)
import re, sys, glob, os
def num(s):
    s = s.strip().upper().replace('D', 'E')
    m = re.fullmatch(r'([+-]?[0-9.]+)([+-][0-9]+)', s)
    return float(m.group(1) + 'E' + m.group(2)) if m else float(s)
def cards(d='out'):
    out = []
    for f in sorted(glob.glob(d + '/**/*', recursive=True)):
        if not os.path.isfile(f): continue
        t = open(f, errors='replace').read()
        if 'BEGIN BULK' not in t: continue
        bulk = False
        for l in t.splitlines():
            if l.startswith('BEGIN BULK'): bulk = True; continue
            if not bulk or not l.strip() or l[0] == '$': continue
            if ',' in l: fs = [x.strip() for x in l.split(',')]; cont = fs[0] in ('', '+')
            else:
                w = 16 if '*' in l[:8] else 8
                fs = [l[:8].strip()] + [l[i:i + w].strip() for i in range(8, 72, w)]; cont = l[0] in '+* '
            if cont: out[-1] += fs[1:]
            else: out.append([fs[0].rstrip('*')] + fs[1:])
    for c in out:
        while len(c) > 1 and c[-1] == '': c.pop()
    return out
def of(kw, d='out'): return [c for c in cards(d) if c[0] == kw]
def comm(d='out'):
    fs = [f for f in glob.glob(d + '/**/*.comm', recursive=True)]
    return open(fs[0], errors='replace').read()
def asc(d='out'):
    r = {}
    for f in sorted(glob.glob(d + '/**/*.ASC', recursive=True)):
        sec = None; s = {}
        for l in open(f, errors='replace'):
            if l.startswith('BEGIN_'): sec = l.split()[0][6:]; s[sec] = []
            elif l.startswith('END_'): sec = None
            elif sec: s[sec].append(l.split())
        r[os.path.basename(f)] = s
    return r
def near(a, b, t=1e-4): return abs(a - b) <= t * max(1.0, abs(b))
