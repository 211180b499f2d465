#!/usr/bin/env python3
"""Builds the engine and the instrumented objects of /repo's current sources (content-addressed cache in /verif/build)."""
import re, hashlib, os, subprocess, sys, glob, shutil, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VS_REPO', '/repo')
B = os.environ.get('VS_BUILD') or os.path.join(V, 'build')
E = os.path.join(V, 'engine')
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
if not os.path.exists(Z3 + '/lib/libz3.so'):
    Z3 = None
CXX = 'clang++'
LLC = '/usr/lib/llvm-18/bin/llc'
COMPAT = '''#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#define make_unique vp_libstdcxx_make_unique
#include <memory>
#undef make_unique
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#endif
'''
PROPS = '''#ifndef BUILD_PROPERTIES_H_
#define BUILD_PROPERTIES_H_
#define VEGA_VERSION_MAJOR 3
#define VEGA_VERSION_MINOR 1
#define VEGA_VERSION_PATCH 1
#define VEGA_VERSION_EXTRA ""
#define PROJECT_BASE_DIR "/repo"
#define PROJECT_BINARY_DIR "/repo/_build"
#define Backtrace_FOUND 0
#define LIBUNWIND_FOUND 0
#define VALGRIND_FOUND 0
#define TESTS_NIGHTLY_BUILD ""
#define BUILD_TYPE "Debug"
#define DOXYGEN_DOT_EXECUTABLE ""
#define RUN_ASTER 0
#define ENABLE_ASTER 1
#define RUN_SYSTUS 0
#define RUN_NASTRAN 1
#endif
'''
def sh(cmd, env=None, **k):
    e = dict(os.environ)
    if env: e.update(env)
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout
def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()
def atomic(cmd_of, out):
    tmp = out + '.tmp%d' % os.getpid() + os.path.splitext(out)[1]
    cmd_of(tmp)
    os.replace(tmp, out)
DIRS = ['Abstract', 'Aster', 'Nastran', 'Optistruct', 'Systus', 'ResultReaders', 'Commandline']
def prepare():
    os.makedirs(B + '/inc', exist_ok=True); os.makedirs(B + '/obj', exist_ok=True); os.makedirs(B + '/bin', exist_ok=True)
    for n, t in (('vp_compat.h', COMPAT), ('build_properties.h', PROPS)):
        p = B + '/inc/' + n
        if not os.path.exists(p) or open(p).read() != t:
            with open(p, 'w') as f: f.write(t)
_pl = None; _pllock = threading.Lock()
def plugin():
    global _pl
    with _pllock:
        if _pl is None: _pl = plugin1()
        return _pl
def plugin1():
    k = h(rd(E + '/VsPass.cpp'), rd(E + '/vsops.h'))
    out = B + '/VsPass-%s.so' % k
    if not os.path.exists(out):
        flags = [f for f in sh(['llvm-config-18', '--cxxflags']).split() if not f.startswith('-std') and f != '-fno-exceptions']
        atomic(lambda t: sh([CXX, '-std=c++17', '-O1', '-fPIC', '-fno-rtti', '-shared', '-w'] + flags + ['-I/usr/lib/llvm-18/include', '-I' + E, E + '/VsPass.cpp', '-o', t]), out)
    return out
def rtobj():
    k = h(rd(E + '/rt.cpp'), rd(E + '/rt.h'), rd(E + '/vs.h'), rd(E + '/vsops.h'), Z3 or '', COMPAT, 2)
    out = B + '/obj/rt-%s.o' % k
    if not os.path.exists(out):
        def build(t): # the runtime keeps its own copies of library templates: an instrumented one must not be linked into it
            sh([CXX, '-std=c++17', '-O2', '-w', '-fno-pie', '-include', B + '/inc/vp_compat.h', '-c'] + (['-I' + Z3 + '/include'] if Z3 else []) + [E + '/rt.cpp', '-o', t + '.1'])
            sh(['ld', '-r', '--force-group-allocation', t + '.1', '-o', t + '.2'])
            sh(['objcopy', '-w'] + ['--keep-global-symbol=' + x for x in ('vs_*', '__vs*', '_ZN5VsReg*', '_Znwm', '_ZdlPv', '_ZdlPvm', 'main')] + [t + '.2', t]); os.unlink(t + '.1'); os.unlink(t + '.2')
        atomic(build, out)
    return out
INC = ['-include', B + '/inc/vp_compat.h', '-I' + B + '/inc', '-I' + E, '-I' + V + '/harness', '-I' + REPO + '/Abstract', '-I' + REPO, '-I/usr/include/hdf5/serial']
BASE = ['-std=gnu++14', '-w', '-ftemplate-depth=2000']
SYM = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-DVS_SYMBOLIC=1', '-fno-pie']
REP = ['-O1', '-fno-pie', '-g1', '-DVS_REPLAY=1']
_hdr = None
def hdrkey():
    global _hdr
    if _hdr is None:
        fs = sorted(f for d in DIRS for f in glob.glob(REPO + '/%s/*.h*' % d))
        _hdr = h(*[x for f in fs for x in (f, rd(f))], COMPAT, PROPS)
    return _hdr
PCH = ''.join('#include <%s>\n' % x for x in ('string', 'vector', 'map', 'set', 'list', 'memory', 'sstream', 'fstream', 'iostream', 'iomanip', 'algorithm', 'functional', 'unordered_map', 'unordered_set',
      'boost/algorithm/string.hpp', 'boost/lexical_cast.hpp', 'boost/filesystem.hpp')) + '#include "Abstract/Model.h"\n#include "Abstract/ConfigurationParameters.h"\n#include "Abstract/SolverInterfaces.h"\n'
_pch = {}; _pchlock = threading.Lock()
def pch(mode):
    """precompiled /repo headers (only to save time; skipped when they do not compile on their own)"""
    with _pchlock:
        if mode in _pch: return _pch[mode]
        k = h(hdrkey(), PCH, mode, ' '.join(SYM), ' '.join(REP), ' '.join(BASE))
        out = B + '/inc/pch-%s-%s.pch' % (mode, k)
        if not os.path.exists(out):
            for old in glob.glob(B + '/inc/pch-%s-*' % mode): os.unlink(old)
            src = B + '/inc/pch-%s-%s.h' % (mode, k)
            with open(src, 'w') as f: f.write(PCH)
            try: atomic(lambda t: sh([CXX] + BASE + (SYM if mode == 'sym' else REP) + INC + ['-fpch-instantiate-templates', '-Xclang', '-fno-pch-timestamp', '-x', 'c++-header', src, '-o', t]), out)
            except RuntimeError: out = None
        _pch[mode] = out
        return out
def obj(src, mode, extra=()):
    """compile one translation unit; mode 'sym' (instrumented) or 'rep' (the code as it is)"""
    hk = hdrkey() + (h(*[rd(f) for f in sorted(glob.glob(V + '/harness/*.h') + glob.glob(E + '/*.h'))]) if src.startswith(V) else '')
    if mode == 'sym':
        pl = plugin(); mk = h(rd(pl), rd(E + '/models.txt'), ' '.join(SYM))
    else: pl = plugin() if not src.startswith(E) else None; mk = h(' '.join(REP), rd(E + '/models_rep.txt'), rd(pl) if pl else '')
    k = h(src, rd(src), hk, mode, mk, ' '.join(extra), ' '.join(BASE))
    out = B + '/obj/%s-%s-%s.o' % (os.path.basename(src)[:-4], mode, k)
    if os.path.exists(out): return out
    for old in glob.glob(B + '/obj/%s-%s-*.o' % (os.path.basename(src)[:-4], mode)):
        try:
            if len(glob.glob(B + '/obj/%s-%s-*.o' % (os.path.basename(src)[:-4], mode))) > 6: os.unlink(old)
        except OSError: pass
    pc = None if src.startswith(E) else pch(mode)
    if pc:
        try: return obj1(src, mode, extra, pl, pc, out)
        except RuntimeError: pass  # once more without it
    return obj1(src, mode, extra, pl, None, out)
def obj1(src, mode, extra, pl, pc, out):
    cmd = [CXX] + BASE + (SYM if mode == 'sym' else REP) + (['-fpass-plugin=' + pl] if pl else []) + INC + (['-include-pch', pc] if pc else []) + list(extra) + ['-c', src]
    if mode == 'sym': # optimised and instrumented IR, unoptimised machine code (twice as fast to build)
        def two(t):
            sh(cmd + ['-emit-llvm', '-o', t + '.bc'], env={'VS_MODELS': E + '/models.txt'})
            sh([LLC, '-O0', '-filetype=obj', t + '.bc', '-o', t]); os.unlink(t + '.bc')
        atomic(two, out)
    else: atomic(lambda t: sh(cmd + ['-o', t], env={'VS_NOINSTR': '1', 'VS_MODELS': E + '/models_rep.txt'}), out)
    return out
def repo_sources():
    skip = {'vegamain.cpp'}
    fs = sorted(f for d in DIRS for f in glob.glob(REPO + '/%s/*.cpp' % d) if os.path.basename(f) not in skip)
    return fs
LIBS = ['-lboost_thread', '-lboost_date_time', '-lboost_program_options', '-lboost_filesystem', '-lboost_system', '-lboost_regex', '-lboost_chrono', '-lboost_atomic']
MED = ['-lmedC', '/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial']
def clean():
    """start again from nothing, without precompiled headers"""
    global _pl
    for f in glob.glob(B + '/obj/*.o') + glob.glob(B + '/inc/pch-*') + glob.glob(B + '/VsPass-*.so') + glob.glob(B + '/bin/h_*'): os.unlink(f)
    _pl = None; _pch['sym'] = _pch['rep'] = None
def pool(): return ThreadPoolExecutor(max_workers=int(os.environ.get('VS_JOBS', '8')))
WEIGHT = ['Model', 'NastranParser', 'Mesh', 'SystusWriter', 'AsterWriter', 'NastranParser_geometry', 'OptistructParser', 'NastranWriter']
def order(fs):
    return sorted(fs, key=lambda f: -os.path.getsize(f))
def objects(files, mode):
    if mode == 'sym': plugin()
    hdrkey()
    with pool() as ex:
        return list(ex.map(lambda f: obj(f, mode), order(files)))
def executable(harness_cpp, mode, srcs=None):
    if srcs is not None:
        try: return executable1(harness_cpp, mode, [s for s in srcs if s.startswith('/') or os.path.exists(REPO + '/' + s)])
        except RuntimeError as e:
            if 'undefined reference' not in str(e): raise
            sys.stderr.write('needs more sources than listed: ' + '; '.join(sorted(set(re.findall(r'undefined reference to `([^\']*)', str(e))))[:5]) + '\n')
    return executable1(harness_cpp, mode, None)
def executable1(harness_cpp, mode, srcs=None):
    """link one harness file with the instrumented (sym) or plain (rep) repository objects"""
    prepare()
    srcs = repo_sources() if srcs is None else [s if s.startswith('/') else REPO + '/' + s for s in srcs]
    files = [harness_cpp] + srcs + [E + '/vs_models.cpp'] + ([] if mode == 'sym' else [E + '/vs_replay.cpp'])
    with pool() as ex:
        if mode == 'sym':
            hdrkey(); pl = ex.submit(plugin); rto = ex.submit(rtobj); pc = ex.submit(pch, mode); pl.result()
        hdrkey()
        objs = list(ex.map(lambda f: obj(f, mode, ('-fno-builtin',) if f.endswith('vs_models.cpp') and mode == 'sym' else ()), order(files)))
    hobj = [o for o, f in zip(objs, order(files)) if f in (harness_cpp, E + '/vs_models.cpp', E + '/vs_replay.cpp')]
    robj = [o for o, f in zip(objs, order(files)) if f.startswith(REPO + '/')]
    if mode == 'sym': hobj.append(rto.result())
    k = h(*sorted(hobj + robj))
    base = os.path.basename(harness_cpp)[:-4]
    out = B + '/bin/%s-%s-%s' % (base, mode, k)
    if not os.path.exists(out):
        for old in glob.glob(B + '/bin/%s-%s-*' % (base, mode)): os.unlink(old)
        ar = out + '.a'
        if os.path.exists(ar): os.unlink(ar)
        if robj: sh(['ar', 'rcs', ar] + robj)
        z = []
        if mode == 'sym': z = [Z3 + '/lib/libz3.so', '-Wl,-rpath,' + Z3 + '/lib'] if Z3 else ['-lz3']
        atomic(lambda t: sh([CXX, '-no-pie', '-rdynamic', '-o', t] + hobj + ([ar] if robj else []) + z + LIBS + MED + ['-lpthread', '-ldl']), out)
        if robj: os.unlink(ar)
    return out
if __name__ == '__main__':
    prepare()
    if len(sys.argv) > 2: print(executable(os.path.abspath(sys.argv[2]), sys.argv[1], sys.argv[3:] or None))
    else:
        with pool() as ex:
            a = ex.submit(plugin); b = ex.submit(rtobj); c = ex.submit(pch, 'sym'); a.result(); b.result(); c.result()
        objects(repo_sources(), 'sym')
