#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/*.py and tries planted bugs: mkseeds.py [gen] | try ID... (applies to /repo, builds, tests, demo, check, undoes)"""
import os, sys, subprocess, json, tempfile, shutil, time, difflib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SEEDS = {}
SH = '''#!/bin/bash
# exit 0: the behaviour is as documented
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=%(std)s -w -O1 %(flags)s -I"$d/inc" %(incs)s -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial "$d/demo.cpp" %(srcs)s -x c++ /usr/include/easylogging++.cc -x none -o "$t/demo" %(libs)s || exit 1
cd "$t" && timeout 200 ./demo
'''
def cfg(eq='elastic', el='tet4', order=2, prec=64, cfr=1, omp=False):
    d = ['PP_N_CRUNS=%d' % cfr, 'PP_ORDER=%d' % order, 'PP_PRECISION=%d' % prec, 'PP_T_ELEMENTS_' + el.upper(), 'PP_T_KERNELS_VANILLA']
    if eq == 'elastic': d += ['PP_T_EQUATIONS_SEISMIC', 'PP_N_RELAXATION_MECHANISMS=0']
    elif eq.startswith('visco'): d += ['PP_T_EQUATIONS_SEISMIC', 'PP_N_RELAXATION_MECHANISMS=' + eq[len('viscoelastic'):]]
    else: d += ['PP_T_EQUATIONS_' + eq.upper()]
    if omp: d.append('PP_USE_OMP')
    return d
def seed(id, prop, needs, breaks, edits, cpp=None, c=None, srcs=(), defs=(), tool=None, libs='', wykobi=False, sh=None, files=(), std='c++11', flags='', mini_gmsh=False):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, cpp=cpp, c=c, srcs=srcs, defs=defs, tool=tool, libs=libs, wykobi=wykobi, sh=sh, files=files, std=std, flags=flags, mini_gmsh=mini_gmsh)
PRE = '''#define ELPP_NO_DEFAULT_LOG_FILE
#include <easylogging++.h>
INITIALIZE_EASYLOGGINGPP
namespace { struct I { I() { el::Configurations c; c.setToDefault(); c.setGlobally(el::ConfigurationType::ToFile,"false"); for( auto l : {el::Level::Info, el::Level::Debug, el::Level::Verbose, el::Level::Trace} ) c.set(l,el::ConfigurationType::Enabled,"false"); el::Loggers::reconfigureAllLoggers(c); } } g_; }
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <vector>
#include <string>
#include <limits>
#include <algorithm>
#include <memory>
#include <array>
static int bad = 0;
#define EXPECT(c,...) do { if(!(c)) { bad++; if( bad < 6 ) { printf("FAILED: " #c " "); printf(__VA_ARGS__); printf("\\n"); } } } while(0)
'''
def diff(s):
    out = ''
    done = {}
    for f, a, b in s['edits']:
        t = done.get(f) or open(os.path.join(R, f)).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        done[f] = t.replace(a, b)
    for f, t in done.items():
        o = open(os.path.join(R, f)).read()
        l = difflib.unified_diff(o.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f)
        out += ''.join(x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in l)
    return out
def gen():
    for id, s in SEEDS.items():
        d = os.path.join(V, 'seeded', id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff(s))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        for f, t in s['files']: open(os.path.join(d, f), 'w').write(t)
        if s['wykobi']: os.makedirs(d + '/inc/submodules/wykobi'); shutil.copy(V + '/stubs/submodules/wykobi/wykobi.hpp', d + '/inc/submodules/wykobi/')
        if s['sh']: open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + s['sh'])
        else:
            open(d + '/demo.cpp', 'w').write(PRE + s['cpp'])
            if s['tool'] == 'edge_v':
                incs = '-I/repo/tools/edge_v -I/repo/tools/edge_v/src -I/repo'; base = '/repo/tools/edge_v/src/'
                if s['mini_gmsh']: shutil.copy(V + '/stubs/lib/mini_gmsh.cpp', d)
            elif s['tool'] == 'edge_cut': incs = '-I/repo/tools/edge_cut -I/repo/tools/edge_cut/src -I/opt/vp/deps/include'; base = '/repo/tools/edge_cut/src/'
            else: incs = '-I/repo -I/repo/src -I/opt/vp/deps/include'; base = '/repo/src/'
            df = list(s['defs']) + (cfg(**(s['c'] or {})) if not s['tool'] else [])
            fl = s['flags'] + ' -DPP_USE_EASYLOGGING -DEIGEN_MAX_STATIC_ALIGN_BYTES=0 ' + ' '.join('-D' + x for x in df)
            sr = ' '.join(x if x[0] in '/"$' else base + x for x in s['srcs']) + (' "$d/mini_gmsh.cpp"' if s['mini_gmsh'] else '')
            if s['c'] and s['c'].get('omp'): fl += ' -fopenmp'
            open(d + '/demo.sh', 'w').write(SH % dict(std=s['std'], flags=fl, incs=incs, srcs=sr, libs=s['libs']))
        os.chmod(d + '/demo.sh', 0o755)
    for d in glob.glob(V + '/seeded/*'):
        if os.path.basename(d) not in SEEDS: print('not in tools/seeds:', d)
def sh(c, t=1200, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
    return r.returncode, r.stdout.decode(errors='replace')
def tryit(ids, tests=True, checks=None):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert sh('git -C /repo status --porcelain')[1].strip() == '', 'not clean'
    for id in ids:
        s = SEEDS[id]; d = os.path.join(V, 'seeded', id); res = []
        r, o = sh('bash %s/demo.sh' % d, cwd=R); res.append('demo clean %s' % ('ok' if r == 0 else 'BAD ' + o[-600:]))
        r, o = sh('git -C /repo apply %s/patch.diff' % d); assert r == 0, o
        try:
            if tests:
                r, o = sh('bash /opt/vp/test.sh /tmp/_seed_tests.json')
                j = json.load(open('/tmp/_seed_tests.json')); miss = sorted(base - set(j['passed'])); res.append('tests %s' % ('ok (%d)' % len(j['passed']) if not miss else 'BAD ' + str(miss[:5]) + o[-300:]))
            r, o = sh('bash %s/demo.sh' % d, cwd=R); res.append('demo patched %s' % ('ok' if r != 0 and 'error:' not in o else 'BAD rc=%d %s' % (r, o[-600:])))
            for p in checks or [s['prop']]:
                t = time.time(); r, o = sh('VERIF_SEED=1 VERIF_TIER=quick python3 %s/checks/%s.py quick' % (V, p.lower()), 900)
                res.append('check %s %s (%.0f s) %s' % (p, 'CAUGHT' if r == 1 and 'VIOLATION property=' + p in o else 'MISSED rc=%d' % r, time.time() - t, next((l for l in o.split('\n') if 'violation:' in l), '')[:200]))
        finally:
            sh('git -C /repo checkout -- .')
        print(id, '|', ' | '.join(res), flush=True)
for f in sorted(glob.glob(V + '/tools/seeds/*.py')): exec(compile(open(f).read(), f, 'exec'))
if __name__ == '__main__':
    a = sys.argv[1:]
    gen()
    if a and a[0] == 'try': tryit([x for x in a[1:] if not x.startswith('-')] or list(SEEDS), tests='--notests' not in a)
