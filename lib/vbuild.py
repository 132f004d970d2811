"""Builds programs from /repo's current working tree (plus the stand-ins and harnesses of /verif) with ninja."""
import os, subprocess, hashlib, re, glob, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, '_build')
STUBS = os.path.join(VERIF, 'stubs')
HDF5 = ['/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so', '/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so']

class BuildError(Exception):
    pass

class Missing(str):
    """a program which could not be built: an error for all users but additional harnesses, which are reported as not run"""
    def __new__(cls, name, error): x = str.__new__(cls, '/nonexistent/' + name); x.error = error; return x

SAN = {
    'none': [],
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
    'ubsan': ['-fsanitize=undefined', '-fno-sanitize-recover=undefined'],
    'tsan': ['-fsanitize=thread', '--param=tsan-distinguish-volatile=1', '-DVH_TSAN', '-fno-omit-frame-pointer'],
}

def edge_src(excl=()):
    """all non-test sources of EDGE proper, relative to src/"""
    base = os.path.join(REPO, 'src')
    l = []
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith('.cpp') and not re.search(r'tests?\.cpp$', f):
                l.append(os.path.relpath(os.path.join(d, f), base))
    return sorted(x for x in l if x not in excl)

def edgev_src(excl=()):
    base = os.path.join(REPO, 'tools/edge_v/src')
    l = []
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith('.cpp') and not re.search(r'tests?\.cpp$', f):
                l.append(os.path.relpath(os.path.join(d, f), base))
    drop = {'io/Ucvm.cpp', 'models/seismic/Ucvm.cpp', 'models/seismic/Rule.cpp'}
    return sorted(x for x in l if x not in drop and x not in excl)

class Prog:
    """one executable: units is a list of (source, [extra flags])"""
    def __init__(self, name, cxx='g++', opt='-O1', san='none', std='c++11', defs=(), incs=(), flags=(), libs=()):
        self.name, self.cxx, self.san, self.std = name, cxx, san, std
        self.base = ['-std=' + std, '-g1', '-w', opt] + SAN[san] + list(flags)
        self.defs, self.incs, self.libs, self.units = list(defs), list(incs), list(libs), []
        self.ldflags = SAN[san] + [f for f in flags if f.startswith('-fopenmp') or f == '-pthread']
    def add(self, src, flags=(), defs=None, incs=None, cxx=None, drop=()):
        d = self.defs if defs is None else list(defs)
        i = self.incs if incs is None else list(incs)
        self.units.append((src, [f for f in self.base if f not in drop] + ['-D' + x for x in d] + ['-I' + x for x in i] + list(flags), cxx or self.cxx))
        return self

SYS = ['-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/hdf5/serial']
DEFS = ['PP_USE_OMP', 'PP_USE_EASYLOGGING', 'EIGEN_MAX_STATIC_ALIGN_BYTES=0', 'PP_EDGE_VERSION=\\"offline\\"']

def edge_defs(eq, el, order, prec, cfr, mpi=False, hdf5=True, omp=True):
    d = list(DEFS)
    if not omp: d.remove('PP_USE_OMP'); d.append('ELPP_THREAD_SAFE')
    if hdf5: d.append('PP_HAS_HDF5')
    d += ['PP_N_CRUNS=%d' % cfr, 'PP_ORDER=%d' % order, 'PP_PRECISION=%d' % prec, 'PP_T_ELEMENTS_' + el.upper(), 'PP_T_KERNELS_VANILLA']
    if eq.startswith('viscoelastic'):
        d += ['PP_T_EQUATIONS_SEISMIC', 'PP_N_RELAXATION_MECHANISMS=' + eq[len('viscoelastic'):]]
    elif eq == 'elastic':
        d += ['PP_T_EQUATIONS_SEISMIC', 'PP_N_RELAXATION_MECHANISMS=0']
    else:
        d += ['PP_T_EQUATIONS_' + eq.upper()]
    if mpi: d.append('PP_USE_MPI')
    return d

def xsmm_defs(defs, cfr):
    # kernels through the stand-in for LIBXSMM
    return [('PP_T_KERNELS_XSMM_DENSE_SINGLE' if cfr == 1 else 'PP_T_KERNELS_XSMM') if d == 'PP_T_KERNELS_VANILLA' else d for d in defs]

def edge_incs():
    # /verif's stand-ins for the absent submodules come first
    return [STUBS, REPO, REPO + '/src', STUBS + '/inc', '/opt/vp/deps/include']

def edgev_incs():
    return [STUBS, REPO + '/tools/edge_v', REPO + '/tools/edge_v/src', REPO]

def edgev_defs(omp=True):
    d = list(DEFS) + ['PP_USE_METIS']
    if not omp: d.remove('PP_USE_OMP'); d.append('ELPP_THREAD_SAFE')
    return d

def add_easylogging(p):
    p.add('/usr/include/easylogging++.cc', ['-x', 'c++'], defs=['ELPP_NO_DEFAULT_LOG_FILE', 'ELPP_THREAD_SAFE'], incs=[])
    return p

def pre_cpp(el, order, outdir, pre_root=None):
    """converts EDGEpre's csv-data (as the build of EDGE does, with tools/edge_pre/cpp.py) for the given element and order"""
    pre_root = pre_root or os.path.join(VERIF, 'data/edge_pre')
    res = []
    os.makedirs(outdir, exist_ok=True)
    de = order - 1
    jobs = []
    for ty, names in (('dg', ['mass', 'stiffT', 'stiffV', 'fluxL', 'fluxN', 'fluxT']),
                      ('sc', ['svcrds', 'scsv', 'scsfsc', 'sctysf', 'scdgad', 'gather', 'scatter', 'scattersurf', 'sfint'])):
        for n in names:
            csv = '%s/%s/%s/%d/%s_%d_%s.csv' % (pre_root, ty, el, de, el, de, n)
            # sub-cell data of the costliest cases is not part of the generated data
            if ty == 'sc' and not (os.path.exists(csv) and os.path.getsize(csv)): continue
            cpp = '%s/%s.cpp' % (outdir, n)
            cmd = [sys.executable, REPO + '/tools/edge_pre/cpp.py', '-i', csv, '-s', ty, '-n', n]
            if n in ('scsv', 'scsfsc', 'sctysf', 'scdgad'):
                cmd += ['-t', 'unsigned short', '-r', '-1', 'std::numeric_limits< unsigned short >::max()']
            else:
                cmd += ['-t', 'double']
            cmd += ['-o', cpp]
            jobs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')), cmd))
            res.append(cpp)
    for p, cmd in jobs:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError('cpp.py failed: %s\n%s' % (' '.join(cmd), o.decode()))
    return res

def make(progs, outdir, jobs=8, quiet=True):
    """writes build.ninja and builds; returns {name: path}. Raises BuildError"""
    os.makedirs(outdir, exist_ok=True)
    n = ['rule cxx\n  command = $cxx $fl -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n',
         'rule ld\n  command = $cxx -o $out $in $lf\n']
    exe, seen = {}, {}
    for p in progs:
        objs = []
        for src, fl, cxx in p.units:
            fl = list(fl)
            fls = ' '.join(f.replace(' ', '$ ') if False else ("'%s'" % f if any(c in f for c in ' ()<>') else f) for f in fl + SYS)
            key = hashlib.sha1((cxx + src + fls).encode()).hexdigest()[:14]
            o = 'obj/%s_%s.o' % (re.sub(r'[^A-Za-z0-9]', '_', os.path.basename(src)), key)
            if o not in seen:
                seen[o] = 1
                n.append('build %s: cxx %s\n  cxx = %s\n  fl = %s\n' % (o, src.replace('+', '+').replace(' ', '$ '), cxx, fls.replace('$', '$$')))
            objs.append(o)
        n.append('build %s: ld %s\n  cxx = %s\n  lf = %s\n' % (p.name, ' '.join(objs), p.cxx, ' '.join(p.ldflags + p.libs)))
        exe[p.name] = os.path.join(outdir, p.name)
    txt = '\n'.join(n)
    bf = os.path.join(outdir, 'build.ninja')
    if not os.path.exists(bf) or open(bf).read() != txt:
        open(bf, 'w').write(txt)
    nin = lambda *a: subprocess.run(['ninja', '-C', outdir] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r = nin('-j', str(jobs))
    if r.returncode != 0: r = nin('-j', str(jobs), '-k', '0')  # once more, builds whatever can be built
    if r.returncode != 0:
        o = r.stdout.decode(errors='replace')
        e = [l for l in o.split('\n') if re.search(r'error|undefined reference|FAILED', l)]
        e = '\n'.join(e)[:6000] or o[-3000:]
        bad = [n for n in exe if 'no work to do' not in nin('-n', n).stdout.decode(errors='replace')]
        if len(bad) in (0, len(exe)): raise BuildError(e)
        for n in bad: exe[n] = Missing(n, e)
    return exe

def add_gomp(p):
    """OpenMP runtime which ThreadSanitizer understands"""
    p.add(STUBS + '/lib/mini_gomp.cpp', defs=[], incs=[], drop=('-fsanitize=thread', '--param=tsan-distinguish-volatile=1', '-fopenmp'))
    p.ldflags = [f for f in p.ldflags if f != '-fopenmp'] + ['-Wl,--wrap=__tsan_atomic_thread_fence']

def edge_prog(name, eq, el, order, prec, cfr, mpi=False, main=True, san='none', opt='-O1', omp=True, extra=(), hdf5=True, cxx='g++', outdir=OUT, flags=(), excl=(), extradefs=(), hooks=True, xsmm=False):
    """the complete EDGE executable (or its library part for harnesses, if main is False)"""
    fl = ['-fopenmp'] if omp else []
    p = Prog(name, cxx=cxx, opt=opt, san=san, defs=edge_defs(eq, el, order, prec, cfr, mpi, hdf5, omp) + list(extradefs),
             incs=([STUBS + '/mpi'] if mpi else []) + edge_incs(), flags=fl + ['-pthread'] + list(flags))
    if xsmm: p.defs = xsmm_defs(p.defs, cfr); p.incs.insert(0, STUBS + '/xsmm')
    if hooks:
        p.defs.append('PP_USE_HOOKS'); p.incs.append(VERIF + '/hooks')
    ex = {'parallel/Gaspi.cpp'} | set(excl)
    visco = eq.startswith('visco')
    # the setup of the attenuation takes long to compile and is unused by elastic builds: unresolved there
    if not visco and main: ex.add('impl/seismic/setups/ViscoElasticity.cpp'); p.ldflags.append('-Wl,--unresolved-symbols=ignore-all')
    if not mpi: ex.add('parallel/MpiRemix.cpp')
    if not main: ex.add('main.cpp')
    for s in edge_src(ex):
        if s.startswith('impl/seismic') and 'elastic' not in eq: continue
        if s.endswith('/ViscoElasticity.cpp') and san == 'none' and cxx == 'g++':
            # Eigen's decompositions: clang is faster on these
            p.add(REPO + '/src/' + s, ['-O0', '-g0', '-Wno-everything'], cxx='clang++', drop=('-fopenmp', opt, '-g1'))
            continue
        p.add(REPO + '/src/' + s, ['-DVH_SYNC'] if s == 'main.cpp' and hooks else [])
    if hooks: p.add(VERIF + '/hooks/edge_hooks.cpp', defs=[], incs=[])
    p.add(REPO + '/submodules/visit_writer/visit_writer.cpp')
    p.add(REPO + '/submodules/FastGL/fastgl.cpp')
    for c in pre_cpp(el, order, os.path.join(outdir, 'pre_%s_%d' % (el, order))): p.add(c, defs=[], incs=[])
    vdefs, vincs = edgev_defs(omp), edgev_incs()
    for s in edgev_src({'main.cpp'}):
        p.add(REPO + '/tools/edge_v/src/' + s, ['-DPUGIXML_SOURCE'] if s == 'io/Config.cpp' else [], defs=vdefs, incs=vincs)
    p.add(STUBS + '/lib/mini_gmsh.cpp', defs=[], incs=[])
    if san == 'tsan': add_gomp(p)
    if mpi: p.add(STUBS + '/lib/mini_mpi.cpp', defs=[], incs=[STUBS + '/mpi'])
    add_easylogging(p)
    for e in extra: p.add(e)
    p.libs += ['-lpugixml', '-lmetis'] + HDF5 + ['-ldl']
    return p

def edgev_prog(name='edge_v', main=True, san='none', opt='-O1', omp=True, extra=(), gmsh='mini', cxx='g++', flags=(), only=None, incs=()):
    fl = ['-fopenmp'] if omp else []
    p = Prog(name, cxx=cxx, opt=opt, san=san, defs=edgev_defs(omp), incs=list(incs) + edgev_incs(), flags=fl + ['-pthread'] + list(flags))
    for s in edgev_src(set() if main else {'main.cpp'}):
        if only is not None and s not in only: continue
        p.add(REPO + '/tools/edge_v/src/' + s, ['-DPUGIXML_SOURCE'] if s == 'io/Config.cpp' else [])
    if san == 'tsan': add_gomp(p)
    if gmsh == 'mini': p.add(STUBS + '/lib/mini_gmsh.cpp', defs=[], incs=[])
    else: p.libs.append('-lgmsh')
    add_easylogging(p)
    for e in extra: p.add(e)
    p.libs += ['-lpugixml', '-lmetis'] + HDF5 + ['-ldl']
    return p

def edgecut_prog(name='edge_cut', main=True, san='asan', opt='-O1', extra=(), incs=()):
    defs = [d for d in DEFS if d != 'PP_USE_OMP'] + ['ELPP_THREAD_SAFE']
    p = Prog(name, opt=opt, san=san, std='c++11', defs=defs, incs=list(incs) + [STUBS, REPO + '/tools/edge_cut', REPO + '/tools/edge_cut/src', '/opt/vp/deps/include'], flags=['-pthread'])
    for f in ('io/OptionParser.cpp', 'io/Config.cpp', 'mesh/Extrude.cpp') + (('main.cpp',) if main else ()):
        p.add(REPO + '/tools/edge_cut/src/' + f)
    add_easylogging(p)
    for e in extra: p.add(e)
    p.libs += ['-lpugixml', '-ldl']
    return p

def harness_prog(name, src, cfg=('elastic', 'tria3', 2, 64, 1), srcs=(), mpi=False, san='asan', opt='-O1', omp=False, pre=False, extradefs=(), hdf5=False, flags=(), std='c++11', outdir=OUT, libs=(), cxx='g++', incs=(), xsmm=False):
    """a harness of /verif/harness with the listed sources of src/ (cfg: equations, element, order, precision, fused runs)"""
    eq, el, order, prec, cfr = cfg
    p = Prog(name, cxx=cxx, opt=opt, san=san, std=std, defs=edge_defs(eq, el, order, prec, cfr, mpi, hdf5, omp) + list(extradefs),
             incs=list(incs) + ([STUBS + '/mpi'] if mpi else []) + edge_incs() + [VERIF + '/harness'], flags=(['-fopenmp'] if omp else []) + ['-pthread'] + list(flags))
    if xsmm: p.defs = xsmm_defs(p.defs, cfr); p.incs.insert(0, STUBS + '/xsmm')
    p.add(os.path.join(VERIF, 'harness', src))
    for s in srcs: p.add(s if s.startswith('/') else REPO + '/src/' + s)
    p.add(VERIF + '/harness/elinit.cpp', defs=[], incs=[])
    if pre:
        for c in pre_cpp(el, order, os.path.join(outdir, 'pre_%s_%d' % (el, order))): p.add(c, defs=[], incs=[])
    if mpi: p.add(STUBS + '/lib/mini_mpi.cpp', defs=[], incs=[STUBS + '/mpi'])
    add_easylogging(p)
    p.libs += list(libs) + (HDF5 if hdf5 else []) + ['-ldl']
    return p
