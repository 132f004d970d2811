#!/usr/bin/env python3
"""C05: memory safety and defined behavior of complete runs: AddressSanitizer, UndefinedBehaviorSanitizer and memcheck."""
import os, sys, re, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild, vsim, vrun, vsrc, vacc

# equations, element, order, precision, fused runs, runs
ASAN = [('elastic', 'tet4', 3, 32, 1, 3), ('viscoelastic2', 'tria3', 3, 64, 3, 3), ('elastic', 'hex8r', 2, 64, 2, 3), ('advection', 'quad4r', 4, 32, 4, 3), ('swe', 'tria3', 1, 64, 2, 3)]
MEMC = [('viscoelastic3', 'tet4', 2, 64, 1, 1), ('elastic', 'quad4r', 3, 64, 2, 1), ('advection', 'tria3', 3, 64, 1, 1), ('swe', 'quad4r', 1, 64, 1, 1)]
TH_A = [('elastic', 'tria3', 6, 64, 1, 6), ('viscoelastic1', 'hex8r', 3, 32, 1, 4), ('advection', 'tet4', 4, 64, 8, 4), ('viscoelastic3', 'quad4r', 4, 64, 1, 4), ('elastic', 'tet4', 1, 64, 16, 4)]
TH_M = [('elastic', 'tet4', 4, 32, 1, 2), ('elastic', 'hex8r', 3, 64, 1, 2), ('viscoelastic2', 'tria3', 4, 64, 2, 3)]
name = lambda p, x: '%s_%s_%s_%d_%d_%d' % ((p,) + x[:5])

VG = ['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', '--track-origins=no', '--num-callers=12', '--suppressions=' + vh.VERIF + '/lib/memcheck.supp']

def report(rc, o):
    """what a monitor reported, or None"""
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n ]*: runtime error: [^\n]*)', o)
    if m:
        fr = re.findall(r'#\d+ \S+ in ([^\n]*)', o)
        own = [f for f in fr if '/repo/' in f or 'edge' in f]
        return m.group(1) + (' in ' + (own or fr)[0] if fr else '')
    if rc == 97 or re.search(r'==\d+== (Invalid|Conditional|Use of|Syscall|Mismatched|Source and)', o):
        l = [re.sub(r'^==\d+== ?', '', x) for x in o.split('\n') if x.startswith('==')]
        return 'memcheck: ' + ' | '.join(l[:8])
    if rc is None: return 'no progress within the time limit'
    if rc != 0: return vh.crash_text(rc, o)
    return None

def key(t):
    return re.sub(r'0x[0-9a-f]+|==\d+==|\d+', '#', t)[:60]

def scenario(c, ex, cfg, k, mem):
    eq, el, order, prec, cfr, _ = cfg
    rnd = c.rnd; kd = 'memcheck' if mem else 'asan'
    nels = (rnd.choice([24, 40]) if mem else rnd.choice([40, 100, 160])) * (2 if el == 'tet4' else 1)
    s = vsim.gen(rnd, eq, el, order, cfr, nels=nels, groups=1 if eq == 'swe' else None, steps=6 if mem else rnd.choice([4, 12, 20]))
    wd = os.path.join(c.wdir, '%s_%s_%s_%d_%d' % (kd, eq, el, order, k)); os.makedirs(wd)
    ranks, threads = (1, 1) if mem or eq == 'swe' else rnd.choice([(1, 1), (1, 4), (2, 2), (3, 1), (2, 1)])
    if eq == 'swe' and not mem: threads = rnd.choice([1, 4])
    if k == 1 and not mem and eq != 'swe': ranks, threads = 2, 2
    kw = {}
    if eq not in ('advection', 'swe'):
        rv = [('r%d' % i,) + tuple(([l + (h - l) * rnd.choice([rnd.uniform(-0.1, 1.1), 0.0, 1.0, rnd.random()]) for l, h in zip(s['lo'], s['hi'])] + [0.0])[:3]) for i in range(rnd.choice([1, 4, 9]))]
        kw['recv'] = (s['end'] / rnd.choice([2.3, 11.7, 60.1]), rv)
        if rnd.random() < 0.7:
            kw['srcs'] = [vsrc.write_random(ex['mksrc'], wd + '/src%d.h5' % i, rnd, s, rnd.choice([1, 5])) for i in range(cfr)]
    if rnd.random() < 0.8:
        kw['wf'] = (rnd.choice(['vtk_ascii', 'vtk_binary']), wd + '/wf/w', s['end'] / rnd.choice([1.7, 3.3])) + ((1 << 17,) if rnd.random() < 0.5 else ())
        o = [l + (h - l) * 0.4 for l, h in zip(s['lo'], s['hi'])] + [0.0]
        kw['sptypes'] = '<sparse_types><elements><domain><half_space><origin><x>%r</x><y>%r</y><z>%r</z></origin><normal><x>1</x><y>0.5</y><z>0</z></normal></half_space><type>%d</type></domain></elements></sparse_types>' % (tuple(o[:3]) + (1 << 17,))
    nq = {'advection': 1, 'swe': s['dim'] + 1}.get(eq, 5 if s['dim'] == 2 else 9)
    if eq != 'swe' and rnd.random() < 0.7: kw['err'] = ('sout_file', wd + '/err.xml', [''.join('q[%d]:=%r*x;' % (q, rnd.uniform(-1, 1)) for q in range(nq)) for _ in range(cfr)])
    rec = dict(vsim.describe(s), monitor=kd, ranks=ranks, threads=threads, receivers=len(kw['recv'][1]) if 'recv' in kw else 0, sources='srcs' in kw, wave_field='wf' in kw, norms='err' in kw)
    rc, o, b = vsim.prepare(ex['edge_v' if mem else 'edge_v_asan'], s, wd, ranks, threads=1 if mem else 3)
    t = report(rc, o)
    if t: c.violation('edge_v/' + key(t), 'EDGE-V: ' + t, rec, [wd]); return
    exe = ex[name('m' if mem else 'a', cfg)]
    if mem:
        sh = wd + '/vg.sh'; open(sh, 'w').write('#!/bin/sh\nexec %s %s "$@"\n' % (' '.join(VG), exe)); os.chmod(sh, 0o755); exe = sh
    rcs, outs, d = vsim.simulate(exe, s, wd, b, 'run', ranks, threads, seed=rnd.randrange(1 << 20), mdelay=rnd.choice([0, 30]), wdelay=0 if mem else rnd.choice([0, 20]), limit=250, **kw)
    ts = [t for t in (report(r, o) for r, o in zip(rcs, outs)) if t]
    if ts:
        ts.sort(key=lambda t: t.startswith('no progress')); c.violation('%s/%s/%s' % (eq, el, key(ts[0])), '%s: %s' % (kd, ts[0]), rec, [wd]); return
    n = sum(os.path.getsize(f) for f in glob.glob(d + '/dump*'))
    c.observe('checked_output_bytes', n); c.observe(kd + '_runs', ranks); c.observe('updates_under_' + kd, (vacc.updates(outs[0]) or 0) * s['nels'])
    c.case([kd, eq, el, order, k], sample=rec)

def edgev_mem(c, ex, k):
    """EDGE-V below memcheck: time steps, groups, partitions, annotations"""
    rnd = c.rnd; el = ['tria3', 'tet4', 'quad4r', 'hex8r'][k % 4]
    s = vsim.gen(rnd, 'elastic', el, 2, 1, nels=40, groups=rnd.choice([2, 3]))
    wd = os.path.join(c.wdir, 'evm_%d' % k); os.makedirs(wd)
    import vmesh
    vmesh.write(s['mesh'], wd + '/in.msh')
    vrun.edge_v_xml(wd + '/v.xml', wd + '/in.msh', wd + '/out', n_parts=rnd.choice([1, 2, 3]), n_groups=s['groups'], fdt=s['fdt'], periodic=vsim.PER if any(s['per']) else None, seismic=vsim.vel_expr(s), annot=True, dts=wd + '/dt.csv', cbased=rnd.choice([None, True, False]))
    rc, o = vrun.run(VG + [ex['edge_v'], '-x', wd + '/v.xml'], cwd=wd, limit=250)
    t = report(rc, o)
    if t: c.violation('edge_v/memcheck/' + key(t), 'EDGE-V, %s: %s' % (el, t), vsim.describe(s), [wd]); return
    c.observe('memcheck_runs'); c.case(['edge_v', el, k], sample=dict(vsim.describe(s), monitor='memcheck'))

def run(c):
    A, M = (ASAN + TH_A, MEMC + TH_M) if c.thorough else (ASAN, MEMC)
    progs = [vbuild.edgev_prog('edge_v'), vbuild.edgev_prog('edge_v_asan', san='asan'), vsrc.prog()]
    progs += [vbuild.edge_prog(name('a', x), *x[:5], mpi=True, san='asan', outdir=c.bdir) for x in A] + [vbuild.edge_prog(name('m', x), *x[:5], mpi=True, outdir=c.bdir) for x in M]
    ex = c.build(progs)
    jobs = [lambda v=c.view('m', x, k), x=x, k=k: scenario(v, ex, x, k, True) for x in M for k in range(x[5])]
    jobs += [lambda v=c.view('v', k), k=k: edgev_mem(v, ex, k) for k in range(c.pick(4, 16))]
    jobs += [lambda v=c.view('a', x, k), x=x, k=k: scenario(v, ex, x, k, False) for x in A for k in range(x[5] * c.pick(1, 3))]
    c.parallel(jobs, 6)

vh.main(run, 'C05', rule='complete runs of EDGE-V and EDGE (receivers, sources, wave fields, error norms, ranks, threads) below AddressSanitizer, UndefinedBehaviorSanitizer and memcheck; distinct by configuration and scenario',
        assumptions=['libraries outside of the repository are not instrumented', 'memory which is still allocated at the end of a run is not judged'])
