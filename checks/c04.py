#!/usr/bin/env python3
"""C04: freedom of data races of threads: ThreadSanitizer on complete runs."""
import os, sys, re, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild, vsim, vrun, vsrc, vacc, vmesh

# equations, element, order, precision, fused runs, runs
CFG = [('elastic', 'tria3', 2, 64, 1, 7), ('viscoelastic2', 'tet4', 2, 32, 1, 4), ('advection', 'quad4r', 2, 64, 2, 4), ('swe', 'tria3', 1, 64, 1, 3)]
TH = [('elastic', 'hex8r', 3, 64, 1, 4), ('elastic', 'tet4', 3, 64, 2, 4), ('advection', 'tet4', 3, 64, 1, 4), ('viscoelastic3', 'quad4r', 3, 64, 1, 4)]
name = lambda x: 't_%s_%s_%d_%d_%d' % x[:5]

def report(rc, o):
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', o)
    if m:
        b = o[m.start():].split('==================')[0]
        # innermost frames of the repository of the two accesses
        st = re.split(r'\n\n', b); fr = []
        for x in st[:2]:
            f = [l.strip() for l in x.split('\n') if re.match(r'\s+#\d+ ', l)]
            own = [l for l in f if vbuild.REPO + '/' in l] or f
            if own: fr.append(re.sub(r'\(BuildId.*', '', re.sub(r'^#\d+ ', '', own[0])))
        return m.group(1).strip() + ': ' + ' <-> '.join(fr), [re.sub(r'.*?([^/ ]+):\d+\)?$', r'\1', re.sub(r':\d+ *$', '', f.split(' (')[0].strip())) for f in fr]
    if rc is None: return 'no progress within the time limit', ['time']
    if rc != 0: return vh.crash_text(rc, o), ['abnormal']
    return None

ENV = {'TSAN_OPTIONS': 'exitcode=98:halt_on_error=0:report_thread_leaks=0:history_size=4:second_deadlock_stack=0'}

def scenario(c, ex, cfg, k):
    eq, el, order, prec, cfr, _ = cfg
    # many receivers, whose buffers are written while other time groups advance
    rnd = c.rnd; many = k % 3 == 0 and eq not in ('advection', 'swe')
    s = vsim.gen(rnd, eq, el, order, cfr, nels=rnd.choice([60, 120, 200]) * (2 if el == 'tet4' else 1), groups=1 if eq == 'swe' else 3 if many else rnd.choice([1, 2, 3, 4, 4]), steps=48 if many else rnd.choice([8, 16, 24]), grade=[6] * 3 if k % 2 or many else None)
    wd = os.path.join(c.wdir, '%s_%s_%d_%d' % (eq, el, order, k)); os.makedirs(wd)
    ranks, threads = (1, rnd.choice([3, 4, 6])) if eq == 'swe' or rnd.random() < 0.6 else rnd.choice([(2, 3), (2, 2), (3, 2)])
    kw = {}
    if eq not in ('advection', 'swe'):
        rv = [('r%d' % i,) + tuple(([l + (h - l) * rnd.uniform(0, 1) for l, h in zip(s['lo'], s['hi'])] + [0.0])[:3]) for i in range(30 if many else rnd.choice([6, 14]))]
        kw['recv'] = (s['dt'] * 2 ** (s['groups'] - 1) / (40.3 if many else rnd.choice([0.3, 3.3, 20.7])), rv)
        if rnd.random() < 0.7: kw['srcs'] = [vsrc.write_random(ex['mksrc'], wd + '/src%d.h5' % i, rnd, s, 5) for i in range(cfr)]
    if rnd.random() < 0.5: kw['wf'] = ('vtk_binary', wd + '/wf/w', s['end'] / 2.3)
    nq = {'advection': 1, 'swe': s['dim'] + 1}.get(eq, 5 if s['dim'] == 2 else 9)
    if eq != 'swe' and rnd.random() < 0.5: kw['err'] = ('file', wd + '/err.xml', [''.join('q[%d]:=%r*x;' % (q, rnd.uniform(-1, 1)) for q in range(nq)) for _ in range(cfr)])
    wdl, sep = rnd.choice([0, 20, 60]), rnd.choice([None, 0])
    rec = dict(vsim.describe(s), ranks=ranks, threads=threads, delay=wdl, separate_workers=sep, receivers='recv' in kw, sources='srcs' in kw)
    rc, o, b = vsim.prepare(ex['edge_v'], s, wd, ranks)
    if rc != 0: c.violation('edge_v', 'EDGE-V: ' + vh.crash_text(rc, o), rec, [wd]); return
    rcs, outs, d = vsim.simulate(ex[name(cfg)], s, wd, b, 'run', ranks, threads, seed=rnd.randrange(1 << 20), mdelay=rnd.choice([0, 30]), wdelay=wdl, sep=sep, dump=False, env=ENV, limit=250, **kw)
    ts = [t for t in (report(r, o) for r, o in zip(rcs, outs)) if t]
    if ts:
        ts.sort(key=lambda t: t[1] == ['time']); open(wd + '/report.txt', 'w').write('\n'.join(outs))
        c.violation('%s/%s' % (eq, '/'.join(ts[0][1])), ts[0][0], rec, [wd]); return
    c.observe('runs', ranks); c.observe('threads', ranks * threads); c.observe('updates_monitored', (vacc.updates(outs[0]) or 0) * s['nels'])
    c.case([eq, el, order, k], sample=rec)

def edgev(c, ex, k):
    rnd = c.rnd; el = ['tria3', 'tet4', 'quad4r', 'hex8r'][k % 4]; th = rnd.choice([2, 3, 5, 8])
    s = vsim.gen(rnd, 'elastic', el, 2, 1, nels=rnd.choice([60, 200, 500]), groups=rnd.choice([2, 3]))
    wd = os.path.join(c.wdir, 'ev_%d' % k); os.makedirs(wd)
    vmesh.write(s['mesh'], wd + '/in.msh')
    vrun.edge_v_xml(wd + '/v.xml', wd + '/in.msh', wd + '/out', n_parts=rnd.choice([1, 2, 3]), n_groups=s['groups'], fdt=s['fdt'], periodic=vsim.PER if any(s['per']) else None, seismic=vsim.vel_expr(s), annot=True, dts=wd + '/dt.csv', cbased=rnd.choice([None, True, False]))
    rc, o = vrun.run([ex['edge_v_tsan'], '-x', wd + '/v.xml'], cwd=wd, limit=250, env=dict(ENV, OMP_NUM_THREADS=str(th)))
    t = report(rc, o); rec = dict(vsim.describe(s), threads=th)
    if t: open(wd + '/report.txt', 'w').write(o); c.violation('edge_v/' + '/'.join(t[1]), 'EDGE-V, %s: %s' % (el, t[0]), rec, [wd]); return
    c.observe('edge_v_runs'); c.case(['edge_v', el, k], sample=rec)

def run(c):
    F = CFG + TH if c.thorough else CFG
    progs = [vbuild.edgev_prog('edge_v'), vbuild.edgev_prog('edge_v_tsan', san='tsan'), vsrc.prog()] + [vbuild.edge_prog(name(x), *x[:5], mpi=True, san='tsan', outdir=c.bdir) for x in F]
    ex = c.build(progs)
    jobs = [lambda v=c.view('s', x, k), x=x, k=k: scenario(v, ex, x, k) for x in F for k in range(x[5] * c.pick(1, 5))]
    jobs += [lambda v=c.view('v', k), k=k: edgev(v, ex, k) for k in range(c.pick(8, 40))]
    c.parallel(jobs, 3)

vh.main(run, 'C04', rule='complete runs of EDGE and EDGE-V with several threads (and ranks) below ThreadSanitizer with injected delays; distinct by configuration and scenario',
        assumptions=['volatile accesses hand over data between threads, as EDGE\'s scheduler assumes', 'libraries outside of the repository are not instrumented'])
