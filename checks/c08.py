#!/usr/bin/env python3
"""C08: simulations with global time steps reproduce exact solutions, conserve and keep symmetries."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild, vacc

# equations, element, order, fused runs, largest number of updates; 'x': kernels of LIBXSMM
CONFIGS = [('elastic', 'tria3', 4, 1, 6), ('elastic', 'tet4', 3, 1, 4), ('elastic', 'quad4r', 3, 2, 4), ('elastic', 'hex8r', 2, 1, 3), ('advection', 'tria3', 3, 2, 5), ('advection', 'hex8r', 3, 1, 3), ('elastic', 'tet4', 2, 1, 4, 'x'), ('elastic', 'tria3', 3, 2, 5, 'x')]
SWE = [('tria3', 2), ('quad4r', 1)]

def run(c):
    ps = [vbuild.edgev_prog('edge_v')] + [vbuild.edge_prog('e_%s_%s_%d_%d' % x[:4], x[0], x[1], x[2], 64, x[3], outdir=c.bdir, xsmm=x[5:] == ('x',)) for x in CONFIGS]
    ps += [vacc.grid_prog()] + [vbuild.edge_prog('e_swe_%s_%d' % x, 'swe', x[0], 1, 64, x[1], outdir=c.bdir) for x in SWE]
    ex = c.build(ps)
    jobs = []
    for eq, el, order, cfr, mu, *xs in CONFIGS:
        e = (ex['e_%s_%s_%d_%d' % (eq, el, order, cfr)], ex['edge_v']); n = '%s/%s' % (eq, el); t = '%s_%s_%s' % (eq, el, 'x' if xs else '')
        for k in range(c.pick(2 if xs else 4, 30)):
            # every scenario has its own random numbers
            def add(f, nm, *a, **kw): jobs.append((f, e, nm, a, dict(kw, tag=t + nm + str(k), key=n + '/' + nm)))
            add(vacc.poly, 'poly', eq, el, order, cfr, 1, mu)
            if eq == 'elastic':
                add(vacc.layered, 'layered', el, order, cfr, 1, mu)
                add(vacc.surface, 'surface', el, order, cfr, 1, mu)
                if k % 2 == 0: add(vacc.conserve, 'walls', eq, el, order, cfr, 1, walls=True)
            if k % 2 == 0:
                add(vacc.conserve, 'conserve', eq, el, order, cfr, 1)
                add(vacc.shift, 'shift', eq, el, order, cfr)
    for el, cfr in SWE:
        for kind in ('rest', 'stream', 'mass', 'tsunami'):
            for k in range(c.pick(3, 40)): jobs.append((vacc.swe, (ex['e_swe_%s_%d' % (el, cfr)], ex['edge_v'], ex['mkgrid']), 'swe', (el, cfr, kind), dict(tag='swe_%s_%s%d' % (el, kind, k), key='swe/' + el)))
    def one(i, f, e, nm, a, kw):
        f(c.view(kw['tag']), e, *a, **kw)
    c.parallel([(lambda i=i, j=j: one(i, *j)) for i, j in enumerate(jobs)], 8)

vh.main(run, 'C08', rule='random meshes, materials, boundaries, initial values and end times; distinct by scenario, mesh, groups and number of updates')
