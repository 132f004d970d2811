#!/usr/bin/env python3
"""C06: local time stepping gives exact solutions across all combinations of time groups and conserves."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild, vacc

# equations, element, order, fused runs, largest number of updates of the smallest time step
CONFIGS = [('elastic', 'tria3', 4, 1, 12), ('elastic', 'tet4', 3, 1, 8), ('elastic', 'tria3', 2, 4, 12), ('elastic', 'hex8r', 2, 1, 4), ('advection', 'quad4r', 3, 1, 8), ('advection', 'tet4', 2, 2, 8)]

def run(c):
    ps = [vbuild.edgev_prog('edge_v')] + [vbuild.edge_prog('e_%s_%s_%d_%d' % x[:4], x[0], x[1], x[2], 64, x[3], mpi=i < 2, outdir=c.bdir) for i, x in enumerate(CONFIGS)]
    ex = c.build(ps)
    jobs = []
    for i, (eq, el, order, cfr, mu) in enumerate(CONFIGS):
        e = (ex['e_%s_%s_%d_%d' % (eq, el, order, cfr)], ex['edge_v']); n = '%s/%s' % (eq, el); t = '%s_%s_%d_' % (eq, el, order)
        for k in range(c.pick(4, 30)):
            rnd = c.sub(t, k)
            def add(f, nm, *a, **kw):
                g = rnd.choice([2, 2, 3, 4] if mu > 8 else [2, 2, 3] if mu > 4 else [2])
                jobs.append((f, e, nm, list(a) + [g] + ([mu] if f not in (vacc.conserve,) else []), dict(kw, tag=t + nm + str(k), key=n + '/' + nm, ranks=rnd.choice([1, 1, 2, 3]) if i < 2 else 1, threads=rnd.choice([1, 1, 2]))))
            add(vacc.poly, 'poly', eq, el, order, cfr)
            if eq == 'elastic':
                add(vacc.layered, 'layered', el, order, cfr)
                add(vacc.surface, 'surface', el, order, cfr)
            add(vacc.conserve, 'conserve', eq, el, order, cfr)
    def one(f, e, nm, a, kw):
        f(c.view(kw['tag']), e, *a, **kw)
    c.parallel([(lambda j=j: one(*j)) for j in jobs], 6)

vh.main(run, 'C06', rule='random graded meshes with two to four time groups, materials, boundaries, end times; distinct by scenario, mesh, groups and number of updates')
