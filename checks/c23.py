#!/usr/bin/env python3
"""C23: configuration, sparse types, wave field output and error norms."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild, vacc

HC = [('elastic', 'tria3', 2, 64, 3), ('viscoelastic3', 'tet4', 2, 32, 2), ('elastic', 'hex8r', 2, 64, 1)]
OC = [('elastic', 'tria3', 3, 2), ('viscoelastic3', 'tet4', 2, 1), ('advection', 'quad4r', 2, 3), ('elastic', 'hex8r', 2, 1), ('swe', 'quad4r', 1, 2), ('advection', 'tet4', 3, 1)]
P = ['io/Config.cpp', 'impl/seismic/io/Config.cpp', 'parallel/global.cpp']

def run(c):
    nm = lambda k: 'c23_%s_%s_%d' % k[:3]
    ps = [vbuild.harness_prog(nm(k), 'c23.cpp', cfg=k, srcs=P, outdir=c.bdir, hdf5=True, libs=['-lpugixml']) for k in HC]
    en = lambda k: 'e_%s_%s_%d_%d' % k
    ps += [vbuild.edgev_prog('edge_v')] + [vbuild.edge_prog(en(k), k[0], k[1], k[2], 64, k[3], mpi=i < 3, outdir=c.bdir) for i, k in enumerate(OC)]
    ex = c.build(ps); jobs = []
    def hj(k, i):
        d = os.path.join(c.wdir, 'h%s%d' % (nm(k), i)); os.makedirs(d)
        c.harness(ex[nm(k)], [c.seed * 100 + i, c.pick(600, 20000), d], 'config/' + nm(k)[4:])
    jobs += [(lambda k=k, i=i: hj(k, i)) for k in HC for i in range(2)]
    for i, k in enumerate(OC):
        for n in range(c.pick(14, 120)):
            tag = '%s_%s_%d' % (k[0], k[1], n); rnd = c.sub('o', tag)
            jobs.append(lambda k=k, tag=tag, r=rnd.choice([1, 2, 3]) if i < 3 else 1, t=rnd.choice([1, 1, 3]): vacc.output(c.view(tag), (ex[en(k)], ex['edge_v']), k[0], k[1], k[2], k[3], tag, '%s/%s' % k[:2], r, t))
    c.parallel(jobs, 6)

vh.main(run, 'C23', rule='random configurations, domains, output intervals, types and reference solutions; distinct by configuration, mesh, interval, selection, kind of output and ranks')
