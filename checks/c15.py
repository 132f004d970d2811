#!/usr/bin/env python3
"""C15: partitioning, reordering and communication structure of EDGE-V."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    h = os.path.join(vbuild.VERIF, 'harness', 'c15.cpp')
    ps = []
    for nm, gm in (('c15_mini', 'mini'), ('c15_gmsh', 'real')):
        p = vbuild.edgev_prog(nm, main=False, san='asan' if gm == 'mini' else 'none', omp=True, gmsh=gm, extra=(h, os.path.join(vbuild.VERIF, 'harness', 'elinit.cpp')), incs=[vbuild.VERIF + '/harness'])
        ps.append(p)
    ex = c.build(ps)
    env = {'OMP_WAIT_POLICY': 'passive', 'OMP_NUM_THREADS': '3'}
    def job(nm, i):
        d = os.path.join(c.wdir, '%s_%d' % (nm, i)); os.makedirs(d)
        c.harness(ex[nm], [c.seed * 1000 + i + (500 if nm == 'c15_gmsh' else 0), c.pick(200, 5000), d], 'comm', env=env)
    c.parallel([(lambda n=n, i=i: job(n, i)) for i in range(c.pick(6, 8)) for n in (('c15_mini', 'c15_gmsh') if i < 3 else ('c15_mini',))], 8)

vh.main(run, 'C15', rule='random meshes with partitions of Metis and random partitions and time groups, distinct by element type, number of partitions, channels and time groups')
