#!/usr/bin/env python3
"""C17: files and complete runs of EDGE-V."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    h = os.path.join(vbuild.VERIF, 'harness', 'c17.cpp')
    ps = [vbuild.edgev_prog('c17', main=False, san='asan', omp=True, extra=(h, os.path.join(vbuild.VERIF, 'harness', 'elinit.cpp')), incs=[vbuild.VERIF + '/harness']),
          vbuild.edgev_prog('edge_v_asan', main=True, san='asan', omp=True)]
    ex = c.build(ps)
    env = {'OMP_WAIT_POLICY': 'passive', 'OMP_NUM_THREADS': '2'}
    def job(i):
        d = os.path.join(c.wdir, 'j%d' % i); os.makedirs(d)
        c.harness(ex['c17'], [c.seed * 1000 + i, c.pick(150, 2000), c.pick(120, 2500), d, ex['edge_v_asan']], 'files', env=env)
    c.parallel([(lambda i=i: job(i)) for i in range(8)], 8)

vh.main(run, 'C17', rule='random datasets, tables, background meshes and configurations; complete runs distinct by element type, periodicity, partitions, groups, velocity model and options')
