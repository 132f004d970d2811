#!/usr/bin/env python3
"""C16: time steps, time groups, velocity models and refinement of EDGE-V."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    h = os.path.join(vbuild.VERIF, 'harness', 'c16.cpp')
    ps = [vbuild.edgev_prog('c16', main=False, san='asan', omp=True, extra=(h, os.path.join(vbuild.VERIF, 'harness', 'elinit.cpp'), vbuild.REPO + '/tools/edge_v/src/models/seismic/Rule.cpp'), incs=[vbuild.VERIF + '/harness'])]
    ex = c.build(ps)
    env = {'OMP_WAIT_POLICY': 'passive', 'OMP_NUM_THREADS': '3'}
    def job(i):
        d = os.path.join(c.wdir, 'j%d' % i); os.makedirs(d)
        c.harness(ex['c16'], [c.seed * 1000 + i, c.pick(1500, 40000), d], 'time', env=env)
    c.parallel([(lambda i=i: job(i)) for i in range(8)], 8)

vh.main(run, 'C16', rule='random adjacencies, time steps, rates and fundamental time steps; random vertex velocities, expressions and grids; distinct by element type, number of rates and normalization')
