#!/usr/bin/env python3
"""C14: topology and geometry of EDGE-V's meshes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    h = os.path.join(vbuild.VERIF, 'harness', 'c14.cpp')
    ps = []
    for nm, gm in (('c14_mini', 'mini'), ('c14_gmsh', 'real')):
        p = vbuild.edgev_prog(nm, main=False, san='asan' if gm == 'mini' else 'none', omp=True, gmsh=gm, extra=(h, os.path.join(vbuild.VERIF, 'harness', 'elinit.cpp')), incs=[vbuild.VERIF + '/harness'])
        ps.append(p)
    ex = c.build(ps)
    env = {'OMP_WAIT_POLICY': 'passive', 'OMP_NUM_THREADS': '3'}
    def job(nm, i):
        d = os.path.join(c.wdir, '%s_%d' % (nm, i)); os.makedirs(d)
        c.harness(ex[nm], [c.seed * 1000 + i + (500 if nm == 'c14_gmsh' else 0), c.pick(300, 6000), d, int(nm == 'c14_gmsh')], 'mesh', env=env)
    c.parallel([(lambda n=n, i=i: job(n, i)) for i in range(c.pick(6, 8)) for n in (('c14_mini', 'c14_gmsh') if i < 3 else ('c14_mini',))], 8)

vh.main(run, 'C14', rule='random meshes (grading, holes, permuted and reversed numbering, boundary groups, periodic directions), distinct by element type, size, periodicity, orientation of adjacent faces')
