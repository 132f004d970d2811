#!/usr/bin/env python3
"""C13: sub-cell resolution: projections, maximum principle, steering, sub-cell solver."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    P = ['data/Dynamic.cpp', 'parallel/global.cpp', vbuild.REPO + '/submodules/FastGL/fastgl.cpp', 'dg/Basis.cpp']
    cf = [('elastic', 'tet4', 2, 64, 1), ('elastic', 'tria3', 3, 64, 1), ('elastic', 'quad4r', 2, 64, 1), ('elastic', 'hex8r', 1, 64, 1), ('elastic', 'tet4', 3, 64, 1)]
    if c.thorough: cf += [('elastic', 'tria3', 4, 64, 1), ('elastic', 'tria3', 2, 32, 1), ('elastic', 'quad4r', 4, 64, 1), ('elastic', 'tet4', 1, 64, 1), ('elastic', 'tria3', 1, 64, 1)]
    nm = lambda k: 'c13_%s_%s_%d_%d_%d' % k
    ex = c.build([vbuild.harness_prog(nm(k), 'c13.cpp', cfg=k, srcs=P, outdir=c.bdir, pre=True) for k in cf])
    def it(k): return c.pick({('tet4', 3): 3, ('tet4', 2): 25}.get((k[1], k[2]), 60), {('tet4', 3): 40, ('tet4', 2): 300}.get((k[1], k[2]), 1000))
    c.parallel([(lambda k=k, i=i: c.harness(ex[nm(k)], [c.seed * 100 + i, it(k)], 'subcell')) for k in cf for i in range(2)], 8)

vh.main(run, 'C13', rule='random modes, sub-cell values, admissibility, neighborhoods, materials and elements, compared with averages of the polynomials and a finite volume scheme on the geometric sub-grid; distinct by precision, fused runs, variant of the kernel, neighborhood and faces')
