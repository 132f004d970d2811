#!/usr/bin/env python3
"""C21: material coefficients, Riemann solutions and attenuation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    cf = [('elastic', 'tria3', 2, 64, 1), ('viscoelastic3', 'tet4', 4, 64, 1), ('elastic', 'tet4', 3, 32, 1), ('viscoelastic2', 'quad4r', 3, 64, 1), ('viscoelastic2', 'hex8r', 1, 64, 1)]
    nm = lambda k: 'c21_%s_%s_%d_%d_%d' % k
    S = ['parallel/global.cpp', 'impl/seismic/setups/Elasticity.cpp', 'impl/seismic/setups/ViscoElasticity.cpp']
    ex = c.build([vbuild.harness_prog(nm(k), 'c21.cpp', cfg=k, srcs=S, outdir=c.bdir) for k in cf])
    c.parallel([(lambda k=k, i=i: c.harness(ex[nm(k)], [c.seed * 100 + i, c.pick(300, 20000)], 'seismic')) for k in cf for i in range(3)], 8)

vh.main(run, 'C21', rule='random materials, normals, states, quality factors, frequencies and pairs of elements with boundary conditions, compared with characteristic solutions and complex moduli; distinct by dimension, impedance ratio, boundary condition, number of mechanisms and frequency ratio')
