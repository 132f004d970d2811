#!/usr/bin/env python3
"""C20: geometry, reference mappings, quadrature, basis."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    P = ['parallel/Distributed.cpp', 'parallel/global.cpp', 'data/Dynamic.cpp', vbuild.REPO + '/submodules/FastGL/fastgl.cpp']
    progs = [vbuild.harness_prog('c20a', 'c20a.cpp', cfg=('elastic', 'tet4', 2, 64, 1), srcs=P, outdir=c.bdir)]
    els = [('line', 3), ('quad4r', 2), ('quad4r', 4), ('tria3', 3), ('tria3', 4), ('hex8r', 2), ('hex8r', 3), ('tet4', 3), ('tet4', 4)]
    if c.thorough: els += [('line', 1), ('line', 2), ('line', 4), ('quad4r', 1), ('quad4r', 3), ('tria3', 1), ('tria3', 2), ('hex8r', 1), ('tet4', 1), ('tet4', 2)]
    for el, o in els:
        progs.append(vbuild.harness_prog('c20b_%s_%d' % (el, o), 'c20b.cpp', cfg=('advection', el, o, 32 if (el, o) == ('tria3', 4) else 64, 1), srcs=P + ['dg/Basis.cpp'], outdir=c.bdir, pre=True))
    progs.append(vbuild.harness_prog('c20c', 'c20c.cpp', cfg=('advection', 'tet4', 2, 64, 1), srcs=P + ['dg/Basis.cpp'], outdir=c.bdir, pre=True))
    ex = c.build(progs)
    c.parallel([(lambda e=e: c.harness(ex['c20b_%s_%d' % e], [c.seed, c.pick(30, 400)], 'c20b_%s_%d' % e)) for e in els], 8)
    c.parallel([(lambda i=i: c.harness(ex['c20c'], [c.seed * 100 + i, 1], 'c20c')) for i in range(c.pick(1, 8))], 8)
    c.parallel([(lambda i=i: c.harness(ex['c20a'], [c.seed * 1000 + i, c.pick(1500, 40000)], 'c20a')) for i in range(8)], 8)

vh.main(run, 'C20', rule='random elements, points, polynomials, series and half-spaces, compared with independent formulas; distinct by function, element type, order, degree and position of the interval')
