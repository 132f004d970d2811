#!/usr/bin/env python3
"""C10: friction laws, internal boundaries and set up of ruptures."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def scratch(c, n):
    d = os.path.join(c.wdir, n); os.makedirs(d, exist_ok=True); return d

def run(c):
    P = ['data/Dynamic.cpp', 'parallel/global.cpp']
    cf = [('elastic', 'tet4', 2, 64, 1), ('elastic', 'tria3', 3, 64, 1), ('elastic', 'quad4r', 2, 64, 1), ('elastic', 'hex8r', 1, 64, 1)]
    if c.thorough: cf += [('elastic', 'tria3', 1, 64, 1), ('elastic', 'tet4', 3, 64, 1)]
    ci = [('elastic', 'tet4', 2, 64, 1), ('elastic', 'tria3', 3, 64, 1), ('elastic', 'quad4r', 2, 64, 1), ('elastic', 'hex8r', 1, 64, 1)]
    if c.thorough: ci += [('elastic', 'tria3', 1, 64, 1), ('elastic', 'tet4', 3, 64, 1), ('elastic', 'hex8r', 2, 64, 1), ('elastic', 'quad4r', 4, 64, 1)]
    nm = lambda k: 'c10_%s_%s_%d_%d_%d' % k
    ex = c.build([vbuild.harness_prog(nm(k), 'c10.cpp', cfg=k, srcs=P, outdir=c.bdir) for k in cf] + [vbuild.harness_prog('io'+nm(k), 'c10io.cpp', cfg=k, srcs=P + [vbuild.REPO + '/submodules/visit_writer/visit_writer.cpp', 'dg/Basis.cpp', vbuild.REPO + '/submodules/FastGL/fastgl.cpp'], outdir=c.bdir, pre=True) for k in ci])
    c.parallel([(lambda k=k, i=i: c.harness(ex[nm(k)], [c.seed * 100 + i, c.pick(150, 5000)], 'friction')) for k in cf for i in range(2)] +
               [(lambda k=k: c.harness(ex['io'+nm(k)], [c.seed * 100, c.pick(60, 1500)], 'fault-files', cwd=scratch(c, nm(k)))) for k in ci], 8)

vh.main(run, 'C10', rule='random materials, faces, coordinate systems, histories of friction and elastic states, compared with the exact frictional contact of two elastic half-spaces; distinct by precision, failure, weakening, sides and directions')
