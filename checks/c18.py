#!/usr/bin/env python3
"""C18: surface meshes of EDGEcut."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    h = os.path.join(vbuild.VERIF, 'harness', 'c18.cpp')
    ex = c.build([vbuild.edgecut_prog('c18', main=False, extra=(h,), incs=[vbuild.VERIF + '/harness']), vbuild.edgecut_prog('edge_cut_asan')])
    def job(i):
        d = os.path.join(c.wdir, 'j%d' % i); os.makedirs(d)
        c.harness(ex["c18"], [c.seed * 1000 + i, c.pick(60, 1500), c.pick(12, 250), d, ex['edge_cut_asan']], "extrude", limit=c.pick(60, 800))
    c.parallel([(lambda i=i: job(i)) for i in range(8)], 8)

vh.main(run, 'C18', rule='random grids, distinct by levels, numbers of coarse cells, steps in depth and way of running')
