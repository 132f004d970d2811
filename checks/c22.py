#!/usr/bin/env python3
"""C22: sparse entity links, layouts, dynamic memory and communication buffers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    ex = c.build([vbuild.harness_prog('c22', 'c22.cpp', srcs=['data/EntityLayout.cpp', 'data/Dynamic.cpp', 'parallel/Distributed.cpp', 'parallel/global.cpp'], outdir=c.bdir)])
    c.parallel([(lambda i=i: c.harness(ex['c22'], [c.seed * 1000 + i, c.pick(400, 8000)], 'c22')) for i in range(c.pick(8, 16))], 8)

vh.main(run, 'C22', rule='random entities, bit masks, adjacencies, layouts and channels under AddressSanitizer/UBSan, compared with brute force; distinct by sizes and masks')
