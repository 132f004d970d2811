#!/usr/bin/env python3
"""C03: work packages tile the regions, shares follow the measured throughput, packages are handed out exactly once by priority."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    ex = c.build([vbuild.harness_prog('c03', 'c03.cpp', srcs=['parallel/LoadBalancing.cpp', 'parallel/Shared.cpp', 'parallel/global.cpp'], omp=True, outdir=c.bdir)])
    k = c.pick(6, 16)
    c.parallel([(lambda i=i: c.harness(ex['c03'], [c.seed * 1000 + i, c.pick(300, 6000)], 'c03', env={'OMP_WAIT_POLICY': 'passive'})) for i in range(k)], 4)

vh.main(run, 'C03', rule='random regions, workers, priorities and measured times (the wall clock is simulated); distinct by workers, regions, kind of measurement',
        assumptions=['the balancing measures time by gettimeofday or clock_gettime'])
