#!/usr/bin/env python3
"""C09: shallow water solver: conservation, well-balancedness, dry elements, boundaries, time steps."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    ex = c.build([vbuild.harness_prog('c09', 'c09.cpp', cfg=('swe', 'quad4r', 1, 64, 1), srcs=[], outdir=c.bdir)])
    c.parallel([(lambda i=i: c.harness(ex['c09'], [c.seed * 1000 + i, c.pick(150, 6000)], 'c09')) for i in range(8)], 8)

vh.main(run, 'C09', rule='random states and random meshes of lines, triangles and rectangles with dry elements and boundaries; distinct by state class, element type, fused runs and boundaries')
