#!/usr/bin/env python3
"""C24: matrix kernels, sparse formats and the discrete operators of the solvers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild

def run(c):
    P = ['data/Dynamic.cpp', 'parallel/Distributed.cpp', 'parallel/global.cpp', vbuild.REPO + '/submodules/FastGL/fastgl.cpp', 'dg/Basis.cpp']
    cf = [('elastic', 'tet4', 3, 64, 1), ('elastic', 'tria3', 4, 32, 2), ('elastic', 'quad4r', 3, 64, 2), ('elastic', 'hex8r', 2, 64, 1), ('viscoelastic3', 'tria3', 3, 64, 2), ('viscoelastic2', 'tet4', 2, 64, 1), ('advection', 'tet4', 3, 64, 2), ('advection', 'line', 4, 64, 2), ('advection', 'tria3', 4, 64, 1), ('advection', 'quad4r', 3, 32, 4), ('advection', 'hex8r', 2, 64, 1)]
    if c.thorough: cf += [('elastic', 'tet4', 4, 64, 1), ('elastic', 'tria3', 1, 64, 1), ('elastic', 'tria3', 2, 64, 8), ('elastic', 'tet4', 1, 64, 2), ('elastic', 'hex8r', 3, 64, 1), ('viscoelastic2', 'tet4', 3, 64, 1), ('viscoelastic4', 'quad4r', 2, 64, 2), ('viscoelastic3', 'hex8r', 2, 64, 1)]
    # kernels on top of LIBXSMM (stand-in): single and fused
    xf = [('elastic', 'tet4', 3, 64, 1), ('elastic', 'tet4', 3, 32, 8), ('elastic', 'tria3', 4, 64, 4), ('elastic', 'quad4r', 4, 64, 2), ('elastic', 'quad4r', 3, 32, 1), ('viscoelastic3', 'tet4', 2, 64, 2), ('viscoelastic2', 'tria3', 3, 64, 1), ('viscoelastic2', 'quad4r', 3, 64, 2), ('elastic', 'hex8r', 2, 64, 2)]
    if c.thorough: xf += [('elastic', 'tet4', 4, 64, 16), ('elastic', 'tet4', 4, 64, 1), ('elastic', 'tria3', 2, 32, 2), ('elastic', 'hex8r', 3, 64, 2), ('elastic', 'hex8r', 3, 64, 1), ('viscoelastic2', 'tet4', 3, 64, 1), ('viscoelastic3', 'hex8r', 2, 64, 2), ('viscoelastic4', 'tria3', 4, 32, 8), ('viscoelastic2', 'quad4r', 4, 64, 1)]
    nm = lambda k: 'c24b_%s_%s_%d_%d_%d' % k
    progs = [vbuild.harness_prog('c24a_%d' % p, 'c24a.cpp', cfg=('elastic', 'tet4', 2, p, 1), srcs=['parallel/global.cpp'], outdir=c.bdir) for p in (32, 64)]
    progs += [vbuild.harness_prog(nm(k), 'c24b.cpp', cfg=k, srcs=P, outdir=c.bdir, pre=True) for k in cf]
    for k in xf:
        p = vbuild.harness_prog('x' + nm(k), 'c24b.cpp', cfg=k, srcs=P, outdir=c.bdir, pre=True, xsmm=True, libs=[] if k[0][0] == 'v' else ['-Wl,--unresolved-symbols=ignore-all'])
        if k[0][0] == 'v' and k[4] > 1: p.add(vbuild.REPO + '/src/impl/seismic/setups/ViscoElasticity.cpp', ['-O0', '-g0', '-Wno-everything'], cxx='clang++', drop=['-O1', '-g1', '-fno-omit-frame-pointer'] + vbuild.SAN['asan'])
        progs.append(p)
    ex = c.build(progs)
    c.parallel([(lambda k=k, i=i: c.harness(ex[nm(k)], [c.seed * 10 + i, c.pick(4, 60)], 'kernels')) for k in cf for i in range(2)], 8)
    c.parallel([(lambda k=k, i=i: c.harness(ex['x' + nm(k)], [c.seed * 10 + i, c.pick(4, 60)], 'kernels', env={'XSMM_KNM': str(i)})) for k in xf for i in range(2)], 8)
    c.parallel([(lambda p=p, i=i: c.harness(ex['c24a_%d' % p], [c.seed * 1000 + i, c.pick(600, 20000)], 'matrix')) for p in (32, 64) for i in range(4)], 8)

vh.main(run, 'C24', rule='random matrices, leading dimensions, scalars and sparsity patterns; random degrees of freedom and coefficients for the kernels of 20 configurations (plain, and on top of a stand-in for LIBXSMM); distinct by sizes, number of non-zeros, configuration and iteration')
