#!/usr/bin/env python3
"""C07: fused simulations do not influence each other: every one gives the results of a simulation of its own."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import vh, vbuild, vacc, vsim, vsrc, vstate, vrun

# equation, element type, order, fused runs, single runs available, kernels of LIBXSMM (fused and single)
CONFIGS = [('elastic', 'tria3', 4, 4, True, False), ('viscoelastic2', 'tet4', 3, 2, True, False), ('advection', 'hex8r', 3, 3, True, False), ('swe', 'tria3', 1, 3, False, False), ('elastic', 'tet4', 3, 2, True, True), ('viscoelastic2', 'tria3', 3, 3, True, True)]
SEIS = ('elastic', 'viscoelastic2')

def one(c, ex, cfg, tag):
    eq, el, order, cfr, single, xs = cfg; xn = '_x' if xs else ''; rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3; key = '%s/%s%s' % (eq, el, '/xsmm' if xs else '')
    s = vsim.gen(rnd, eq, el, order, cfr, nels={'tria3': 110, 'tet4': 150}.get(el, 60), groups=1 if eq == 'swe' else None, steps=14)
    # runs of very different size: zero, tiny, huge, not finite
    kind = [rnd.choice(['same', 'same', 'tiny', 'huge', 'zero', 'nan']) for _ in range(cfr)]
    if eq == 'swe': kind = ['same'] * cfr
    if 'nan' in kind and rnd.random() < 0.5: kind[kind.index('nan')] = 'same'
    fac = {'tiny': 1e-20, 'huge': 1e20, 'zero': 0.0}
    for i, k in enumerate(kind):
        if k in fac: s['init'][i] = ';'.join(x if not x else x.split(':=')[0] + ':=%r*(%s)' % (fac[k], x.split(':=')[1]) for x in s['init'][i].split(';'))
        elif k == 'nan': s['init'][i] = ';'.join(x if not x else x.split(':=')[0] + ':=sqrt(-1)' for x in s['init'][i].split(';'))
    if eq == 'swe' and rnd.random() < 0.5: s['init'][1] = s['init'][0]
    wd = os.path.join(c.wdir, tag); os.makedirs(wd, exist_ok=True); fs = []; recv = None
    if eq in SEIS:
        if rnd.random() < 0.7: fs = [vsrc.write_random(ex['mksrc'], wd + '/s%d.h5' % i, rnd, s, rnd.choice([1, 4, 15])) for i in range(cfr)]
        recv = (float('%.6g' % (s['end'] / rnd.choice([4.3, 11.7]))), [('r%d' % i, *[l + (h - l) * rnd.uniform(0.03, 0.97) for l, h in zip(s['lo'], s['hi'])] + [0.0] * (3 - dim)) for i in range(5)])
    threads = rnd.choice([1, 2, 3]); rec = dict(vsim.describe(s), kind=kind, sources=len(fs), threads=threads)
    rc, o, b = vsim.prepare(ex['edge_v'], s, wd, 1)
    if rc != 0: c.violation(key + '/edge_v-abnormal', 'EDGE-V: ' + vh.crash_text(rc, o), rec, [wd]); return
    def sim(exe, name, ids):
        rcs, outs, d = vsim.simulate(exe, s, wd, b, name, 1, threads, recv=recv, srcs=[fs[i] for i in ids] if fs else (), init=[s['init'][i] for i in ids])
        if rcs != [0]: c.violation(key + '/abnormal', '%s: %s' % (name, vh.crash_text(rcs[0], outs[0]) if rcs[0] is not None else 'no progress within the time limit'), rec, [wd]); return None
        st = vstate.steps(d + '/dump')
        return [vstate.read(d + '/dump', i, 1, el) for i in st], vrun.all_recv(d + '/recv')
    F = sim(ex['f_%s_%s%s' % (eq, el, xn)], 'fused', range(cfr))
    if not F: return
    # other ways of computing the same runs
    perm = list(range(cfr)); rnd.shuffle(perm); oth = [('permuted', ex['f_%s_%s%s' % (eq, el, xn)], perm)]
    if single:
        oth = [('single%d' % i, ex['s_%s_%s%s' % (eq, el, xn)], [i]) for i in range(cfr)] + (oth if rnd.random() < 0.3 else [])
    elif perm == list(range(cfr)): perm.reverse()
    worst = 0; n = 0
    for name, exe, ids in oth:
        G = sim(exe, name, ids)
        if not G: return
        if len(G[0]) != len(F[0]): c.violation(key + '/sync-points', '%s: %d synchronization points, %d of the fused run' % (name, len(G[0]), len(F[0])), rec, [wd]); return
        for j, i in enumerate(ids):
            for a, x in zip(F[0], G[0]):
                for f in ('dofs', 'adofs'):
                    u, v = getattr(a, f), getattr(x, f)
                    if u is None: continue
                    u, v = u[..., i], v[..., j]; n += u.size; c.observe('values_compared', u.size)
                    if kind[i] == 'nan':
                        if a.time > 0 and not fs and np.isfinite(v).any() != np.isfinite(u).any(): c.violation(key + '/values', '%s, run %d: not finite in one of the runs only' % (name, i), rec, [wd]); return
                        continue
                    sc = np.abs(v).max() + 1e-300; sq = np.maximum(np.abs(v).max((0, 2), keepdims=True), 1e-12 * sc); di = np.abs(u - v) / sq
                    worst = max(worst, float(np.nanmax(di)))
                    if not di.max() < 1e-9:
                        p = np.unravel_index(np.argmax(np.where(np.isnan(di), np.inf, di)), di.shape)
                        c.violation(key + '/values', 'run %d (%s) at time %g: element at %s, quantity %d, mode %d of %s is %r in the fused run, %r in the run %s' % (i, kind[i], a.time, a.ve[p[0]].mean(0).tolist(), p[1], p[2], f, u[p], v[p], name), dict(rec, permutation=ids), [wd]); return
            for r in F[1]:
                (_, h, R), = F[1][r]; (_, h2, R2), = G[1].get(r, [(0, [], [])])
                nq = (len(h) - 1) // cfr
                A = [[w[0]] + [w[1 + q * cfr + i] for q in range(nq)] for w in R]; m = len(ids); B = [[w[0]] + [w[1 + q * m + j] for q in range(nq)] for w in R2]
                if len(A) != len(B): c.violation(key + '/receiver', '%s: %d and %d samples of receiver %s' % (name, len(A), len(B), r), rec, [wd]); return
                if kind[i] == 'nan' or not A: continue
                A, B = np.array(A), np.array(B); sc = np.abs(B).max(0) + 1e-300; c.observe('samples_compared', len(A))
                # six digits in files
                if not (np.abs(A - B) <= 2.1e-6 * np.abs(B) + 1e-8 * sc).all(): c.violation(key + '/receiver', '%s, run %d: samples of receiver %s differ: %s and %s' % (name, i, r, A.tolist()[:3], B.tolist()[:3]), rec, [wd]); return
    c.case([key, s['ns'], s['groups'], kind, bool(fs), s['bt']], nontrivial=n > 0, sample=dict(rec, worst=worst))

def run(c):
    ps = [vbuild.edgev_prog('edge_v'), vsrc.prog()]
    for eq, el, order, cfr, single, xs in CONFIGS:
        xn = '_x' if xs else ''; ps.append(vbuild.edge_prog('f_%s_%s%s' % (eq, el, xn), eq, el, order, 64, cfr, outdir=c.bdir, xsmm=xs))
        if single: ps.append(vbuild.edge_prog('s_%s_%s%s' % (eq, el, xn), eq, el, order, 64, 1, outdir=c.bdir, xsmm=xs))
    ex = c.build(ps); jobs = []
    for x in CONFIGS:
        for k in range(c.pick(5 if x[5] else 8, 60)): jobs.append((x, '%s_%s_%d_%d' % (x[0], x[1], x[5], k)))
    c.parallel([(lambda j=j: one(c.view(j[1]), ex, *j)) for j in jobs], 6)

vh.main(run, 'C07', rule='random scenarios with fused simulations of different sizes (zero, tiny, huge, not finite), sources and receivers; distinct by equation, mesh, groups, sizes and boundaries')
