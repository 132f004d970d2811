#!/usr/bin/env python3
"""C12: point sources add the integral of their time series at their location."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import vh, vbuild, vacc, vsim, vsrc, vstate, vexact

CONFIGS = [('elastic', 'tria3', 4, 2), ('elastic', 'tet4', 3, 1), ('viscoelastic3', 'tet4', 2, 2), ('elastic', 'quad4r', 3, 1), ('elastic', 'hex8r', 2, 3)]
f32 = lambda v: float(np.float32(v))

def integral(src, t1, t2):
    """of the piecewise linear time series (zero outside of the samples)"""
    x, sc, t0, dt, y = src
    t = t0 + dt * np.arange(len(y)); a, b = max(t1, t[0]), min(t2, t[-1])
    if b <= a: return 0.0
    k = np.unique(np.concatenate([[a, b], t[(t > a) & (t < b)]])); v = np.interp(k, t, y)
    return float((0.5 * (v[1:] + v[:-1]) * np.diff(k)).sum())

def sources(rnd, s, n, T, box, outside=False):
    r = []; nq = 5 if s['dim'] == 2 else 9
    for i in range(n):
        x = [f32(l + (h - l) * rnd.uniform(*box)) for l, h in zip(s['lo'], s['hi'])]
        if i and rnd.random() < 0.4: x = [f32(v + 1e-3 * (rnd.random() - 0.5) * (h - l)) for v, l, h in zip(rnd.choice(r)[0], s['lo'], s['hi'])]
        if outside and rnd.random() < 0.3: d = rnd.randrange(s['dim']); x[d] = f32(rnd.choice([s['lo'][d] - 0.2, s['hi'][d] + 0.3]))
        sc = [f32(rnd.uniform(-1, 1)) if rnd.random() < 0.8 else 0.0 for _ in range(nq)]
        m = rnd.choice([2, 3, 7, 40])
        k = rnd.random()
        if k < 0.3: t0, dt = 0.0, f32(rnd.uniform(0.2, 1.5) * T / (m - 1))         # starts with the simulation
        elif k < 0.6: t0, dt = f32(rnd.uniform(-0.5, 0.0) * T), f32(rnd.uniform(0.2, 2.5) * T / (m - 1))
        elif k < 0.9: t0, dt = f32(rnd.uniform(0.0, 0.9) * T), f32(rnd.uniform(0.05, 1.0) * T / (m - 1))
        else: t0, dt = f32(rnd.choice([-3, 1.5]) * T), f32(T / (m - 1))              # never active
        r.append((x, sc, t0, dt, [f32(rnd.uniform(-1, 1)) for _ in range(m)]))
    return nq, r

def ref_coords(ve, x, el):
    """reference coordinates of points in affine elements"""
    d = vstate.DIM[el]; c = {'tria3': (1, 2), 'tet4': (1, 2, 3), 'quad4r': (1, 3), 'hex8r': (1, 3, 4)}[el]
    A = np.array([ve[k, :d] - ve[0, :d] for k in c]).T
    return np.linalg.solve(A, np.asarray(x)[:d] - ve[0, :d]), abs(np.linalg.det(A))

def one(c, ex, cfg, kind, tag, ranks, threads):
    eq, el, order, cfr = cfg; rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3; key = '%s/%s' % (eq, el)
    m = vacc.material(rnd); m.setdefault('qp', 60.0); m.setdefault('qs', 30.0)
    groups = 1 if kind == 'delta' else rnd.choice([1, 2, 3, 3]) if el == 'tria3' else rnd.choice([1, 2, 2])
    per = kind == 'total'; full = 0; U = 1
    if kind == 'causal': full, U = vacc.steps_for(rnd, groups, 8 if dim == 2 else 5)
    s = vacc.scene(rnd, eq, el, order, cfr, 0 if kind != 'causal' else U, groups, [per] * dim, [[rnd.choice([vsim.OUT, vsim.FS]) for _ in (0, 1)] for _ in range(dim)], [m], ncells=None if kind == 'causal' else {2: 6, 3: 4}[dim])
    dtL = s['dt'] * 2 ** (groups - 1)
    if kind == 'delta': s['end'] = s['sync'] = s['dt'] * rnd.uniform(0.3, 0.95)
    elif kind == 'causal': s['end'] = s['sync'] = dtL * (full + rnd.uniform(0.2, 0.95))
    else: s['end'] = dtL * rnd.uniform(3, 9); s['sync'] = s['end'] * rnd.choice([1, 0.5, 0.34, 0.21])
    for k in ('end', 'sync'): s[k] = float('%.9g' % s[k])
    s['att'] = (float('%.6g' % (0.4 / (2 * np.pi * 10 * dtL))), 100.0)
    wd = os.path.join(c.wdir, tag); os.makedirs(wd, exist_ok=True); S = []; fs = []
    for cr in range(cfr):
        nq, r = sources(rnd, s, rnd.choice([1, 1, 3, 9, 25]), s['end'], (0.45, 0.55) if kind == 'causal' else (0.02, 0.98), kind == 'delta'); S.append(r)
        fs.append(vsrc.write(ex['mksrc'], wd + '/s%d.h5' % cr, dim, nq, r))
    r = vacc.run(c, (ex['e_%s_%s_%d' % (eq, el, order)], ex['edge_v']), s, tag, key, ranks, threads, srcs=fs, seed=rnd.randrange(1 << 20))
    if not r: return
    d, outs, wd = r; rec = dict(vsim.describe(s), kind=kind, ranks=ranks, threads=threads, sources=[len(x) for x in S], tgs=s['tgs']); U = vacc.updates(outs[0]); nz = 0; worst = 0
    for i in vstate.steps(d + '/dump'):
        st = vstate.read(d + '/dump', i, ranks, el); T = st.time
        if not np.all(np.isfinite(st.dofs)): c.violation(key + '/finite', 'non-finite values at time %g' % T, rec, [wd]); return
        if i == 0:
            h = vexact.hops(st) if kind == 'causal' else None; src = set()
            for x in S:
                for y in x: src.update(vacc.inside(st, y[0] + [0.0] * (3 - dim), dim, el).tolist())
            if kind == 'causal': ds = vexact.hops(st, good=lambda k: True, start=src)
        for cr in range(cfr):
            amp = [integral(y, 0, T) for y in S[cr]]; big = [np.abs(y[4]).max() * T for y in S[cr]]
            exp = sum(np.array(y[1]) * a for y, a in zip(S[cr], amp)); sc = sum(np.abs(y[1]).max() * b for y, b in zip(S[cr], big)) + 1e-300
            if kind == 'delta' and i:
                e = np.zeros_like(st.dofs[..., cr]); tl = np.zeros(st.n)
                ok = np.ones(st.n, bool)
                for y, a in zip(S[cr], amp):
                    p = [min(max(v, l), u) for v, l, u in zip(y[0], s['lo'], s['hi'])]; els = vacc.inside(st, p + [0.0] * (3 - dim), dim, el)
                    if len(els) != 1: ok[els] = False; continue
                    x, J = ref_coords(st.ve[els[0]], p, el); b = vstate.basis(el, order, [x])[:, 0]
                    w = vacc.quad(el, order); B = vstate.basis(el, order, w[0]); M = (B ** 2 * (w[1] / w[1].sum())).sum(1) * st.vol[els[0]]
                    e[els[0]] += np.outer(np.array(y[1]) * a, b / M)
                    tl[els[0]] += np.abs(b / M).max() * np.abs(y[1]).max() * np.abs(y[4]).max() * (1e-10 * T + 4e-9)     # times are compared up to TOL.LINALG
                di = np.abs(st.dofs[..., cr] - e).max((1, 2)); di[~ok] = 0; worst = max(worst, di.max() / (np.abs(e).max() + 1e-300)); di = di - tl; nz += int((np.abs(e).max((1, 2)) > 0).sum())
                c.observe('elements_compared', st.n)
                if di.max() > 0:
                    j = di.argmax(); c.violation(key + '/delta', 'run %d: element at %s has after one step of %g\n%s\nexpected\n%s' % (cr, st.ve[j].mean(0).tolist(), T, st.dofs[j, :, :, cr].tolist(), e[j].tolist()), rec, [wd]); return
            if i and (per or kind == 'causal' and h[list(src)].min() > U + 1):
                tot = (st.dofs[:, :, 0, cr] * st.vol[:, None]).sum(0); di = np.abs(tot - exp) / sc; nz += 1
                if eq != 'elastic': di[:6] = 0     # relaxation changes the total stress by the error of the time prediction
                worst = max(worst, di.max())
                c.observe('totals_compared', len(di))
                if di.max() > 1e-11 + 4e-9 / T:
                    q = di.argmax(); c.violation(key + '/total', 'run %d, time %.9g, quantity %d: total is %r, the sources contributed %r' % (cr, T, q, tot[q], exp[q]), rec, [wd]); return
            if kind == 'causal' and i:
                far = ds > U; c.observe('untouched_elements', int(far.sum()))
                if np.abs(st.dofs[far][..., cr]).max(initial=0) > 0:
                    j = [j for j in np.nonzero(far)[0] if np.abs(st.dofs[j, :, :, cr]).max() > 0][0]
                    c.violation(key + '/causal', 'run %d: element at %s, %d elements away from the sources, changed within %d updates' % (cr, st.ve[j].mean(0).tolist(), ds[j], U), rec, [wd]); return
    c.case([key, kind, s['ns'], groups, rec['sources'], s['end']], nontrivial=nz > 0, sample=dict(rec, worst=float(worst), updates=U))

def run(c):
    ps = [vbuild.edgev_prog('edge_v'), vsrc.prog()] + [vbuild.edge_prog('e_%s_%s_%d' % x[:3], x[0], x[1], x[2], 64, x[3], mpi=i < 3, outdir=c.bdir) for i, x in enumerate(CONFIGS)]
    ex = c.build(ps); jobs = []
    for i, x in enumerate(CONFIGS):
        for k in range(c.pick(18, 120)):
            tag = '%s_%s_%d' % (x[0], x[1], k); rnd = c.sub('p', tag)
            jobs.append((x, ['delta', 'total', 'causal'][k % 3], tag, rnd.choice([1, 1, 2, 3]) if i < 3 else 1, rnd.choice([1, 2, 3])))
    c.parallel([(lambda j=j: one(c.view(j[2]), ex, *j)) for j in jobs], 6)

vh.main(run, 'C12', rule='random meshes, source locations (same elements, outside), scalings and time series (partly or never active); distinct by element type, kind of oracle, mesh, groups, number of sources and end time')
