"""Whole simulations with known results: exact polynomial solutions, conservation, energy, shift invariance."""
import os, re, math, random
import numpy as np
import vh, vsim, vmesh, vrun, vstate, vexact

NQ = {('advection', 2): 1, ('advection', 3): 1, ('elastic', 2): 5, ('elastic', 3): 9, ('swe', 2): 3}
ADV = (1.0, 0.5, -1.0)

def material(rnd):
    vs = rnd.uniform(0.8, 2.0); vp = vs * rnd.uniform(1.5, 2.2); rho = rnd.uniform(0.8, 1.8)
    return dict(rho=rho, mu=rho * vs * vs, lam=rho * (vp * vp - 2 * vs * vs), vp=vp, vs=vs, qp=50., qs=25.)

def updates(out):
    m = re.search(r'\((\d+) fundamental time steps\)', out)
    return int(m.group(1)) if m else None

def cells(rnd, el, U):
    n = {'tria3': U + 2, 'quad4r': 2 * U + 2, 'tet4': max(4, int(0.75 * U) + 2), 'hex8r': 2 * U + 1}[el]
    return max(3, n)

def scene(rnd, eq, el, order, cfr, U, groups, per, bnds, mats, perturb=None, grade=None, uni=False, ncells=None):
    """mesh and settings; U: number of updates of the smallest time step for which the inside stays untouched"""
    dim = 2 if el in ('tria3', 'quad4r') else 3
    n = ncells or cells(rnd, el, U)
    if groups > 1 and ncells is None: n += n // 2 if dim == 2 else 2
    ns = [n + (rnd.randrange(2) if ncells is None else rnd.randrange(3)) for _ in range(dim)]
    sc = rnd.choice([1.0, 10.0, 0.3])
    lo = [round(rnd.uniform(-1, 1) * sc, 3) for _ in range(dim)]
    hi = [round(l + sc * rnd.uniform(0.8, 1.3), 3) for l in lo]
    if grade is None: grade = [1 if uni else rnd.choice([1, 2, 4] if groups == 1 else [1, 3, 5, 8]) for _ in range(dim)]
    if perturb is None: perturb = rnd.choice([0.0, 0.15, 0.25]) if el in ('tria3', 'tet4') and not uni else 0.0
    bt = {(d, s): vsim.PER if per[d] else bnds[d][s] for d in range(dim) for s in (0, 1)}
    # local orientations are the same in all cells of uniform meshes
    mesh = vmesh.box_min(el, ns, lo, hi, lambda d, s: bt[d, s], rnd, perturb=perturb, grade=grade, permute=not uni)
    s = dict(eq=eq, el=el, order=order, cfr=cfr, dim=dim, ns=ns, lo=lo, hi=hi, per=per, bt={'%d%d' % k: v for k, v in bt.items()}, grade=grade, perturb=perturb,
             nels=len(mesh['els']), mesh=mesh, groups=groups, fdt=rnd.choice([1.0, 0.9, 0.77, 0.6]), mats=mats, att=(1.0, 100.0))
    a = rnd.randrange(dim)
    xs = vmesh.grid(ns[a], lo[a], hi[a], grade[a])
    s['cut'] = (a, 0.5); s['pos'] = xs[len(xs) // 2]
    vmax = {'advection': 1.5, 'swe': 6.0}.get(eq) or max(m['vp'] for m in mats)
    s['dt'] = min(vsim.in_dias(mesh)) * 0.5 / (vmax * (2 * order - 1)) * s['fdt']
    s['init'] = ['q := 0;'] * cfr
    s['end'] = s['sync'] = s['dt']
    return s

def frame(s):
    c = [(a + b) / 2 for a, b in zip(s['lo'], s['hi'])]
    return c, max(b - a for a, b in zip(s['lo'], s['hi'])) / 2

def jac(s, m):
    if s['eq'] == 'advection': return [np.array([[ADV[d]]]) for d in range(s['dim'])]
    return vexact.elastic_jac(s['dim'], m['rho'], m['lam'], m['mu'])

def scales(s, m):
    """natural size of the quantities"""
    if s['eq'] == 'advection': return [1.0]
    z = m['rho'] * m['vp']
    return [z] * (3 if s['dim'] == 2 else 6) + [1.0] * s['dim']

def run(c, ex, s, tag, key, ranks=1, threads=1, recv=None, **kw):
    """EDGE-V and EDGE; None in case of violations"""
    wd = os.path.join(c.wdir, tag); os.makedirs(wd, exist_ok=True)
    rc, o, b = vsim.prepare(ex[1], s, wd, ranks)
    if rc != 0:
        c.violation(key + '/edge_v-abnormal', 'EDGE-V: ' + vh.crash_text(rc, o), vsim.describe(s), [wd]); return None
    s['tgs'] = [int(x) for x in re.findall(r'  \d+ (\d+) \[', o.split('histogram')[1].split('theoretical')[0])] if 'histogram' in o else []
    for i, n in enumerate(s['tgs']): c.observe('elements_of_group_%d' % i, n)
    if ranks > 1:
        x = random.Random(tag + str(s['end'])); kw.setdefault('mdelay', x.choice([0, 30, 70])); kw.setdefault('wdelay', x.choice([0, 0, 30])); kw.setdefault('seed', x.randrange(1 << 30))
    rcs, outs, d = vsim.simulate(ex[0], s, wd, b, 'run%d_%d' % (ranks, threads), ranks, threads, recv=recv, **kw)
    if any(r != 0 for r in rcs):
        i = sorted((r is None, i) for i, r in enumerate(rcs) if r != 0)[0][1]     # other ranks wait for a failed one
        c.violation(key + '/abnormal', vh.crash_text(rcs[i], outs[i]) if rcs[i] is not None else 'no progress within the time limit', vsim.describe(s), [wd]); return None
    return d, outs, wd

def compare_exact(c, s, d, outs, wd, key, sols, ranks=1, good=None, tol=2e-10, extra=None, minfrac=0.02):
    """sols[cr](x, t) -> values [q][...]; only elements out of reach of the boundaries"""
    U = updates(outs[0])
    st = vstate.steps(d + '/dump')
    rec = dict(vsim.describe(s), updates=U, tgs=s.get('tgs'), ranks=ranks, **(extra or {}))
    if U is None or len(st) < 2: c.violation(key + '/output', 'no updates reported or no states', rec, [wd]); return
    n = 0; worst = 0
    last = None
    for i in st:
        a = vstate.read(d + '/dump', i, ranks, s['el'])
        if last is None: h = vexact.hops(a, good); last = True
        ok = h >= (U if i else 0)
        if not ok.any(): continue
        v = vstate.values(a); x = vexact.elpts(a)
        for cr in range(s['cfr']):
            e = sols[cr](x, a.time)
            for q in range(a.nq):
                sc = np.abs(e[q]).max() + 1e-3 * max(np.abs(y).max() for y in e)
                di = np.abs(v[:, q, :, cr] - e[q])[ok] / max(sc, 1e-30)
                if not np.all(np.isfinite(di)) or di.max() > tol:
                    j = np.nonzero(ok)[0][np.unravel_index(np.nanargmax(np.where(np.isfinite(di), di, 1e300)), di.shape)[0]]
                    c.violation(key + '/exact', 'time %g, run %d, quantity %d: element at %s (distance to boundary %d) has %s, exact %s' % (a.time, cr, q, np.round(a.ve[j].mean(0), 6).tolist(), h[j], v[j, q, :, cr].tolist(), e[q][j].tolist()), rec, [wd]); return
                worst = max(worst, di.max())
        n += int(ok.sum()) if i else 0
        c.observe('elements_compared', int(ok.sum()) * s['cfr'])
    c.case([key, s['ns'], s['groups'], U, s['bt'], s['perturb'], s['grade'], s['fdt']], nontrivial=n > 0 and (s['groups'] == 1 or sum(1 for x in s['tgs'] if x) > 1), sample=dict(rec, worst=float(worst), inner_elements=n))

# -- scenarios ---------------------------------------------------------------
def steps_for(rnd, groups, maxup):
    f = 2 ** (groups - 1)
    full = rnd.randrange(0, max(1, maxup // f))     # full cycles, one more for the remainder
    return full, (full + 1) * f

def poly(c, ex, eq, el, order, cfr, groups, maxup, tag, key, ranks=1, threads=1):
    """random polynomial initial values in a homogeneous medium"""
    rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3
    full, U = steps_for(rnd, groups, maxup)
    m = material(rnd)
    s = scene(rnd, eq, el, order, cfr, U, groups, [False] * dim, [[vsim.OUT, vsim.OUT]] * dim, [m])
    s['end'] = s['sync'] = float('%.9g' % (s['dt'] * 2 ** (groups - 1) * (full + rnd.uniform(0.2, 0.95))))
    ce, L = frame(s); A = jac(s, m); sols = []
    for cr in range(cfr):
        q0 = [vexact.rand_poly(rnd, dim, ce, L, order - 1, scale=z) for z in scales(s, m)]
        ta = vexact.taylor(A, q0)
        sols.append(lambda x, t, ta=ta: [p(x) for p in vexact.at(ta, t)])
        s['init'][cr] = ''.join('q[%d]:=%s;' % (i, p.expr()) for i, p in enumerate(q0))
    r = run(c, ex, s, tag, key, ranks, threads)
    if r: compare_exact(c, s, *r, key, sols, ranks=ranks)

def layered(c, ex, el, order, cfr, groups, maxup, tag, key, ranks=1, threads=1):
    """two half spaces: velocities with a kink at the interface, such that tractions stay continuous"""
    rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3
    full, U = steps_for(rnd, groups, maxup)
    ms = [material(rnd), material(rnd)]
    s = scene(rnd, 'elastic', el, order, cfr, U, groups, [False] * dim, [[vsim.OUT, vsim.OUT]] * dim, ms, perturb=0.0)
    s['end'] = s['sync'] = float('%.9g' % (s['dt'] * 2 ** (groups - 1) * (full + rnd.uniform(0.2, 0.95))))
    a, pos = s['cut'][0], s['pos']; sols = []
    nst = 3 if dim == 2 else 6
    for cr in range(cfr):
        v0 = [rnd.uniform(-1, 1) for _ in range(dim)]; tr = [rnd.uniform(-1, 1) * 2 for _ in range(dim)]
        # mats[0] is the upper half space (x > pos)
        g = [[tr[i] / ((m['lam'] + 2 * m['mu']) if i == a else m['mu']) for i in range(dim)] for m in ms]
        s0c = [rnd.uniform(-1, 1) for _ in range(nst)]; s0d = [[rnd.uniform(-1, 1) for _ in range(nst)] for _ in ms]
        acts = {2: {0: (0, 2), 1: (2, 1)}, 3: {0: (0, 3, 5), 1: (3, 1, 4), 2: (5, 4, 2)}}[dim][a]
        ini = [[s0c[i] if i in acts else s0d[k][i] for i in range(nst)] for k in (0, 1)]
        def sol(x, t, v0=v0, tr=tr, g=g, ini=ini, acts=acts):
            up = x.mean(1)[:, a] > pos; up = np.repeat(up[:, None], x.shape[1], 1); z = x[..., a] - pos; r = []
            for i in range(nst):
                w = []
                for k, m in enumerate(ms):
                    y = ini[k][i]
                    if i in acts: y += tr[acts.index(i)] * t
                    elif i < dim: y += m['lam'] * g[k][a] * t
                    w.append(y)
                r.append(np.where(up, w[0], w[1]))
            return r + [v0[i] + np.where(up, g[0][i], g[1][i]) * z for i in range(dim)]
        sols.append(sol)
        X = 'xyz'[a]
        e = ''.join('q[%d]:=if(%s>%r,%r,%r);' % (i, X, pos, ini[0][i], ini[1][i]) for i in range(nst))
        e += ''.join('q[%d]:=%r+(%s-(%r))*if(%s>%r,%r,%r);' % (nst + i, v0[i], X, pos, X, pos, g[0][i], g[1][i]) for i in range(dim))
        s['init'][cr] = e.replace('>', '&gt;')
    r = run(c, ex, s, tag, key, ranks, threads)
    if r: compare_exact(c, s, *r, key, sols, ranks=ranks, extra=dict(interface='xyz'[a]))

def surface(c, ex, el, order, cfr, groups, maxup, tag, key, ranks=1, threads=1):
    """free surface: even velocities, odd tractions with respect to the distance to the surface"""
    rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3
    full, U = steps_for(rnd, groups, maxup)
    m = material(rnd); a = rnd.randrange(dim); sd = rnd.randrange(2)
    bn = [[vsim.OUT, vsim.OUT] for _ in range(dim)]; bn[a][sd] = vsim.FS
    s = scene(rnd, 'elastic', el, order, cfr, U, groups, [False] * dim, bn, [m])
    s['end'] = s['sync'] = float('%.9g' % (s['dt'] * 2 ** (groups - 1) * (full + rnd.uniform(0.2, 0.95))))
    ce, L = frame(s); ce = list(ce); ce[a] = (s['lo'], s['hi'])[sd][a]; L *= 2
    nst = 3 if dim == 2 else 6; sols = []
    acts = {2: {0: (0, 2), 1: (2, 1)}, 3: {0: (0, 3, 5), 1: (3, 1, 4), 2: (5, 4, 2)}}[dim][a]
    sc = scales(s, m)
    for cr in range(cfr):
        q0 = []
        for i in range(nst + dim):
            t = {}
            for k in range(order):
                if i >= nst and k % 2: continue
                if i in acts and k % 2 == 0: continue
                e = [0] * dim; e[a] = k; t[tuple(e)] = rnd.uniform(-1, 1) * sc[i]
            q0.append(vexact.Poly(dim, ce, L, t))
        ta = vexact.taylor(jac(s, m), q0)
        sols.append(lambda x, t, ta=ta: [p(x) for p in vexact.at(ta, t)])
        s['init'][cr] = ''.join('q[%d]:=%s;' % (i, p.expr()) for i, p in enumerate(q0))
    r = run(c, ex, s, tag, key, ranks, threads)
    if r: compare_exact(c, s, *r, key, sols, ranks=ranks, good=lambda f: all(abs(p[a] - ce[a]) < 1e-6 for p in f), extra=dict(surface='%s%s' % ('-+'[sd], 'xyz'[a])))

def elmat(s, st):
    a = s['cut'][0]; up = st.ve[:, :, a].mean(1) > s['pos']
    g = lambda k: np.where(up, s['mats'][0][k], s['mats'][-1][k])
    return g('rho'), g('lam'), g('mu')

def totals(s, st):
    """conserved totals [name][cr] and energy [cr]"""
    w = quad(s['el'], s['order'])
    b = vstate.basis(s['el'], s['order'], w[0])
    v = np.einsum('eqmc,mp->eqpc', st.dofs, b)
    jw = st.vol[:, None] * (w[1] / w[1].sum())[None, :]
    mean = np.einsum('eqpc,ep->eqc', v, jw)
    if s['eq'] == 'advection': return mean.sum(0), np.einsum('eqpc,ep->c', v ** 2, jw), np.abs(mean).sum(0) + 1e-300
    rho, lam, mu = elmat(s, st); dim = s['dim']; nst = 3 if dim == 2 else 6
    # strains from stresses (plane strain in two dimensions)
    def strain(x):
        r = np.zeros_like(x[:, :nst])
        if dim == 2:
            d = 4 * mu * (lam + mu); sh = (slice(None),) + (None,) * (x.ndim - 2)
            r[:, 0] = ((lam + 2 * mu) / d)[sh] * x[:, 0] - (lam / d)[sh] * x[:, 1]; r[:, 1] = ((lam + 2 * mu) / d)[sh] * x[:, 1] - (lam / d)[sh] * x[:, 0]; r[:, 2] = x[:, 2] / (2 * mu)[sh]
        else:
            sh = (slice(None),) + (None,) * (x.ndim - 2)
            tr = x[:, 0] + x[:, 1] + x[:, 2]
            for i in range(3): r[:, i] = x[:, i] / (2 * mu)[sh] - (lam / (2 * mu * (3 * lam + 2 * mu)))[sh] * tr
            for i in range(3, 6): r[:, i] = x[:, i] / (2 * mu)[sh]
        return r
    e = strain(mean); mom = mean[:, nst:] * rho[:, None, None]
    tot = np.concatenate([e, mom], 1)
    ev = strain(v); n = dim
    dens = 0.5 * (v[:, nst:] ** 2).sum(1) * rho[:, None, None] + 0.5 * (v[:, :n] * ev[:, :n]).sum(1) + (v[:, n:nst] * ev[:, n:nst]).sum(1)
    return tot.sum(0), np.einsum('epc,ep->c', dens, jw), np.abs(tot).sum(0) + 1e-300

def quad(el, order):
    """quadrature rule exact for products of two basis functions: collapsed Gauss points"""
    n = order + 2
    x, w = np.polynomial.legendre.leggauss(n); x, w = (x + 1) / 2, w / 2
    P, W = [], []
    if el in ('quad4r', 'tria3'):
        for i in range(n):
            for j in range(n):
                if el == 'quad4r': P.append((x[i], x[j])); W.append(w[i] * w[j])
                else: P.append((x[i] * (1 - x[j]), x[j])); W.append(w[i] * w[j] * (1 - x[j]))
    else:
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    if el == 'hex8r': P.append((x[i], x[j], x[k])); W.append(w[i] * w[j] * w[k])
                    else: P.append((x[i] * (1 - x[j]) * (1 - x[k]), x[j] * (1 - x[k]), x[k])); W.append(w[i] * w[j] * (1 - x[j]) * w[k] * (1 - x[k]) ** 2)
    return np.array(P), np.array(W)

def conserve(c, ex, eq, el, order, cfr, groups, tag, key, ranks=1, threads=1, steps=30, hetero=True, walls=False):
    """totals of all conserved quantities in periodic domains; energy never grows"""
    rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3
    ms = [material(rnd) for _ in range(2 if hetero and eq == 'elastic' else 1)]
    per = [True] * dim if not walls else [rnd.random() < 0.5 for _ in range(dim)]
    if walls and all(per): per[rnd.randrange(dim)] = False
    s = scene(rnd, eq, el, order, cfr, 0, groups, per, [[vsim.FS if eq == 'elastic' and rnd.random() < 0.7 else vsim.OUT for _ in (0, 1)] for _ in range(dim)], ms, ncells={2: 6, 3: 4}[dim])
    for cr in range(cfr):
        sc = scales(s, ms[0])
        s['init'][cr] = ''.join('q[%d]:=%r*(%s);' % (i, z, vsim.fexpr(rnd, s['lo'], s['hi'], dim, per)) for i, z in enumerate(sc))
    s['end'] = float('%.9g' % (s['dt'] * steps * rnd.uniform(0.8, 1.2) * (2 if groups > 1 else 1)))
    s['sync'] = float('%.9g' % (s['end'] * rnd.choice([0.5, 0.34, 0.2])))
    r = run(c, ex, s, tag, key, ranks, threads)
    if not r: return
    d, outs, wd = r; st = vstate.steps(d + '/dump'); ref = None; rec = vsim.describe(s); drift = 0; en = []
    for i in st:
        a = vstate.read(d + '/dump', i, ranks, el)
        if not np.all(np.isfinite(a.dofs)): c.violation(key + '/finite', 'non-finite values at synchronization point %d' % i, rec, [wd]); return
        t, e, sc = totals(s, a)
        en.append(e)
        if ref is None: ref = t, sc; continue
        if not walls:
            di = np.abs(t - ref[0]) / np.maximum(ref[1], sc).max(0, keepdims=True)
            drift = max(drift, di.max())
            c.observe('totals_compared', di.size)
            if di.max() > 1e-11:
                q, cr = np.unravel_index(di.argmax(), di.shape)
                c.violation(key + '/conservation', 'total of conserved quantity %d of run %d changes from %r to %r (synchronization point %d)' % (q, cr, ref[0][q, cr], t[q, cr], i), rec, [wd]); return
        g = (e - en[-2]) / (np.abs(en[0]) + 1e-300)
        c.observe('energies_compared', g.size)
        if g.max() > (1e-9 if groups == 1 else 1e-4): c.violation(key + '/energy', 'energy of run %d grows from %r to %r (synchronization point %d)' % (g.argmax(), en[-2][g.argmax()], e[g.argmax()], i), rec, [wd]); return
    c.case([key, s['ns'], s['groups'], s['bt'], s['grade'], s['fdt'], len(ms)], nontrivial=len(st) > 1, sample=dict(rec, drift=float(drift), energy=[float(x[0]) for x in en]))

def shift(c, ex, eq, el, order, cfr, tag, key, threads=1):
    """periodic uniform meshes: shifted initial values give shifted results"""
    rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3
    m = material(rnd)
    s = scene(rnd, eq, el, order, cfr, 0, 1, [True] * dim, [[0, 0]] * dim, [m], uni=True, ncells={2: 5, 3: 3}[dim])
    k = [rnd.randrange(n) for n in s['ns']]
    if not any(k): k[0] = 1
    dx = [(h - l) / n for l, h, n in zip(s['lo'], s['hi'], s['ns'])]
    ini = []
    for cr in range(cfr): ini.append([(z, vsim.fexpr(rnd, s['lo'], s['hi'], dim, [True] * dim)) for z in scales(s, m)])
    s['end'] = s['sync'] = float('%.9g' % (s['dt'] * 12.3)); res = []
    for v in (0, 1):
        for cr in range(cfr):
            e = ''.join('q[%d]:=%r*(%s);' % (i, z, f) for i, (z, f) in enumerate(ini[cr]))
            if v:
                for a in range(dim): e = re.sub(r'\b%s\b' % 'xyz'[a], '(%s-(%r))' % ('xyz'[a], k[a] * dx[a]), e)
            s['init'][cr] = e
        r = run(c, ex, s, '%s_%d' % (tag, v), key, 1, threads)
        if not r: return
        res.append(vstate.read(r[0] + '/dump', vstate.steps(r[0] + '/dump')[-1], 1, el))
    L = np.array(s['hi']) - np.array(s['lo']); lo = np.array(s['lo'])
    def norm(x):
        i = (x - lo) / np.array(dx)
        i = np.mod(i + 1e-6, np.array(s['ns'])) - 1e-6
        return i
    def table(st, sh):
        o = {}
        v = vstate.values(st); x = vexact.elpts(st)
        for e in range(st.n):
            for p in range(x.shape[1]): o[tuple(np.round(norm(x[e, p] + sh), 4) + 0.0)] = v[e, :, p, :]
        return o
    A = table(res[0], np.array(k) * np.array(dx)); B = table(res[1], 0.0); rec = dict(vsim.describe(s), shift=k)
    if sorted(A) != sorted(B): raise RuntimeError('points of shifted meshes do not match')
    for q in range(res[0].nq):
        sc = max(np.abs(v[q]).max() for v in A.values()) + 1e-300; w = 0
        for kk, v in A.items():
            di = np.abs(v[q] - B[kk][q]).max() / sc
            w = max(w, di)
            if not di < 1e-10: c.violation(key + '/shift', 'shift by %s cells: quantity %d at cell coordinates %s is %s, shifted %s' % (k, q, kk, v[q].tolist(), B[kk][q].tolist()), rec, []); return
    c.observe('shifted_points', len(A))
    c.case([key, 'shift', k, s['ns']], nontrivial=True, sample=dict(rec, worst=float(w)))

# -- shallow water ------------------------------------------------------------
def grid_prog():
    import vbuild
    p = vbuild.Prog('mkgrid', opt='-O0')
    p.add(vbuild.STUBS + '/lib/mkgrid.cpp', defs=[], incs=[])
    p.libs += vbuild.HDF5
    return p

def mkgrid(exe, path, xs, ys, f):
    import subprocess
    with open(path + '.txt', 'w') as o:
        o.write('%d %d\n' % (len(xs), len(ys)))
        for v in (xs, ys, [f(x, y) for y in ys for x in xs]): o.write(' '.join('%.9g' % q for q in v) + '\n')
    subprocess.check_call([exe, path + '.txt', path])

def swe(c, ex, el, cfr, kind, tag, key, threads=1):
    """kind: rest (lake at rest over bathymetry from a file, some of it dry), stream (constant flow), mass (reflecting or periodic, flat), tsunami (bathymetry and displacements from files)"""
    rnd = c.rnd
    per = [rnd.random() < 0.4 for _ in range(2)] if kind != 'stream' else [False] * 2
    bn = [[vsim.OUT if kind == 'stream' or (kind == 'rest' and rnd.random() < 0.3) else vsim.REFL for _ in (0, 1)] for _ in range(2)]
    s = scene(rnd, 'swe', el, 1, cfr, 0, 1, per, bn, [material(rnd)], ncells=rnd.choice([5, 8, 12]))
    wd = os.path.join(c.wdir, tag); os.makedirs(wd)
    import vmesh as vm
    i = wd + '/in.msh'; vm.write(s['mesh'], i)
    files = kind in ('rest', 'tsunami'); const = [[rnd.uniform(1, 3), rnd.uniform(-1, 1), rnd.uniform(-1, 1)] for _ in range(cfr)]
    model = dict(seismic=vsim.vel_expr(s))
    if files:
        ext = [(l - 0.1 * (h - l), h + 0.1 * (h - l)) for l, h in zip(s['lo'], s['hi'])]
        gs = [sorted([a, b] + [rnd.uniform(a, b) for _ in range(rnd.randrange(1, 9))]) for a, b in ext]
        deep = kind == 'tsunami'
        mkgrid(ex[2], wd + '/bath.h5', gs[0], gs[1], lambda x, y: rnd.uniform(-3, -1) if deep or rnd.random() < 0.7 else rnd.uniform(0.2, 2))
        t = '<tsunami><dry_tolerance>-0.01</dry_tolerance><bathymetry>%s/bath.h5</bathymetry>' % wd
        for r in range(cfr):
            mkgrid(ex[2], wd + '/disp%d.h5' % r, gs[0], gs[1], lambda x, y: rnd.uniform(-0.3, 0.3) if deep else 0.0); t += '<displacements>%s/disp%d.h5</displacements>' % (wd, r)
        model = dict(tsunami=t + '<expression>min_speed := 1; max_speed := 6;</expression></tsunami>')
    rc, o = vrun.run_edge_v(ex[1], wd, 'v', inp=i, base=wd + '/m', n_parts=1, n_groups=1, fdt=s['fdt'], periodic=vsim.PER if any(per) else None, **model)
    rec = dict(vsim.describe(s), kind=kind)
    if rc != 0: c.violation(key + '/edge_v-abnormal', vh.crash_text(rc, o), rec, [wd]); return
    for cr in range(cfr):
        if kind == 'mass': s['init'][cr] = 'q[0]:=2.0+0.3*(%s);' % vsim.fexpr(rnd, s['lo'], s['hi'], 2, per) + ''.join('q[%d]:=0.4*(%s);' % (q, vsim.fexpr(rnd, s['lo'], s['hi'], 2, per)) for q in (1, 2))
        else: s['init'][cr] = ''.join('q[%d]:=%r;' % (q, const[cr][q]) for q in range(3))
    # time step of the code: 0.45 * in-diameter / (|u| + sqrt(g h)); about ten to fifty updates
    s['end'] = float('%.9g' % (min(vsim.in_dias(s['mesh'])) / 6. * rnd.uniform(4, 20))); s['sync'] = float('%.9g' % (s['end'] * rnd.choice([1, 0.4])))
    rcs, outs, d = vsim.simulate(ex[0], s, wd, wd + '/m', 'run', 1, threads)
    if rcs[0] != 0: c.violation(key + '/abnormal', vh.crash_text(rcs[0], outs[0]) if rcs[0] is not None else 'no progress within the time limit', rec, [wd]); return
    st = vstate.steps(d + '/dump'); ref = None; dry = 0; worst = 0
    for k in st:
        a = vstate.read(d + '/dump', k, 1, el); q = a.dofs[:, :, 0, :]
        if not np.all(np.isfinite(q)): c.violation(key + '/finite', 'non-finite values at synchronization point %d' % k, rec, [wd]); return
        vol = (q[:, 0, :] * a.vol[:, None]).sum(0)
        if ref is None:
            ref = q.copy(), vol; dry = int((q[:, 0] == 0).sum())
            b = a.bath
            if kind in ("mass", "stream") and np.ptp(b) > 0: c.violation(key + '/bathymetry', 'bathymetry without a model', rec, [wd]); return
            if kind == 'rest' and np.abs(q[:, 0] - np.maximum(-b, 0)[:, None]).max() > 1e-6: c.violation(key + '/initial', 'water columns do not end at sea level', rec, [wd]); return
            if kind == 'stream' and np.abs(q - np.array(const).T[None]).max() > 1e-9: c.violation(key + '/initial', 'initial values differ from the expressions', rec, [wd]); return
            if files and (q[:, 1:] != 0).any(): c.violation(key + '/initial', 'initial momentum', rec, [wd]); return
            continue
        c.observe('swe_states')
        if kind in ('rest', 'stream'):
            di = np.abs(q - ref[0]); worst = max(worst, float(di.max()))
            if di.max() > 1e-11:
                e, qq, cr = np.unravel_index(di.argmax(), di.shape)
                c.violation(key + '/' + kind, 'quantity %d of run %d changes from %r to %r in the element at %s (synchronization point %d)' % (qq, cr, ref[0][e, qq, cr], q[e, qq, cr], np.round(a.ve[e].mean(0), 5).tolist(), k), rec, [wd]); return
        else:
            di = np.abs(vol - ref[1]) / ref[1]; worst = max(worst, float(di.max()))
            if di.max() > 1e-12: c.violation(key + '/volume', 'volume of water of run %d changes from %r to %r (synchronization point %d)' % (di.argmax(), ref[1][di.argmax()], vol[di.argmax()], k), rec, [wd]); return
            if k == st[-1] and not np.abs(q - ref[0]).max() > 1e-6: c.violation(key + '/static', 'nothing moves', rec, [wd]); return
    c.case([key, kind, s['ns'], s['bt'], cfr], nontrivial=len(st) > 1, sample=dict(rec, dry=dry, worst=worst, updates=updates(outs[0])))

# -- receivers ----------------------------------------------------------------
def inside(st, p, dim, el):
    """elements which contain the point (slightly enlarged)"""
    x = st.ve[:, :, :dim]; q = np.array(p[:dim])
    if el in ('quad4r', 'hex8r'):
        e = 1e-7 * (x.max(1) - x.min(1))
        return np.nonzero(((q >= x.min(1) - e) & (q <= x.max(1) + e)).all(1))[0]
    A = np.transpose(x[:, 1:] - x[:, :1], (0, 2, 1)); b = np.linalg.solve(A, (q - x[:, 0])[..., None])[..., 0]
    return np.nonzero((b > -1e-7).all(1) & (b.sum(1) < 1 + 1e-7))[0]

def receivers(c, ex, el, order, cfr, groups, maxup, tag, key, ranks=1, threads=1, delay=0, many=False):
    """samples of receivers of exact polynomial solutions; many: more samples than the buffers take"""
    rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3
    full, U = steps_for(rnd, groups, maxup)
    if rnd.random() < 0.25: full = 0
    m = material(rnd)
    s = scene(rnd, 'elastic', el, order, cfr, U if not many else 0, groups, [False] * dim, [[vsim.OUT, vsim.OUT]] * dim, [m], ncells=4 if many else None)
    dtL = s['dt'] * 2 ** (groups - 1)
    dense = many and rnd.random() < 0.6   # more samples in a step than left in the buffers
    n = rnd.randrange(2, 7) if dense else rnd.randrange(20, 60) if many else 0
    s['end'] = float('%.9g' % (dtL * (full + n + rnd.uniform(0.2, 0.95)))); s['sync'] = s['end'] if rnd.random() < 0.6 else float('%.9g' % (s['end'] * rnd.choice([0.5, 0.31])))
    if many: freq = dtL / (rnd.uniform(51, 700) if dense else rnd.uniform(12, 40))
    else: freq = rnd.choice([s['end'] / rnd.choice([7, 16, 25]), s['dt'] * rnd.uniform(0.05, 3), s['end'] * rnd.uniform(0.05, 0.45), s['dt'], s['end'] * 2])
    freq = float('%.9g' % freq)
    ce, L = frame(s); A = jac(s, m); sols = []
    for cr in range(cfr):
        q0 = [vexact.rand_poly(rnd, dim, ce, L, order - 1, scale=z) for z in scales(s, m)]
        ta = vexact.taylor(A, q0); sols.append(ta)
        s['init'][cr] = ''.join('q[%d]:=%s;' % (i, p.expr()) for i, p in enumerate(q0))
    # receivers: anywhere, in the middle, at vertices, together in an element, outside
    nodes = [x[1:1 + dim] for x in s['mesh']['nodes']]; rv = []; ext = max(h - l for l, h in zip(s['lo'], s['hi']))
    for i in range(rnd.choice([1, 5, 12, 25])):
        k = rnd.random()
        if k < 0.4: p = [l + (h - l) * rnd.uniform(0, 1) for l, h in zip(s['lo'], s['hi'])]
        elif k < 0.6: p = [l + (h - l) * rnd.uniform(0.4, 0.6) for l, h in zip(s['lo'], s['hi'])]
        elif k < 0.75: p = list(rnd.choice(nodes))
        elif k < 0.9 and rv: p = [v + 1e-3 * ext * rnd.uniform(-1, 1) for v in rnd.choice(rv)[1:1 + dim]]
        else: p = [l + (h - l) * rnd.uniform(-0.3, 1.3) for l, h in zip(s['lo'], s['hi'])]
        rv.append(tuple(['st_%d' % i if rnd.random() < 0.8 else ''] + [float('%.7g' % v) for v in p] + [0.0] * (3 - dim)))
    r = run(c, ex, s, tag, key, ranks, threads, recv=(freq, rv, rnd.choice(['/recv', '/recv/', '//recv', '/recv/.'])), wdelay=delay, seed=rnd.randrange(1 << 20))
    if not r: return
    d, outs, wd = r; U = updates(outs[0]); rec = dict(vsim.describe(s), receivers=len(rv), freq=freq, updates=U, tgs=s['tgs'], ranks=ranks, threads=threads)
    st = vstate.read(d + '/dump', 0, ranks, el); h = vexact.hops(st)
    names = [x[0] or str(i) for i, x in enumerate(rv)]
    rec['names'] = names[:5]
    import glob
    fs = {}
    for f in glob.glob(d + '/recv/*/*'): fs.setdefault(os.path.basename(f), []).append(f)
    if sorted(fs) != sorted(n + '.csv' for n in names) or any(len(v) != 1 for v in fs.values()):
        c.violation(key + '/files', 'files %s do not match the receivers %s' % (sorted((k, len(v)) for k, v in fs.items())[:9], sorted(names)[:9]), rec, [wd]); return
    cols = 'time' + ''.join(',Q%d_C%d' % (q, cr) for q in range(st.nq) for cr in range(cfr))
    nt = math.ceil((s['end'] - 2e-9) / freq); amb = s['end'] - freq * (nt - 1) < 2e-9 or abs(s['end'] - freq * nt) < 2e-9 and freq * nt < s['end']
    worst = 0; exact = 0; first = 0.99 * (s['dt'] if s['sync'] > 1.01 * dtL else min(s['dt'], s['sync'] / 2 ** (groups - 1)))
    szs = [max(np.abs(p(st.ve[..., :dim])).max() for cr in range(cfr) for p in [sols[cr][0][q]]) for q in range(st.nq)]; tot = max(szs)
    for i, x in enumerate(rv):
        raw = open(fs[names[i] + '.csv'][0]).read().split('\n')
        hd = [l for l in raw if l.startswith('#')]; ls = [l for l in raw if l and not l.startswith('#')]
        pr = [min(max(v, l), u) for v, l, u in zip(x[1:1 + dim], s['lo'], s['hi'])] + [0.0] * (3 - dim)
        try:
            g = lambda k: [l.split(':', 1)[1] for l in hd if l.startswith('# ' + k)][0].split()
            okh = g('receiver name') == [names[i]] and np.allclose([float(v) for v in g('specified coordinates')], x[1:], rtol=1e-5, atol=1e-5 * ext) and np.allclose([float(v) for v in g('projected coordinates')], pr, rtol=1e-5, atol=1e-5 * ext) and ls[0] == cols
        except (IndexError, ValueError): okh = False
        if not okh: c.violation(key + '/header', 'header of receiver %s at %s: %s %s' % (names[i], x[1:], hd, ls[:1]), rec, [wd]); return
        rows = [[float(v) for v in l.split(',')] for l in ls[1:]]
        if not (len(rows) == nt or amb and abs(len(rows) - nt) <= 1): c.violation(key + '/count', 'receiver %s: %d samples, expected %d (every %g until %g)' % (names[i], len(rows), nt, freq, s['end']), rec, [wd]); return
        if any(len(w) != 1 + st.nq * cfr or abs(w[0] - k * freq) > 6e-7 for k, w in enumerate(rows)):
            k = [k for k, w in enumerate(rows) if len(w) != 1 + st.nq * cfr or abs(w[0] - k * freq) > 6e-7][0]
            c.violation(key + '/time', 'receiver %s: sample %d is %s, expected time %.9g' % (names[i], k, rows[k][:3], k * freq), rec, [wd]); return
        els = inside(st, pr, dim, el)
        if not len(els): raise RuntimeError('receiver %s outside of all elements' % (x,))
        c.observe('samples', len(rows))
        inner = h[els].min() >= U and not many
        nk = len(rows) if inner else sum(1 for k in range(len(rows)) if k * freq < first)
        for k in range(nk):
            for cr in range(cfr):
                e = [float(p(np.array([pr[:dim]]))[0]) for p in vexact.at(sols[cr], k * freq)]
                for q in range(st.nq):
                    v = rows[k][1 + q * cfr + cr]; di = abs(v - e[q]); exact += 1
                    if not di <= 1.1e-6 * abs(e[q]) + 1e-8 * (szs[q] + 1e-3 * tot):
                        c.violation(key + '/value', 'receiver %s at %s, time %.9g, quantity %d, run %d: %r, exact %r' % (names[i], pr, k * freq, q, cr, v, e[q]), rec, [wd]); return
                    worst = max(worst, di / (abs(e[q]) + 1e-2 * szs[q]))
    c.observe('exact_samples', exact)
    c.case([key, 'recv', s['ns'], groups, U, freq], nontrivial=exact > 0, sample=dict(rec, worst=worst, samples_per_receiver=nt))

# ---- wave field output and error norms

def read_vtk(path):
    """(binary, points, cells, cell types, {name: values}) of a legacy VTK file with an unstructured grid"""
    b = open(path, 'rb').read(); pos = 0
    def line():
        nonlocal pos
        e = b.index(b'\n', pos); l = b[pos:e]; pos = e + 1
        return l.decode()
    def word():
        nonlocal pos
        while b[pos:pos + 1].isspace(): pos += 1
        e = pos
        while e < len(b) and not b[e:e + 1].isspace(): e += 1
        w = b[pos:e].decode(); pos = e
        return w
    def vals(n, t):
        nonlocal pos
        if binary:
            a = np.frombuffer(b, dtype='>f4' if t == 'float' else '>i4', count=n, offset=pos); pos += 4 * n
            return a
        k = b[pos:].split(None, n); r = np.array(k[:n], dtype='f8' if t == 'float' else 'i8')
        pos = len(b) - len(k[n]) if len(k) > n else len(b)
        return r
    if line() != '# vtk DataFile Version 2.0': raise ValueError('first line')
    line(); ty = line(); binary = ty == 'BINARY'
    if ty not in ('BINARY', 'ASCII') or line() != 'DATASET UNSTRUCTURED_GRID': raise ValueError('header')
    def expect(w):
        g = word()
        if g != w: raise ValueError('%s instead of %s' % (g[:40], w))
    def nl():
        nonlocal pos
        pos = b.index(b'\n', pos) + 1
    expect('POINTS'); n = int(word()); expect('float'); nl(); pts = vals(3 * n, 'float').reshape(-1, 3)
    expect('CELLS'); m = int(word()); k = int(word()); nl(); c = vals(k, 'int').reshape(m, -1)
    if (c[:, 0] != c.shape[1] - 1).any(): raise ValueError('sizes of the cells')
    expect('CELL_TYPES')
    if int(word()) != m: raise ValueError('number of cell types')
    nl(); ct = vals(m, 'int'); f = {}
    expect('CELL_DATA')
    if int(word()) != m: raise ValueError('number of cells with data')
    nl()
    while True:
        try: w = word()
        except ValueError: break
        if w == 'SCALARS':
            nm = word(); expect('float'); nl(); expect('LOOKUP_TABLE'); nl(); f[nm] = vals(m, 'float')
        elif w == 'FIELD':
            expect('FieldData'); num = int(word()); nl()
            for _ in range(num):
                nm = word(); expect('1')
                if int(word()) != m: raise ValueError('size of ' + nm)
                expect('float'); nl(); f[nm] = vals(m, 'float')
        elif w == 'POINT_DATA': break
        elif w == '': break
        else: raise ValueError('section ' + w[:40])
    return binary, pts, c[:, 1:], ct, f

VTKT = {'tria3': 5, 'quad4r': 9, 'tet4': 10, 'hex8r': 12}

def output(c, ex, eq, el, order, cfr, tag, key, ranks=1, threads=1):
    rnd = c.rnd; dim = 2 if el in ('tria3', 'quad4r') else 3; nq = {'advection': 1, 'swe': dim + 1}.get(eq, 5 if dim == 2 else 9)
    s = vsim.gen(rnd, eq, el, order, cfr, nels=rnd.choice([60, 120]), groups=1 if eq == 'swe' else None, steps=rnd.choice([6, 16]))
    wd = os.path.join(c.wdir, tag); os.makedirs(wd, exist_ok=True); end = s['end']; k = rnd.random()
    if k < 0.5: it = float('%.9g' % (end * rnd.uniform(0.15, 0.9)))
    elif k < 0.8: it = end / rnd.choice([2, 3, 4, 5])
    else: it = float('%.9g' % (end * rnd.uniform(1.1, 3)))
    nf = int(math.floor((end + 1e-9) / it)) + 1 if it < end else 0
    if rnd.random() < 0.3: s['sync'] = end
    # sparse types: unions of domains
    doms = []; x = ''
    for i in range(rnd.choice([0, 1, 2, 4])):
        hs = []
        for j in range(rnd.choice([1, 1, 2])):
            n = [rnd.uniform(-1, 1) if rnd.random() < 0.7 else 0.0 for _ in range(dim)]
            if not any(n): n[0] = 1.0
            hs.append(([l + (h - l) * rnd.uniform(0.2, 0.8) for l, h in zip(s['lo'], s['hi'])], n))
        t = rnd.choice([1 << rnd.randrange(16, 31), (1 << 17) + (1 << 20), 3 << 16]); doms.append((hs, t))
        x += '<domain>' + ''.join('<half_space><origin>%s</origin><normal>%s</normal></half_space>' % tuple(''.join('<%s>%r</%s>' % ('xyz'[d], v[d], 'xyz'[d]) for d in range(dim)) for v in h) for h in hs) + '<type>%d</type></domain>' % t
    sel = rnd.choice([None] + [t for _, t in doms] + [1 << 17]) if doms else None
    vt = rnd.choice(['vtk_ascii', 'vtk_binary']); wfp = wd + rnd.choice(['/out/wf', '/out//deep.er/my wf', '/./o_1/x.y'])
    ce, L = frame(s); err = None; R = []
    if eq != 'swe' and rnd.random() < 0.8:
        for cr in range(cfr):
            # polynomials in the reach of the quadrature; far away from the values for a constant sign; the initial values
            R.append([vexact.rand_poly(rnd, dim, ce, L, rnd.choice([0, order - (el == 'tet4')]), scale=rnd.choice([1e-2, 1, 1])) for _ in range(nq)])
            if rnd.random() < 0.5:
                for p in R[cr]: p.off = rnd.choice([-1, 1]) * 50.0
        err = (rnd.choice(['file', 'sout', 'sout_file', 'sout_file']), wd + '/err.xml', [''.join('q[%d]:=%s+(%r);' % (q, p.expr(), getattr(p, 'off', 0.0)) for q, p in enumerate(r)) for r in R])
    rc, o, b = vsim.prepare(ex[1], s, wd, ranks); rec = dict(vsim.describe(s), interval=it, type=vt, sparse=sel, domains=len(doms), ranks=ranks, threads=threads, err=err and err[0])
    if rc != 0: c.violation(key + '/edge_v-abnormal', 'EDGE-V: ' + vh.crash_text(rc, o), rec, [wd]); return
    rcs, outs, d = vsim.simulate(ex[0], s, wd, b, 'run', ranks, threads, seed=rnd.randrange(1 << 20), wf=(vt, wfp, it) + ((sel,) if sel is not None else ()), err=err, sptypes='<sparse_types><elements>%s</elements></sparse_types>' % x if doms else '')
    if any(r != 0 for r in rcs):
        i = sorted((r is None, i) for i, r in enumerate(rcs) if r != 0)[0][1]
        c.violation(key + '/abnormal', vh.crash_text(rcs[i], outs[i]) if rcs[i] is not None else 'no progress within the time limit', rec, [wd]); return
    ss = vstate.steps(d + '/dump'); sts = [vstate.read(d + '/dump', i, ranks, el) for i in ss]
    # sparse types of the elements
    st = sts[0]; ex_sp = np.zeros(st.n, 'i8'); amb = np.zeros(st.n, bool)
    for hs, t in doms:
        inn = np.ones(st.n, bool); near = np.zeros(st.n, bool)
        for og, n in hs:
            p = ((st.ve[..., :dim] - og) * n).sum(-1) / np.linalg.norm(n); inn &= (p > 0).all(1); near |= (np.abs(p) < 1e-7).any(1)
        ex_sp[inn & ~near] |= t; amb |= near
    bad = ((st.sp & 0x7fff0000) != ex_sp) & ~amb; c.observe('elements_with_sparse_types', int((ex_sp > 0).sum()))
    if bad.any():
        j = int(np.nonzero(bad)[0][0]); c.violation(key + '/sparse types', 'element at %s has the type %x, expected %x' % (st.ve[j].mean(0).tolist(), st.sp[j] & 0x7fff0000, ex_sp[j]), rec, [wd]); return
    pick = np.ones(st.n, bool) if sel is None else (st.sp & sel) == sel
    import glob
    di, fi = os.path.split(wfp); exp = {}
    if nf:
        for r in range(ranks):
            if (pick & (st.rank == r)).any():
                for q in range(nf): exp[os.path.normpath('%s/%d/%s_%d_%d.vtk' % (di, r, fi, r, q))] = (r, q)
    got = {os.path.normpath(f) for f in glob.glob(di + '/**/*', recursive=True) if os.path.isfile(f)}
    if got != set(exp): c.violation(key + '/files', 'wave field every %g until %g: files %s missing, %s unexpected' % (it, end, sorted(set(exp) - got)[:4], sorted(got - set(exp))[:4]), rec, [wd]); return
    names = {'crun_%d_var_%d' % (cr, q): (cr, q) for cr in range(cfr) for q in range(nq)}; f32 = lambda a: np.asarray(a).astype('f4')
    for f, (r, q) in sorted(exp.items()):
        k = min(range(len(sts)), key=lambda i: abs(sts[i].time - q * it)); st = sts[k]
        if abs(st.time - q * it) > 1e-8: c.violation(key + '/time', 'no synchronization at the output time %.9g (next: %.9g)' % (q * it, st.time), rec, [wd]); return
        try: bi, pts, ce_, ct, fs = read_vtk(f)
        except (ValueError, IndexError) as e: c.violation(key + '/format', '%s is no valid file: %s' % (f, e), rec, [f]); return
        if bi != (vt == 'vtk_binary') or set(fs) != set(names) or (ct != VTKT[el]).any() or ce_.min(initial=0) < 0 or ce_.max(initial=-1) >= len(pts):
            c.violation(key + '/format', '%s: binary %s, fields %s, cell types %s, vertices %s of %d' % (f, bi, sorted(fs)[:4], sorted(set(ct.tolist())), (ce_.min(initial=0), ce_.max(initial=0)), len(pts)), rec, [f]); return
        ids = np.nonzero(pick & (st.rank == r))[0]; can = (lambda v: tuple(map(tuple, v))) if el in ('quad4r', 'hex8r') else (lambda v: tuple(sorted(map(tuple, v))))
        look = {can(f32(st.ve[i]).tolist()): i for i in ids}; co = f32(pts)[ce_]; m = [look.get(can(v.tolist())) for v in co]
        if len(m) != len(ids) or None in m or len(set(m)) != len(ids):
            c.violation(key + '/cells', '%s: %d cells, %d not among the %d selected elements' % (f, len(m), m.count(None), len(ids)), rec, [f]); return
        for n, (cr, qt) in names.items():
            e = f32(st.dofs[m, qt, 0, cr]).astype('f8'); a = np.asarray(fs[n], 'f8'); dd = np.abs(a - e) > 2e-12 * np.abs(e) + 1e-37
            c.observe('values_compared', len(e))
            if dd.any() or not np.isfinite(a).all():
                j = int(dd.argmax()); c.violation(key + '/value', '%s (time %.9g): %s of the element at %s is %r, its average is %r' % (f, st.time, n, co[j].mean(0).tolist(), a[j], e[j]), rec, [f]); return
    c.observe('wave_fields', len(exp))
    # error norms
    if err:
        st = sts[-1]; P, W = quad(el, order + 1); B = vstate.basis(el, order, P); ve = vstate.REFV[el]
        lin = {'tria3': lambda p: np.stack([1 - p.sum(1), p[:, 0], p[:, 1]], 1), 'tet4': lambda p: np.stack([1 - p.sum(1), p[:, 0], p[:, 1], p[:, 2]], 1),
               'quad4r': lambda p: np.stack([(1 - p[:, 0]) * (1 - p[:, 1]), p[:, 0] * (1 - p[:, 1]), p[:, 0] * p[:, 1], (1 - p[:, 0]) * p[:, 1]], 1),
               'hex8r': lambda p: np.stack([(p[:, 0] if v[0] else 1 - p[:, 0]) * (p[:, 1] if v[1] else 1 - p[:, 1]) * (p[:, 2] if v[2] else 1 - p[:, 2]) for v in ve], 1)}[el]
        phys = lambda p: np.einsum('pv,evd->epd', lin(p), st.ve[..., :dim])
        g = [np.array(v, float) for v in ve]; dn = []
        for _ in range(400):
            w = np.array([rnd.expovariate(1) for _ in g]) if el in ('tria3', 'tet4') else None
            dn.append(sum(a * b for a, b in zip(w / w.sum(), g)) if w is not None else np.array([rnd.random() for _ in range(dim)]))
        dn = np.concatenate([np.array(dn), np.array(g), P]); Bd = vstate.basis(el, order, dn); vals = {}; worst = 0
        w = W / W.sum()
        for cr in range(cfr):
            for q in range(nq):
                p = R[cr][q]; off = getattr(p, 'off', 0.0)
                df = np.einsum('em,mp->ep', st.dofs[:, q, :, cr], B) - (p(phys(P)) + off); dd = np.einsum('em,mp->ep', st.dofs[:, q, :, cr], Bd) - (p(phys(dn)) + off)
                e2 = (df ** 2 * w).sum(1); vals[q, cr] = (float((np.abs(df) * w).sum(1).dot(st.vol)) if (dd.min() > 0 or dd.max() < 0) else None, float((df * w).sum(1).__abs__().dot(st.vol)), float(np.sqrt(e2.dot(st.vol))), float(np.sqrt(e2.max())), float(np.abs(dd).max()))
        def norms(get, tol, where):
            for (q, cr), (l1, l1lo, l2, lo, hi) in vals.items():
                g1, g2, gi = get(0, q, cr), get(1, q, cr), get(2, q, cr); c.observe('norms_compared', 3); V = st.vol.sum()
                t = tol * (abs(l2) + 1e-10)
                if (l1 is not None and not abs(g1 - l1) <= tol * (l1 + 1e-10)) or not l1lo * (1 - tol) - 1e-12 <= g1 <= l2 * math.sqrt(V) * (1 + tol) + 1e-12 or not abs(g2 - l2) <= t or not lo * (1 - tol) - 1e-12 <= gi <= hi * 1.1 + 1e-12:
                    c.violation(key + '/norms', '%s, quantity %d, run %d: L1 %r (expected %r, at least %r), L2 %r (expected %r), Linf %r (expected %r to %r)' % (where, q, cr, g1, l1, l1lo, g2, l2, gi, lo, hi), rec, [wd]); return False
            return True
        if err[0] in ('file', 'sout_file'):
            import xml.etree.ElementTree as ET
            try: t = ET.parse(err[1]).getroot(); tab = [[[float(z.text) for z in y] for y in t.find(n)] for n in ('l1', 'l2', 'linf')]
            except (OSError, ET.ParseError, TypeError, AttributeError, ValueError) as e: c.violation(key + '/norms file', repr(e), rec, [wd]); return
            if [len(y) for y in tab] != [nq] * 3 or any(len(z) != cfr for y in tab for z in y): c.violation(key + '/norms file', 'sizes %s' % [[len(z) for z in y] for y in tab], rec, [wd]); return
            if not norms(lambda n, q, cr: tab[n][q][cr], 1e-9, 'file'): return
        elif os.path.exists(err[1]): c.violation(key + '/norms file', 'unexpected file', rec, [wd]); return
        lines = re.findall(r'(L1|L2|Linf) +error, quantity #(\d+), cfr #(\d+): (\S+)', outs[0])
        if err[0] in ('sout', 'sout_file'):
            tab2 = {(['L1', 'L2', 'Linf'].index(a), int(q), int(cr)): float(v) for a, q, cr, v in lines}
            if len(lines) != 3 * nq * cfr or len(tab2) != len(lines): c.violation(key + '/norms log', '%d lines' % len(lines), rec, [wd]); return
            if not norms(lambda *k: tab2[k], 2e-5, 'log'): return
        elif lines: c.violation(key + '/norms log', 'unexpected lines', rec, [wd]); return
    c.case([key, s['ns'], s['groups'], it / end, vt, sel, len(doms), err and err[0], ranks], nontrivial=nf > 0 or err is not None, sample=dict(rec, files=len(exp), cells=int(pick.sum())))
    import shutil; shutil.rmtree(wd, ignore_errors=True)
