"""Random simulation scenarios (mesh, boundaries, material, initial values, time groups) and their execution."""
import os, math, random, json, shutil
import numpy as np
import vmesh, vrun, vstate

FS, OUT, PER, REFL = 101, 105, 106, 101

def in_dias(mesh):
    """in-diameters by an implementation of our own"""
    el = mesh['el']
    x = {n[0]: np.array(n[1:4]) for n in mesh['nodes']}
    r = []
    for e in mesh['els']:
        v = [x[n] for n in e]
        if el == 'tria3':
            a, b, c = [np.linalg.norm(v[i] - v[j]) for i, j in ((0, 1), (1, 2), (2, 0))]
            s = (a + b + c) / 2
            r.append(2 * math.sqrt(max(s * (s - a) * (s - b) * (s - c), 0)) / s)
        elif el == 'tet4':
            vol = abs(np.dot(np.cross(v[1] - v[0], v[2] - v[0]), v[3] - v[0])) / 6
            ar = sum(np.linalg.norm(np.cross(v[j] - v[i], v[k] - v[i])) / 2 for i, j, k in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)))
            r.append(6 * vol / ar)
        elif el == 'quad4r': r.append(min(np.linalg.norm(v[1] - v[0]), np.linalg.norm(v[2] - v[1])))
        else: r.append(min(np.linalg.norm(v[1] - v[0]), np.linalg.norm(v[3] - v[0]), np.linalg.norm(v[4] - v[0])))
    return r

def fexpr(rnd, lo, hi, dim, per, smooth=True):
    """random expression in the coordinates, periodic along periodic dimensions"""
    t = []
    for d in range(dim):
        w = 2 * math.pi / (hi[d] - lo[d])
        v = 'xyz'[d]
        if per[d] or smooth: t.append('%.6f*%s(%.12f*(%s-(%.9f)))' % (rnd.uniform(-1, 1), rnd.choice(['sin', 'cos']), w * rnd.choice([1, 1, 2]), v, lo[d]))
        else: t.append('%.6f*(%s-(%.9f))/%.9f' % (rnd.uniform(-1, 1), v, lo[d], hi[d] - lo[d]))
    if rnd.random() < 0.5 and dim > 1: t = ['(%s)*(%s)' % (t[0], t[1])] + t[2:]
    return '%.6f' % rnd.uniform(-1, 1) + ''.join('+' + x for x in t)

def gen(rnd, eq, el, order, cfr=1, nels=120, groups=None, bnds=None, mats=None, per=None, grade=None, perturb=None, steps=24, fdt=None):
    dim = 2 if el in ('tria3', 'quad4r') else 3
    fac = {'tria3': 2, 'quad4r': 1, 'tet4': 6, 'hex8r': 1}[el]
    m = (nels / fac) ** (1. / dim)
    ns = [max(3, int(round(m * rnd.uniform(0.75, 1.3)))) for _ in range(dim)]
    # scale of the domain
    sc = rnd.choice([1.0, 10.0])
    lo = [round(rnd.uniform(-1, 1) * sc, 3) for _ in range(dim)]
    hi = [round(l + sc * rnd.uniform(0.7, 1.4), 3) for l in lo]
    if grade is None: grade = [rnd.choice([1, 3, 6]) for _ in range(dim)]
    if perturb is None: perturb = rnd.choice([0.0, 0.15, 0.25]) if el in ('tria3', 'tet4') else 0.0
    if per is None: per = [rnd.random() < 0.4 for _ in range(dim)]
    opts = {'advection': [OUT], 'swe': [REFL, OUT]}.get(eq, [FS, OUT])
    bt = {}
    for d in range(dim):
        for s in (0, 1): bt[d, s] = PER if per[d] else (bnds[d][s] if bnds else rnd.choice(opts))
    mesh = vmesh.box_min(el, ns, lo, hi, lambda d, s: bt[d, s], rnd, perturb=perturb, grade=grade)
    s = dict(eq=eq, el=el, order=order, cfr=cfr, dim=dim, ns=ns, lo=lo, hi=hi, per=per, bt={'%d%d' % k: v for k, v in bt.items()}, grade=grade, perturb=perturb, nels=len(mesh['els']))
    s['mesh'] = mesh
    nq = {'advection': 1, 'swe': dim + 1}.get(eq, 5 if dim == 2 else 9)
    s['groups'] = groups if groups is not None else rnd.choice([1, 2, 3, 3, 4])
    s['fdt'] = fdt if fdt is not None else rnd.choice([1.0, 0.9, 0.77, 0.6])
    # material: list of (axis, position) layered half spaces
    nm = mats if mats is not None else rnd.choice([1, 2, 2])
    ms = []
    for i in range(nm):
        vs = rnd.uniform(0.8, 2.0); vp = vs * rnd.uniform(1.6, 2.1); rho = rnd.uniform(0.8, 1.5)
        ms.append(dict(rho=rho, mu=rho * vs * vs, lam=rho * (vp * vp - 2 * vs * vs), vp=vp, vs=vs, qp=rnd.uniform(30, 100), qs=rnd.uniform(15, 60)))
    s['mats'] = ms
    s['cut'] = (rnd.randrange(dim), 0.5)
    s['pos'] = lo[s['cut'][0]] + (hi[s['cut'][0]] - lo[s['cut'][0]]) * s['cut'][1]
    s['init'] = []
    for c in range(cfr):
        if eq == 'swe':
            h = '2.0+0.3*(%s)' % fexpr(rnd, lo, hi, dim, per)
            s['init'].append('q[0]:=%s;' % h + ''.join('q[%d]:=0.2*(%s);' % (i, fexpr(rnd, lo, hi, dim, per)) for i in range(1, nq)))
        else: s['init'].append(''.join('q[%d]:=%s;' % (i, fexpr(rnd, lo, hi, dim, per, rnd.random() < 0.7)) for i in range(nq)))
    vmax = 1.5 if eq == 'advection' else max(m['vp'] for m in ms)
    if eq == 'swe': vmax = 6.0
    dt = min(in_dias(mesh)) * 0.5 / (vmax * (2 * order - 1)) * s['fdt']
    s['dt'] = dt
    s['end'] = float('%.6g' % (dt * steps * rnd.uniform(0.7, 1.3)))
    s['sync'] = float('%.6g' % (s['end'] * rnd.choice([1.0, 0.37, 0.51, 0.23])))
    # relaxation rates stay well below the explicit limit of the largest time step
    s['att'] = (float('%.6g' % (0.4 / (2 * math.pi * 10 * dt * 2 ** (s['groups'] - 1)))), 100.0)
    return s

def describe(s):
    return {k: s[k] for k in ('eq', 'el', 'order', 'cfr', 'ns', 'nels', 'grade', 'perturb', 'per', 'bt', 'groups', 'fdt', 'end', 'sync')}

def domains(s):
    if s['eq'] in ('advection', 'swe'): return None
    r = []
    pars = lambda m: dict([('rho', m['rho']), ('lambda', m['lam']), ('mu', m['mu'])] + ([('qp', m['qp']), ('qs', m['qs'])] if s['eq'].startswith('visco') else []))
    a = s['cut'][0]
    n = [0., 0., 0.]; n[a] = 1.0
    if len(s['mats']) == 2:
        o = [0., 0., 0.]; o[a] = s['pos']
        r.append(([(o, n)], pars(s['mats'][0])))
    o = [0., 0., 0.]; o[a] = s['lo'][a] - 10.0
    r.append(([(o, n)], pars(s['mats'][-1])))
    return r

def vel_expr(s):
    if s['eq'] in ('advection', 'swe'): return 'vp:=1;vs:=1;'
    a = 'xyz'[s['cut'][0]]
    m = s['mats']
    if len(m) == 1: return 'vp:=%.12f;vs:=%.12f;' % (m[0]['vp'], m[0]['vs'])
    # the slower time step is decided by the faster material
    return 'vp:=if(%s&gt;%.12f,%.12f,%.12f);vs:=if(%s&gt;%.12f,%.12f,%.12f);' % (a, s['pos'], m[0]['vp'], m[1]['vp'], a, s['pos'], m[0]['vs'], m[1]['vs'])

BN = {'advection': {'outflow': OUT}, 'swe': {'reflecting': REFL, 'outflow': OUT}}

def boundary(s):
    b = dict(BN.get(s['eq'], {'free_surface': FS, 'outflow': OUT}))
    if any(s['per']): b['periodic'] = PER
    return b

def prepare(exe_v, s, wd, parts, name='m', groups=None, fdt=None, threads=2):
    """EDGE-V: mesh with the given number of partitions. Returns (rc, output, base)"""
    i = os.path.join(wd, 'in.msh')
    if not os.path.exists(i): vmesh.write(s['mesh'], i)
    base = os.path.join(wd, '%s%d' % (name, parts))
    rc, o = vrun.run_edge_v(exe_v, wd, 'v_%s%d' % (name, parts), threads=threads, inp=i, base=base, n_parts=parts, n_groups=groups or s['groups'], fdt=fdt or s['fdt'],
                            periodic=PER if any(s['per']) else None, seismic=vel_expr(s))
    return rc, o, base

def simulate(exe, s, wd, base, tag, ranks=1, threads=1, seed=1, mdelay=0, wdelay=0, recv=None, trace=False, sep=None, dump=True, sync=None, end=None, init=None, env=None, limit=None, **kw):
    """EDGE. Returns (rcs, outs, directory)"""
    d = os.path.join(wd, tag)
    os.makedirs(d, exist_ok=True)
    vrun.edge_xml(d + '/e.xml', base, boundary=boundary(s), domains=domains(s), init=init or s['init'], end=end or s['end'], sync=sync if sync is not None else s['sync'],
                  recv=(d + (recv[2] if len(recv) > 2 else '/recv'), recv[0], recv[1]) if recv else None, att=kw.pop('att', s['att']) if s['eq'].startswith('visco') else None, sep=sep, **kw)
    e = {'VH_DELAY': str(wdelay), 'VH_SEED': str(seed), 'VMPI_LOG': d + '/mpi'}
    if trace: e['VH_TRACE'] = d + '/trace'
    if env: e.update(env)
    rcs, outs = vrun.run_edge(exe, d, d + '/e.xml', ranks, threads, seed, mdelay, dump=d + '/dump' if dump else None, env=e, limit=limit)
    return rcs, outs, d

def mpi_stats(d, ranks):
    t = dict(sends=0, recvs=0, bytes=0, delayed_recv=0, late_send=0)
    for r in range(ranks):
        p = d + '/mpi.%d' % r
        if os.path.exists(p):
            j = json.load(open(p))
            for k in t: t[k] += j[k]
    return t
