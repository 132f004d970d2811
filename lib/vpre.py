"""Independent oracle for the data of EDGEpre: basis, quadrature and geometry of the reference elements and of their sub-grids."""
import os, itertools
import numpy as np
import vstate

EL = {'line': 'Line', 'tria3': 'Tria', 'quad4r': 'Quad', 'tet4': 'Tet', 'hex8r': 'Hex'}
DIM = vstate.DIM
FV = {'line': [[0], [1]], 'tria3': [[0, 1], [1, 2], [2, 0]], 'quad4r': [[0, 1], [1, 2], [2, 3], [3, 0]],
      'tet4': [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]],
      'hex8r': [[0, 3, 2, 1], [0, 1, 5, 4], [1, 2, 6, 5], [3, 7, 6, 2], [0, 4, 7, 3], [4, 5, 6, 7]]}
# faces of the sub-cells: vertices of hexahedral sub-cells are ordered dimension-wise
SFV = dict(FV, hex8r=[[0, 2, 3, 1], [0, 1, 5, 4], [1, 3, 7, 5], [2, 6, 7, 3], [0, 4, 6, 2], [4, 5, 7, 6]])
FA = {'tria3': 'line', 'quad4r': 'line', 'tet4': 'tria3', 'hex8r': 'quad4r'}
# positions of the adjacent element's face vertices
VS = {'tria3': [1], 'quad4r': [1], 'tet4': [0, 1, 2], 'hex8r': [0, 1, 2, 3]}
NV = {'tria3': 2, 'quad4r': 2, 'tet4': 3, 'hex8r': 4}
REFV = {k: np.array(v, float) for k, v in vstate.REFV.items()}

def quad(el, n):
    x, w = np.polynomial.legendre.leggauss(n); x, w = (x + 1) / 2, w / 2
    P, W = [], []
    d = DIM[el]
    for ii in itertools.product(range(n), repeat=d):
        p = [x[i] for i in ii]; q = np.prod([w[i] for i in ii])
        if el == 'tria3': q *= 1 - p[1]; p = [p[0] * (1 - p[1]), p[1]]
        if el == 'tet4': q *= (1 - p[1]) * (1 - p[2]) ** 2; p = [p[0] * (1 - p[1]) * (1 - p[2]), p[1] * (1 - p[2]), p[2]]
        P.append(p); W.append(q)
    return np.array(P), np.array(W)

def faceMap(el, f, chi):
    """face coordinates -> reference coordinates"""
    v = REFV[el][FV[el][f]]
    if el == 'line': return np.array([v[0]])
    chi = np.asarray(chi, float)
    r = v[0] + np.outer(chi[:, 0], v[1] - v[0])
    if chi.shape[1] == 2: r = r + np.outer(chi[:, 1], v[-1] - v[0])
    return r

def faceVerts(el):
    return {2: [[0.], [1.]], 3: [[0, 0], [1, 0], [0, 1]], 4: [[0, 0], [1, 0], [1, 1], [0, 1]]}[NV[el]]

def mirror(el, v, chi):
    """face coordinates -> face coordinates of the adjacent element, whose face vertex v is on top of our first vertex"""
    fv = np.array(faceVerts(el), float); n = len(fv)
    t = fv[[(v - j) % n for j in range(n)]]
    chi = np.asarray(chi, float)
    r = t[0] + np.outer(chi[:, 0], t[1] - t[0])
    if chi.shape[1] == 2: r = r + np.outer(chi[:, 1], t[-1] - t[0])
    return r

def gradient(el, order, pts):
    h = 0.1; r = []
    co = {1: 4 / 5., 2: -1 / 5., 3: 4 / 105., 4: -1 / 280.}
    for d in range(DIM[el]):
        s = 0
        for k, c in co.items():
            e = np.zeros(DIM[el]); e[d] = k * h
            s = s + c * (vstate.basis(el, order, pts + e) - vstate.basis(el, order, pts - e)) / h
        r.append(s)
    return r

def dg(el, deg):
    """mass, stiffT, stiffV, fluxL, fluxN, fluxT"""
    o = deg + 1
    P, W = quad(el, o + 2)
    B = vstate.basis(el, o, P); G = gradient(el, o, P)
    M = (B * W) @ B.T; Mi = np.linalg.inv(M)
    st = [(B * W) @ g.T for g in G] # [i][j] = int phi_i d phi_j
    r = dict(mass=M, stiffT=np.array([s.T @ Mi for s in st]), stiffV=np.array([s @ Mi for s in st]))
    nf = len(FV[el])
    if el == 'line':
        ev = [vstate.basis(el, o, faceMap(el, f, None)) for f in range(2)]
        r['fluxL'] = np.array(ev); r['fluxN'] = np.array(ev); r['fluxT'] = np.array([e.T @ Mi for e in ev])
        return r
    fe = FA[el]
    p, w = quad(fe, o + 2)
    F = vstate.basis(fe, o, p); Mf = (F * w) @ F.T
    tr = lambda f, c: (vstate.basis(el, o, faceMap(el, f, c)) * w) @ F.T
    r['fluxL'] = np.array([tr(f, p) for f in range(nf)])
    vs = VS[el] if el != 'hex8r' else [0]
    r['fluxN'] = np.array([tr(f, mirror(el, v, p)) for v in vs for f in range(nf)])
    r['fluxT'] = np.array([(tr(f, p) @ np.linalg.inv(Mf)).T @ Mi for f in range(nf)])
    return r

def read(path):
    """csv of EDGEpre -> array with two or three dimensions"""
    s = open(path).read()
    b = s.split('\n\n') if '\n\n' in s else [s]
    bl = [[[float(v) for v in l.split(',') if v] for l in x.split('\n') if l] for x in b]
    bl = [x for x in bl if x]
    a = np.array(bl)
    return a if '\n\n' in s else a[0]

def cell(el, v):
    """linear map of a sub-cell with the given vertices: origin and Jacobian"""
    v = np.asarray(v, float)
    if el == 'line': return v[0], (v[1:2] - v[0]).T
    if el == 'tria3': return v[0], (v[1:3] - v[0]).T
    if el == 'quad4r': return v[0], np.array([v[1] - v[0], v[3] - v[0]]).T
    if el == 'tet4': return v[0], (v[1:4] - v[0]).T
    return v[0], np.array([v[1] - v[0], v[2] - v[0], v[4] - v[0]]).T

NORM = {'line': [[-1], [1]], 'tria3': [[0, -1], [1, 1], [-1, 0]], 'quad4r': [[0, -1], [1, 0], [0, 1], [-1, 0]],
        'tet4': [[0, 0, -1], [0, -1, 0], [-1, 0, 0], [1, 1, 1], [1, 1, 0], [1, 0, 1]],
        'hex8r': [[0, 0, -1], [0, -1, 0], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, 0, 1]]}

def onFace(el, f, pts):
    n = np.array(NORM[el][f], float); r = REFV[el][FV[el][f][0]]
    return all(abs(n @ (np.asarray(p) - r)) < 1e-9 for p in pts)

def subgrid(el, deg, D, fail):
    """checks svs, scsv (inner, send, recv), scsfsc, sctysf, scdgad; returns the geometry of the sub-cells"""
    d, ns, nf = DIM[el], 2 * deg + 1, len(FV[el])
    sv = np.array(D['svs'], float).reshape(-1, d)
    IN, SE, RE = [[[int(x) for x in c] for c in D['scsv'][k]] for k in range(3)]
    cells = IN + SE
    ns1 = ns ** (d - 1); n = ns ** d
    # vertices: the lattice
    lat = [p for p in itertools.product(range(ns + 1), repeat=d) if el not in ('tria3', 'tet4') or sum(p) <= ns]
    got = sorted(tuple(int(round(x * ns)) for x in p) for p in sv)
    if got != sorted(lat) or np.abs(sv * ns - np.round(sv * ns)).max() > 1e-9: fail('svs', 'vertices of the sub-grid are not the lattice with %d intervals per edge' % ns); return None
    if len(cells) != n or len(RE) != nf * ns1: fail('counts', '%d sub-cells (expected %d), %d receive sub-cells (expected %d)' % (len(cells), n, len(RE), nf * ns1)); return None
    bad = [c for c in cells if len(c) != len(REFV[el]) or len(set(c)) != len(c) or min(c) < 0 or max(c) >= len(sv)]
    if bad: fail('scsv', 'sub-cell with invalid vertices %s' % bad[0]); return None
    geo = [cell(el, sv[c]) for c in cells]
    vols = [np.linalg.det(g[1]) for g in geo]
    if max(abs(v * n - 1) for v in vols) > 1e-9: fail('volume', 'relative volume of sub-cell %d is %r of the expected one' % (int(np.argmax([abs(v * n - 1) for v in vols])), max(vols, key=lambda v: abs(v * n - 1)) * n))
    # every further vertex follows the linear map
    for i, c in enumerate(cells):
        rv = REFV[el] if el != 'hex8r' else np.array([[a & 1, a >> 1 & 1, a >> 2 & 1] for a in range(8)], float)
        if np.abs(geo[i][0] + rv @ geo[i][1].T - sv[c]).max() > 1e-9: fail('shape', 'vertices of sub-cell %d are not in the order of the reference element: %s' % (i, sv[c].tolist())); break
    # faces: every face is shared by exactly two (sub-cell or receive sub-cell)
    faces = {}
    for i, c in enumerate(cells):
        for f, fv in enumerate(SFV[el]): faces.setdefault(frozenset(c[v] for v in fv), []).append(i)
    for i, c in enumerate(RE):
        k = frozenset(v for v in c if v != -1)
        if k not in faces: fail('recv', 'receive sub-cell %d has the vertices %s, which are no face of a sub-cell' % (i, c)); return None
        faces[k].append(n + i)
    for k, v in faces.items():
        if len(v) != 2: fail('conform', 'face %s is shared by the sub-cells %s' % (sorted(k), v)); return None
    # inner/send classification
    for i, c in enumerate(cells):
        bnd = [f for f in range(nf) if any(onFace(el, f, sv[[c[v] for v in fv]]) for fv in SFV[el])]
        if bool(bnd) != (i >= len(IN)): fail('inner', 'sub-cell %d of %d inner ones is at the faces %s of the element' % (i, len(IN), bnd))
    # adjacency
    adj = [[int(x) for x in c] for k in range(3) for c in D['scsfsc'][k]]
    if [len(x) for x in D['scsfsc']] != [len(IN), len(SE), len(RE)]: fail('scsfsc', 'size of the adjacency'); return None
    for i, c in enumerate(cells):
        exp = [[x for x in faces[frozenset(c[v] for v in fv)] if x != i][0] for fv in SFV[el]]
        if adj[i] != exp: fail('scsfsc', 'sub-cells adjacent to sub-cell %d (faces as bridge) are %s, expected %s' % (i, adj[i], exp)); break
    send = {}
    # receive sub-cells: order of the element's face coordinates
    for f in range(nf):
        for k in range(ns1):
            c = RE[f * ns1 + k]; vs = sv[[v for v in c if v != -1]]
            x = subface(el, f, k, ns)
            if np.abs(vs.mean(0) - x).max() > 1e-9: fail('recvorder', 'receive sub-cell %d of face %d has the face center %s, expected %s' % (k, f, vs.mean(0).tolist(), x.tolist())); break
        for k in range(ns1):
            c = RE[f * ns1 + k]
            s = [x for x in faces[frozenset(v for v in c if v != -1)] if x < n][0]
            send[f, k] = s
            a = adj[n + f * ns1 + k]
            if a[0] != s or any(x != -1 for x in a[1:]): fail('scsfsc', 'receive sub-cell %d of face %d is adjacent to %s, expected %d' % (k, f, a, s)); break
    # types of the faces
    ty = [[int(x) for x in c] for k in range(2) for c in D['sctysf'][k]]
    if len(ty) != n: fail('sctysf', 'number of sub-cells')
    else:
        nn = len(NORM[el])
        for i, c in enumerate(cells):
            ce = sv[c].mean(0); exp = []
            for fv in SFV[el]:
                p = sv[[c[v] for v in fv]]
                if d == 1: o = np.sign(p[0] - ce)
                elif d == 2: t = p[1] - p[0]; o = np.array([t[1], -t[0]])
                else: o = np.cross(p[1] - p[0], p[2] - p[0])
                o = o / np.linalg.norm(o)
                if o @ (p.mean(0) - ce) < 0: o = -o
                m = [(j, s) for j in range(nn) for s in (1, -1) if np.abs(s * np.array(NORM[el][j]) / np.linalg.norm(NORM[el][j]) - o).max() < 1e-9]
                m.sort(key=lambda x: -x[1])
                dgf = [f for f in range(nf) if onFace(el, f, p)]
                if not m: exp.append(None)
                elif dgf: exp.append(dgf[0])
                else: exp.append(2 * nf + m[0][0] + (nn if m[0][1] < 0 else 0))
            if ty[i] != exp: fail('sctysf', 'types of the faces of sub-cell %d (vertices %s) are %s, expected %s' % (i, sv[c].tolist(), ty[i], exp)); break
    # reordering of the sub-faces
    if D.get('scdgad') is not None:
        ad = [[int(x) for x in r] for r in D['scdgad']]
        if el == 'line': exp = [[0]]
        else: exp = [perm(el, v, ns) for v in VS[el]]
        if ad != exp: fail('scdgad', 'reordering of the sub-faces %s, expected %s' % (ad, exp))
    return dict(geo=geo, send=send, ns1=ns1, n=n, nf=nf)

def subtri(el, ns):
    """centers of the sub-faces in face coordinates, in the order of the sub-faces"""
    if NV.get(el, 1) == 1: return None
    if NV[el] == 2: return np.array([[(k + .5) / ns] for k in range(ns)])
    if NV[el] == 4: return np.array([[(a + .5) / ns, (b + .5) / ns] for b in range(ns) for a in range(ns)])
    r = []
    for b in range(ns):
        for a in range(ns - b):
            r.append([(a + 1 / 3.) / ns, (b + 1 / 3.) / ns])
            if a < ns - b - 1: r.append([(a + 2 / 3.) / ns, (b + 2 / 3.) / ns])
    return np.array(r)

def subface(el, f, k, ns):
    return faceMap(el, f, None)[0] if el == 'line' else faceMap(el, f, subtri(el, ns)[k:k + 1])[0]

def perm(el, v, ns):
    c = subtri(el, ns); m = mirror(el, v, c)
    return [int(np.argmin(np.abs(c - x).sum(1))) for x in m]

def subfaceQuad(el, k, ns, n):
    """quadrature rule of sub-face k in face coordinates"""
    if NV[el] in (2, 4):
        p, w = quad('line' if NV[el] == 2 else 'quad4r', n)
        o = subtri(el, ns)[k] - .5 / ns
        return o + p / ns, w / ns ** p.shape[1]
    p, w = quad('tria3', n); c = subtri(el, ns)[k]
    up = abs((c * ns) % 1 - 1 / 3.).max() < 1e-6
    o = np.round((c - (1 / 3. if up else -1 / 3.) / ns) * ns) / ns
    return (o + p / ns if up else o - p / ns), w / ns ** 2

def average(el, deg, g):
    """averages of the basis in the sub-cell"""
    P, W = quad(el, deg + 3)
    return vstate.basis(el, deg + 1, g[0] + P @ g[1].T) @ W / W.sum()

def subcell(el, deg, S):
    """scatter, scattersurf, gather, sfint for the checked sub-grid"""
    ns = 2 * deg + 1; r = {}
    avg = np.array([average(el, deg, g) for g in S['geo']]).T # [mode][sub-cell]
    r['scatter'] = avg
    ss = [avg[:, [S['send'][f, k] for k in range(S['ns1'])]] for f in range(S['nf'])]
    pm = [[0]] if el == 'line' else [perm(el, v, ns) for v in VS[el]]
    for p in pm:
        for f in range(S['nf']): ss.append(avg[:, [S['send'][f, k] for k in p]])
    r['scattersurf'] = np.array(ss)
    # constrained least squares; all sub-cells have the same volume
    nb, n = avg.shape
    P, W = quad(el, deg + 3); ib = vstate.basis(el, deg + 1, P) @ W / W.sum()
    K = np.zeros((nb + 1, nb + 1)); K[:nb, :nb] = 2 * avg @ avg.T; K[nb, :nb] = K[:nb, nb] = ib
    R = np.zeros((nb + 1, n)); R[:nb] = 2 * avg; R[nb] = 1. / n
    r['gather'] = np.linalg.solve(K, R)[:nb].T
    P, W = quad(el, deg + 3); B = vstate.basis(el, deg + 1, P); Mi = np.linalg.inv((B * W) @ B.T)
    sf = []
    for f in range(S['nf']):
        if el == 'line': sf.append(vstate.basis(el, deg + 1, faceMap(el, f, None)).T @ Mi); continue
        rows = []
        for k in range(S['ns1']):
            p, w = subfaceQuad(el, k, ns, deg + 3)
            rows.append(vstate.basis(el, deg + 1, faceMap(el, f, p)) @ w)
        sf.append(np.array(rows) @ Mi)
    r['sfint'] = np.array(sf)
    return r

def close(a, b, tol=1e-9):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape: return 'shape %s, expected %s' % (a.shape, b.shape)
    e = np.abs(a - b); s = 1 + np.abs(b).max() if b.size else 1
    if not (e <= tol * s).all():
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
        return 'entry %s is %r, expected %r' % (list(map(int, i)), float(a[i]), float(b[i]))
    return None

def check_csv(el, deg, dgdir, scdir, fail, stat):
    """the csv files of an element type and degree"""
    nm = lambda root, n: '%s/%s/%d/%s_%d_%s.csv' % (root, el, deg, el, deg, n)
    exp = dg(el, deg)
    def cmp(path, n, e):
        if not os.path.exists(path): fail(n, 'no file was written'); return
        try: a = read(path)
        except ValueError as x: fail(n, 'unreadable: %s' % x); return
        m = close(a, e)
        stat('entries', int(np.asarray(e).size))
        if m: fail(n, m)
    for n, e in exp.items(): cmp(nm(dgdir, n), n, e)
    try:
        v = {n: read(nm(scdir, n)) for n in ('svcrds',)}
        rows = lambda n: [[int(x) for x in l.split(',') if x] for l in open(nm(scdir, n)).read().split('\n') if l]
        sv, fc, ty = rows('scsv'), rows('scsfsc'), rows('sctysf')
        ad = rows('scdgad')
    except (OSError, ValueError) as x: fail('subgrid', 'files are missing or unreadable: %s' % x); return
    ns = 2 * deg + 1; n = ns ** DIM[el]
    # number of inner sub-cells: those without a face at the element's faces
    ni = inner(el, ns)
    D = dict(svs=v['svcrds'], scsv=[sv[:ni], sv[ni:n], sv[n:]], scsfsc=[fc[:ni], fc[ni:n], fc[n:]], sctysf=[ty[:ni], ty[ni:]], scdgad=ad)
    S = subgrid(el, deg, D, fail)
    stat('subcells', n)
    if S is None: return
    for k, e in subcell(el, deg, S).items(): cmp(nm(scdir, k), k, e)

def inner(el, ns):
    if ns == 1: return 0
    if el in ('line', 'quad4r', 'hex8r'): return (ns - 2) ** DIM[el]
    if el == 'tria3': return ns ** 2 - 3 * ns + 3
    return ns ** 3 - 4 * ns ** 2 + 6 * ns - 4
