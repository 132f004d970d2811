"""Reads dumped states, evaluates them with an independent implementation of the basis, compares them."""
import numpy as np, struct, glob, os, math

def jacobi(n, a, b, x):
    x = np.asarray(x, dtype=float)
    if n == 0: return np.ones_like(x)
    p0, p1 = np.ones_like(x), (a + 1) + (a + b + 2) * (x - 1) / 2
    for k in range(2, n + 1):
        c = 2 * k + a + b
        p0, p1 = p1, ((c - 1) * (c * (c - 2) * x + a * a - b * b) * p1 - 2 * (k + a - 1) * (k + b - 1) * c * p0) / (2 * k * (k + a + b) * (c - 2))
    return p1

def _hom(n, a, x, s):
    """s^n * P_n^{(a,0)}(x/s), stable for s = 0"""
    x, s = np.asarray(x, float), np.asarray(s, float)
    # polynomial in x of degree n, homogenised: interpolate through coefficients
    c = np.polynomial.polynomial.polyfit(np.cos(np.pi * (np.arange(n + 1) + 0.5) / (n + 1)), jacobi(n, a, 0, np.cos(np.pi * (np.arange(n + 1) + 0.5) / (n + 1))), n)
    return sum(c[k] * x ** k * s ** (n - k) for k in range(n + 1))

def basis(el, order, pts):
    """values [mode][point] of the modal basis in reference coordinates pts [point][dim]"""
    p = np.asarray(pts, float)
    leg = lambda n, x: jacobi(n, 0, 0, 2 * x - 1)
    r = []
    if el == 'line':
        r = [leg(i, p[:, 0]) for i in range(order)]
    elif el == 'quad4r':
        r = [leg(b % order, p[:, 0]) * leg(b // order, p[:, 1]) for b in range(order ** 2)]
    elif el == 'hex8r':
        r = [leg(b % order, p[:, 0]) * leg((b % order ** 2) // order, p[:, 1]) * leg(b // order ** 2, p[:, 2]) for b in range(order ** 3)]
    elif el == 'tria3':
        x, y = p[:, 0], p[:, 1]
        for de in range(order):
            for i in range(de + 1):
                j = de - i
                # P_i(2x/(1-y)-1) (1-y)^i P_j^{2i+1}(2y-1)
                r.append(_hom(i, 0, 2 * x - (1 - y), 1 - y) * jacobi(j, 2 * i + 1, 0, 2 * y - 1))
    elif el == 'tet4':
        x, y, z = p[:, 0], p[:, 1], p[:, 2]
        for de in range(order):
            for i in range(de + 1):
                for j in range(de + 1 - i):
                    k = de - i - j
                    s = 1 - y - z
                    t = 1 - z
                    r.append(_hom(i, 0, 2 * x - s, s) * _hom(j, 2 * i + 1, 2 * y - t, t) * jacobi(k, 2 * i + 2 * j + 2, 0, 2 * z - 1))
    return np.array(r)

REFV = {'line': [[0.], [1.]], 'tria3': [[0, 0], [1, 0], [0, 1]], 'quad4r': [[0, 0], [1, 0], [1, 1], [0, 1]],
        'tet4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
        'hex8r': [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}
DIM = {'line': 1, 'tria3': 2, 'quad4r': 2, 'tet4': 3, 'hex8r': 3}
REFVOL = {'line': 1, 'tria3': 0.5, 'quad4r': 1, 'tet4': 1 / 6., 'hex8r': 1}

class State:
    pass

def read(base, step, ranks, el):
    """concatenates the ranks' dumps"""
    parts = []
    for r in range(ranks):
        raw = open('%s.%d.%d' % (base, r, step), 'rb').read()
        time = struct.unpack_from('d', raw, 0)[0]
        n, q, m, c, nve, qa, ty, order, swe, nfa = struct.unpack_from('10q', raw, 8)
        rec = nve * 3 + 2 + q * m * c + qa * m * c + (1 if swe else 0)
        a = np.frombuffer(raw, dtype='f8', offset=88)
        assert a.size == n * rec, (a.size, n, rec)
        parts.append((a.reshape(n, rec), r))
    s = State()
    s.time, s.el, s.order, s.nq, s.nm, s.nc, s.nqa, s.swe = time, el, order, q, m, c, qa, swe
    a = np.concatenate([p for p, _ in parts])
    s.rank = np.concatenate([np.full(len(p), r) for p, r in parts])
    o = nve * 3
    s.ve = a[:, :o].reshape(-1, nve, 3)
    s.vol = a[:, o]
    s.sp = a[:, o + 1].copy().view('i8')
    o += 2
    s.dofs = a[:, o:o + q * m * c].reshape(-1, q, m, c)
    o += q * m * c
    s.adofs = a[:, o:o + qa * m * c].reshape(-1, qa, m, c) if qa else None
    o += qa * m * c
    s.bath = a[:, o] if swe else None
    s.n = len(a)
    return s

def steps(base):
    return sorted(int(f.split('.')[-1]) for f in glob.glob(base + '.0.*'))

def keys(s):
    """key per element: sorted vertex coordinates"""
    return [tuple(sorted(tuple(round(float(x), 7) + 0.0 for x in v) for v in e)) for e in s.ve]

def values(s, which='dofs'):
    """values at canonically ordered interior points: [el][q][pt][cr]"""
    d = DIM[s.el]; rv = np.array(REFV[s.el], float); cen = rv.mean(0)
    pts = cen + 0.6 * (rv - cen)
    pts = np.concatenate([pts, [cen]])
    b = basis(s.el, s.order, pts)          # [mode][pt]
    dofs = s.dofs if which == 'dofs' else s.adofs
    v = np.einsum('eqmc,mp->eqpc', dofs, b)
    # canonical order of the points: order of the vertices by coordinates
    nve = len(rv)
    res = np.empty_like(v)
    for e in range(s.n):
        k = sorted(range(nve), key=lambda i: tuple(np.round(s.ve[e, i], 7)))
        res[e] = v[e][:, k + [nve], :]
    return res

def compare(a, b, fields=('dofs', 'adofs')):
    """largest difference, relative to the largest absolute value of the quantity. Returns (diff, text or None)"""
    ka, kb = keys(a), keys(b)
    if len(set(ka)) != len(ka): return float('inf'), 'duplicate elements'
    if sorted(ka) != sorted(kb): return float('inf'), 'different sets of elements: %d vs %d' % (len(ka), len(kb))
    ib = {k: i for i, k in enumerate(kb)}
    pe = np.array([ib[k] for k in ka])
    worst, txt = 0.0, None
    for f in fields:
        if getattr(a, f) is None: continue
        va, vb = values(a, f), values(b, f)[pe]
        if not np.all(np.isfinite(va)) or not np.all(np.isfinite(vb)):
            if np.array_equal(np.isfinite(va), np.isfinite(vb)): return float('nan'), '%s: non-finite in both' % f
            return float('inf'), '%s: non-finite values' % f
        sc = np.maximum(np.abs(va).max(), np.abs(vb).max()) + 1e-300
        di = np.abs(va - vb) / sc
        if di.max() > worst:
            i = np.unravel_index(di.argmax(), di.shape)
            worst = float(di.max())
            txt = '%s of element at %s (quantity %d, run %d): %r vs %r' % (f, np.round(a.ve[i[0]].mean(0), 5).tolist(), i[1], i[3], va[i], vb[i])
    return worst, txt
