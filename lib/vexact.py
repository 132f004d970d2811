"""Exact polynomial solutions of the linear hyperbolic equations and their comparison with dumped states."""
import itertools, math
import numpy as np
import vstate

class Poly:
    """polynomial in ((x-c)/L): dict exponent tuple -> coefficient"""
    def __init__(self, dim, c, L, t=None): self.dim, self.c, self.L, self.t = dim, c, L, dict(t or {})
    def new(self, t): return Poly(self.dim, self.c, self.L, t)
    def d(self, a):
        r = {}
        for e, v in self.t.items():
            if e[a]:
                f = list(e); f[a] -= 1; r[tuple(f)] = r.get(tuple(f), 0) + v * e[a] / self.L
        return self.new(r)
    def axpy(self, s, o):
        if s == 0: return
        for e, v in o.t.items(): self.t[e] = self.t.get(e, 0) + s * v
    def __call__(self, x):
        x = (np.asarray(x) - np.asarray(self.c)) / self.L
        r = np.zeros(x.shape[:-1])
        for e, v in self.t.items():
            m = np.full(x.shape[:-1], v)
            for a in range(self.dim):
                if e[a]: m = m * x[..., a] ** e[a]
            r += m
        return r
    def expr(self):
        t = []
        for e, v in self.t.items():
            m = '(%r)' % float(v)
            for a in range(self.dim): m += ('*((%s-(%r))/%r)' % ('xyz'[a], float(self.c[a]), float(self.L))) * e[a]
            t.append(m)
        return '+'.join(t) if t else '0'

def elastic_jac(dim, rho, lam, mu):
    """A_d with q_t + sum A_d q_{x_d} = 0; 3D: sxx syy szz sxy syz sxz u v w; 2D: sxx syy sxy u v"""
    l2 = lam + 2 * mu
    if dim == 2:
        A = [np.zeros((5, 5)) for _ in range(2)]
        sxx, syy, sxy, u, v = range(5)
        A[0][sxx, u] = -l2; A[0][syy, u] = -lam; A[0][sxy, v] = -mu; A[0][u, sxx] = -1 / rho; A[0][v, sxy] = -1 / rho
        A[1][sxx, v] = -lam; A[1][syy, v] = -l2; A[1][sxy, u] = -mu; A[1][u, sxy] = -1 / rho; A[1][v, syy] = -1 / rho
        return A
    A = [np.zeros((9, 9)) for _ in range(3)]
    S = [[0, 3, 5], [3, 1, 4], [5, 4, 2]]
    for d in range(3):
        for i in range(3):
            A[d][6 + i, S[i][d]] -= 1 / rho            # momentum
            A[d][i, 6 + d] -= (l2 if i == d else lam)  # diagonal stresses
        for i, j in ((0, 1), (1, 2), (0, 2)):
            # sigma_ij_t = mu (u_i,j + u_j,i)
            if d == j: A[d][S[i][j], 6 + i] -= mu
            if d == i: A[d][S[i][j], 6 + j] -= mu
    return A

def taylor(A, q0):
    """time derivatives [k][q] of the solution at t=0"""
    out, n = [q0], len(q0)
    while any(p.t for p in out[-1]) and len(out) < 12:
        nx = []
        for i in range(n):
            r = q0[0].new({})
            for a in range(q0[0].dim):
                for j in range(n):
                    if A[a][i, j] != 0: r.axpy(-A[a][i, j], out[-1][j].d(a))
            r.t = {e: v for e, v in r.t.items() if v != 0}
            nx.append(r)
        out.append(nx)
    return out

def at(ta, t):
    """solution at time t"""
    n = len(ta[0]); r = [ta[0][0].new({}) for _ in range(n)]
    for k, ds in enumerate(ta):
        for i in range(n): r[i].axpy(t ** k / math.factorial(k), ds[i])
    return r

def rand_poly(rnd, dim, c, L, deg, tensor=False, scale=1.0):
    t = {}
    for e in itertools.product(range(deg + 1), repeat=dim):
        if sum(e) <= deg or tensor: t[e] = rnd.uniform(-1, 1) * scale
    return Poly(dim, c, L, t)

def elpts(st):
    """physical coordinates of the canonical points of vstate.values"""
    rv = np.array(vstate.REFV[st.el], float); cen = rv.mean(0); nve = len(rv)
    dim = rv.shape[1]
    x = st.ve[:, :, :dim]; xc = x.mean(1, keepdims=True)
    p = np.concatenate([xc + 0.6 * (x - xc), xc], 1)
    for e in range(st.n):
        k = sorted(range(nve), key=lambda i: tuple(np.round(st.ve[e, i], 7)))
        p[e] = p[e][k + [nve]]
    return p

FV = {'tria3': ((0, 1), (1, 2), (2, 0)), 'quad4r': ((0, 1), (1, 2), (2, 3), (3, 0)), 'tet4': ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)),
      'hex8r': ((0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7))}

def hops(st, good=None, start=()):
    """distance (in faces) of every element to the next boundary face; faces for which good(vertices) holds are no boundary"""
    f = {}
    r = np.round(st.ve, 7) + 0.0
    for e in range(st.n):
        for fv in FV[st.el]: f.setdefault(tuple(sorted(tuple(r[e, v]) for v in fv)), []).append(e)
    nb = [[] for _ in range(st.n)]; h = np.full(st.n, 10 ** 6); cur = set(start)
    for k, es in f.items():
        if len(es) == 2: nb[es[0]].append(es[1]); nb[es[1]].append(es[0])
        elif not (good and good(k)): cur.add(es[0])
    lv = 0
    while cur:
        for e in cur: h[e] = lv
        nxt = set(n for e in cur for n in nb[e] if h[n] == 10 ** 6)
        cur, lv = nxt, lv + 1
    return h
