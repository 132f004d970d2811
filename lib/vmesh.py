"""Generates meshes (MSH 2.2 ASCII): triangles, quads, tets, hexes; perturbed, graded, with permuted ids."""
import random, itertools

TY = {'line': 1, 'tria3': 2, 'quad4r': 3, 'tet4': 4, 'hex8r': 5}

def grid(n, lo, hi, grade=None, rnd=None):
    """n+1 ascending coordinates; grade: ratio of largest to smallest spacing"""
    if grade is None or grade == 1: w = [1.0] * n
    else:
        w = [grade ** (abs(2.0 * i / max(n - 1, 1) - 1.0)) for i in range(n)]
    s = sum(w); x = [lo]; a = 0.0
    for v in w:
        a += v; x.append(lo + (hi - lo) * a / s)
    x[-1] = hi
    return x

def box_min(el, ns, lo, hi, *a, **k):
    """box; tetrahedral domains are enlarged until the determinants exceed the absolute tolerance for planar tetrahedra of EDGE-V. Changes hi."""
    while True:
        m = box(el, ns, lo, hi, *a, **k)
        if el != 'tet4': return m
        x = {n[0]: n[1:4] for n in m['nodes']}
        def det(e):
            p = [x[n] for n in e]; u, v, w = [[p[i][j] - p[0][j] for j in range(3)] for i in (1, 2, 3)]
            return abs(u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]))
        if min(det(e) for e in m['els']) > 4e-6: return m
        for d in range(3): hi[d] = round(lo[d] + 1.5 * (hi[d] - lo[d]), 3)

def box(el, ns, lo, hi, bnd, rnd, perturb=0.0, grade=None, permute=True, offset=0):
    """returns dict(nodes=[(tag,x,y,z)], els=[nodes], fas=[(phys,nodes)]).
       bnd(dim, side) -> physical tag of the boundary; perturb: relative displacement of inner vertices (simplices only)."""
    d = 2 if el in ('tria3', 'quad4r') else 3
    xs = [grid(ns[i], lo[i], hi[i], grade[i] if grade else None) for i in range(d)]
    h = [[min(x[i] - x[i - 1] if i > 0 else 1e30, x[i + 1] - x[i] if i + 1 < len(x) else 1e30) for i in range(len(x))] for x in xs]
    def idx(c):
        r = 0
        for i in reversed(range(d)): r = r * (ns[i] + 1) + c[i]
        return r
    crds = {}
    for c in itertools.product(*[range(n + 1) for n in ns]):
        p = [xs[i][c[i]] for i in range(d)]
        if perturb > 0 and all(0 < c[i] < ns[i] for i in range(d)):
            p = [p[i] + perturb * h[i][c[i]] * (rnd.random() * 2 - 1) for i in range(d)]
        while len(p) < 3: p.append(0.0)
        crds[idx(c)] = p
    els, fas = [], []
    for c in itertools.product(*[range(n) for n in ns]):
        v = lambda *o: idx([c[i] + o[i] for i in range(d)])
        if el == 'quad4r': els.append([v(0, 0), v(1, 0), v(1, 1), v(0, 1)])
        elif el == 'tria3':
            # uniform diagonal keeps opposite (periodic) boundaries conforming
            els += [[v(0, 0), v(1, 0), v(1, 1)], [v(0, 0), v(1, 1), v(0, 1)]]
        elif el == 'hex8r':
            els.append([v(0, 0, 0), v(1, 0, 0), v(1, 1, 0), v(0, 1, 0), v(0, 0, 1), v(1, 0, 1), v(1, 1, 1), v(0, 1, 1)])
        else:
            # Kuhn subdivision: six tets along the main diagonal (conforming and periodic)
            for pe in itertools.permutations(range(3)):
                o = [0, 0, 0]; t = [v(*o)]
                for a in pe:
                    o[a] = 1; t.append(v(*o))
                els.append(t)
    # boundary faces
    from collections import defaultdict
    cnt = defaultdict(list)
    def faces(e):
        n = len(e)
        if el == 'tria3' or el == 'quad4r': return [(e[i], e[(i + 1) % n]) for i in range(n)]
        if el == 'tet4': return [tuple(e[j] for j in f) for f in ((0, 2, 1), (0, 1, 3), (0, 3, 2), (3, 1, 2))]
        return [tuple(e[j] for j in f) for f in ((0, 3, 2, 1), (0, 1, 5, 4), (0, 4, 7, 3), (1, 2, 6, 5), (2, 3, 7, 6), (4, 5, 6, 7))]
    for e in els:
        for f in faces(e): cnt[tuple(sorted(f))].append(f)
    for k, l in cnt.items():
        if len(l) == 1:
            f = l[0]
            for i in range(d):
                for side, val in ((0, lo[i]), (1, hi[i])):
                    if all(abs(crds[n][i] - val) < 1e-9 * max(1, abs(hi[i] - lo[i])) for n in f):
                        ph = bnd(i, side)
                        if ph: fas.append((ph, list(f)))
    keys = sorted(crds)
    tags = list(range(1 + offset, len(keys) + 1 + offset))
    if permute:
        rnd.shuffle(tags); rnd.shuffle(els); rnd.shuffle(fas)
        # rotate the elements' vertices (orientation preserving)
        if el == 'tria3': els = [e[k:] + e[:k] for e in els for k in [rnd.randrange(3)]]
        if el == 'quad4r': els = [e[k:] + e[:k] for e in els for k in [rnd.randrange(4)]]
    m = dict(zip(keys, tags))
    nodes = sorted((m[k], *crds[k]) for k in keys)
    if permute: rnd.shuffle(nodes)
    return dict(el=el, nodes=nodes, els=[[m[n] for n in e] for e in els], fas=[(p, [m[n] for n in f]) for p, f in fas])

def write(mesh, path):
    el = mesh['el']; fty = {'tria3': 1, 'quad4r': 1, 'tet4': 2, 'hex8r': 3}[el]
    with open(path, 'w') as f:
        f.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n' % len(mesh['nodes']))
        for n in mesh['nodes']: f.write('%d %r %r %r\n' % n)
        f.write('$EndNodes\n$Elements\n%d\n' % (len(mesh['els']) + len(mesh['fas'])))
        t = 1
        for p, ns in mesh['fas']:
            f.write('%d %d 2 %d %d %s\n' % (t, fty, p, p, ' '.join(map(str, ns)))); t += 1
        for e in mesh['els']:
            f.write('%d %d 2 1 1 %s\n' % (t, TY[el], ' '.join(map(str, e)))); t += 1
        f.write('$EndElements\n')
