# Calls EDGEpre's modules with inputs beyond those of the configured runs and dumps the results as JSON.
# usage: c19mod.py ROOT JOB.json OUT.json
import sys, json
root, job, out = sys.argv[1:4]
sys.path.insert(0, root)
import importlib, fractions
import sympy
J = json.load(open(job))
import edge_pre.int.Matrices as IM, edge_pre.int.Scalar as IS, edge_pre.io.ArrStr as AS, edge_pre.io.Config as CF
import edge_pre.dg.basis.Mod as MOD, edge_pre.sc.ops.Project as PR
def num(x):
    if isinstance(x, (list, tuple)): return [num(y) for y in x]
    if isinstance(x, sympy.MatrixBase): return num(x.tolist())
    if isinstance(x, int): return x
    return float(x)
R = {}
# bases, types, sub-grids and projections of an element type
for k, e in enumerate(J.get('els', [])):
    el, deg, parts = e['el'], e['deg'], e['parts']
    G = importlib.import_module('edge_pre.sc.grid.' + el); B = importlib.import_module('edge_pre.dg.basis.' + el)
    T = getattr(importlib.import_module('edge_pre.types.' + el), el)(deg)
    r = R['el%d' % k] = dict(n_dims=T.n_dims, n_basis=float(T.n_basis), n_ves=T.n_ves, n_fas=T.n_fas, n_sfs=T.n_sfs, n_scs=T.n_scs, ves=num(T.ves))
    if hasattr(T, 'vol'): r['vol'] = num(T.vol)
    if hasattr(T, 'n_scs_in'): r['n_scs_in'] = T.n_scs_in
    s, b = B.gen(deg)
    iv = T.intEl(s[0] if el == 'Line' else s)
    if 'basis' in parts:
        r['nsyms'] = len(s)
        f = sympy.lambdify(s, b, 'math')
        r['basis'] = [[float(v) for v in f(*p)] for p in e['pts']]
        # every function has to be a polynomial of the given degree at most
        r['polydeg'] = [[int(sympy.Poly(x, *s).total_degree())] + [int(sympy.Poly(x, *s).degree(y)) for y in s] for x in b]
    if 'grid' in parts:
        r['svs'] = num(G.svs(deg)); r['scsv'] = [num(x) for x in G.scSv(deg)]; r['scsfsc'] = [num(x) for x in G.scSfSc(deg)]
        r['sctysf'] = [num(x) for x in G.scTySf(deg)]
        if hasattr(G, 'scDgAd'): r['scdgad'] = num(G.scDgAd(deg))
    if 'maps' in parts:
        m, d = G.intSc(deg, s)
        # values of the mappings in sample points
        def val(ma):
            f = sympy.lambdify(s, list(ma), 'math')
            return [[float(v) for v in f(*p)] for p in e['pts']]
        r['maps'] = [[val(x) for x in m[0]], [val(x) for x in m[1]], [[val(x) for x in y] for y in m[2]]]
        r['dets'] = [num(d[0]), num(d[1]), [num(x) for x in d[2]]]
        fl = list(m[0]) + list(m[1]); fd = list(d[0]) + list(d[1])
        ids = [i for i in e['ids'] if i < len(fl)]
        if ids: r['scatter'] = [ids, num(PR.scatter(s, b, iv, [fl[i] for i in ids], [fd[i] for i in ids]))]
    if 'sf' in parts and el != 'Line':
        cs = [sympy.symbols('chi_%d' % i) for i in range(T.n_dims - 1)]
        su, ii = G.intSfDg(deg, cs, s)
        r['sf'] = []
        for fa in range(T.n_fas):
            bs = IM.subsAll(su[fa], [s[i] for i in range(T.n_dims)] + [sympy.sympify(1)])
            # integrals of the volume coordinates and of one
            r['sf'].append(num(IM.intL(ii[fa], bs)))
    if 'fa' in parts and el != 'Line':
        cs = [sympy.symbols('a_%d' % i) for i in range(T.n_dims - 1)]
        r['faToEl'] = [[[float(sympy.sympify(x).subs(dict(zip(cs, p)))) for x in t] for t in T.faToEl(cs)] for p in e['fpts']]
        r['faToFa'] = [[[float(sympy.sympify(x).subs(dict(zip(cs, p)))) for x in t] for t in T.faToFa(cs)] for p in e['fpts']]
    if 'el' in parts:
        r['elvol'] = float(IS.int(sympy.sympify(1), iv)[0])
        r['elmom'] = [float(IS.int(x, iv)[0]) for x in s]
# integrals
x = [sympy.symbols('x_%d' % i) for i in range(3)]
def poly(p): # [[coeff_num, coeff_den, e0, e1, e2],..]
    return sum((sympy.Rational(t[0], t[1]) * x[0] ** t[2] * x[1] ** t[3] * x[2] ** t[4] for t in p), sympy.sympify(0))
R['ints'] = []
for t in J.get('ints', []):
    iv = [(x[i], poly(lo), poly(hi)) for i, lo, hi in t['iv']]
    fu = [poly(p) for p in t['fu']]
    a = dict(l=num(IM.intL([iv], fu)), m=num(IM.mass(iv, fu)), s=num(IM.stiff([iv[i][0] for i in range(len(iv))], fu, iv)))
    v, ex = IS.int(fu[0], iv); a['v'], a['ex'] = float(v), bool(ex)
    q, ex = IS.int(fu[0], iv, 0); a['q'], a['qex'] = float(q), bool(ex)
    R['ints'].append(a)
R['subs'] = []
for t in J.get('subs', []):
    fu = [poly(p) for p in t['fu']]
    su = [(x[i], poly(p)) for i, p in t['su']]
    f = lambda g: float(sympy.sympify(g).subs(dict(zip(x, [sympy.Rational(*c) for c in t['pt']]))))
    m = IM.subs(su, fu)
    R['subs'].append(dict(one=[[f(m[i, j]) for j in range(len(fu))] for i in range(len(su))], all=[f(g) for g in IM.subsAll(su, fu)]))
R['unify'] = []
for t in J.get('unify', []):
    s1 = [sympy.symbols(n) for n in t['s1']]; s2 = [sympy.symbols(n) for n in t['s2']]
    b2 = [sum((sympy.Rational(c) * s ** e for c, s, e in zip(f, s2, t['e'])), sympy.sympify(0)) for f in t['b2']]
    s, b = MOD.unify(s1, s1, s2, b2)
    R['unify'].append(dict(s=[str(v) for v in s], v=[float(sympy.sympify(f).subs(dict(zip(s, [sympy.Rational(v) for v in t['pt']])))) for f in b], free=[sorted(str(v) for v in sympy.sympify(f).free_symbols) for f in b]))
R['arr'] = [[getattr(AS, t['f'])(t['a'])] for t in J.get('arr', [])]
R['conf'] = []
for p in J.get('conf', []):
    c = CF.Config(p); R['conf'].append(dict(degs=c.m_degs, types=c.m_types, out=c.m_out))
json.dump(R, open(out, 'w'))
