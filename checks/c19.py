#!/usr/bin/env python3
"""C19: data generated by EDGEpre: bases, matrices, sub-grids, projections, csv and C++."""
import os, sys, json, subprocess, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import vh, vbuild, vpre, vstate

ROOT = vbuild.REPO + '/tools/edge_pre'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH='/opt/vp/py/sympy-1.4', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

def sh(cmd, limit, cwd=None):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=limit, cwd=cwd)
    except subprocess.TimeoutExpired: return None, 'time limit'
    return p.returncode, p.stdout.decode('utf8', 'replace')

def main_run(c, el, degs, tag):
    """edge_pre.py as users run it, all csv files"""
    d = os.path.join(c.wdir, tag); os.makedirs(d)
    x = d + '/conf.xml'
    open(x, 'w').write('<edge_pre><degs>%s</degs><types><type>%s</type></types><out_dirs><dg>%s/dg</dg><subcell>%s/sc</subcell><plots>%s/pl</plots></out_dirs></edge_pre>'
                       % (''.join('<deg>%d</deg>' % g for g in degs), el, d, d, d))
    rc, o = sh([sys.executable, '-W', 'ignore', vh.VERIF + '/harness/c19run.py', ROOT, x], 420)
    if rc != 0:
        c.violation('run/' + el, 'edge_pre.py for %s, degrees %s ended with %s: %s' % (el, degs, rc, o[-500:]), dict(conf=open(x).read())); return
    for g in degs:
        vpre.check_csv(el, g, d + '/dg', d + '/sc', lambda k, t: c.violation('csv/%s/%s' % (el, k), '%s, degree %d: %s' % (el, g, t), dict(conf=open(x).read())), lambda k, n: c.observe(k, n))
        c.case('run %s %d' % (el, g), sample='edge_pre.py %s degree %d' % (el, g), n=15)
    return d

def rpoly(r, nv, deg, den=6, terms=3, vs=(0, 1, 2)):
    return [[r.choice([-1, 1]) * r.randint(1, 9), r.randint(1, den)] + [(r.randint(0, deg) if v in vs and v < nv else 0) for v in range(3)] for _ in range(terms)]

def pv(p, x):
    """value of a polynomial; x: coordinates [point][3]"""
    return sum(t[0] / t[1] * x[:, 0] ** t[2] * x[:, 1] ** t[3] * x[:, 2] ** t[4] for t in p) + 0 * x[:, 0]

def dpoly(p, v):
    return [[t[0] * t[2 + v], t[1]] + [t[2 + k] - (k == v) for k in range(3)] for t in p if t[2 + v]] or [[0, 1, 0, 0, 0]]

def nodes(iv):
    """nested Gauss rule; the least dependent interval comes last"""
    g, w = np.polynomial.legendre.leggauss(14)
    P, W = np.zeros((1, 3)), np.ones(1)
    for i, lo, hi in reversed(iv):
        a, b = pv(lo, P), pv(hi, P)
        Q, V = [], []
        for k in range(len(g)):
            q = P.copy(); q[:, i] = a + (b - a) * (g[k] + 1) / 2
            Q.append(q); V.append(W * (b - a) * w[k] / 2)
        P, W = np.concatenate(Q), np.concatenate(V)
    return P, W

def mod_run(c, tag, els, r, extra):
    d = os.path.join(c.wdir, tag); os.makedirs(d)
    J = dict(els=[], ints=[], subs=[], unify=[], arr=[], conf=[]); E = []
    for el, deg, parts in els:
        dim = vpre.DIM[el]
        pts = [[r.random() * (0.9 / dim if el in ('tria3', 'tet4') else 1) for _ in range(dim)] for _ in range(6)]
        fp = [[r.random() for _ in range(max(dim - 1, 1))] for _ in range(4)]
        ids = sorted(r.sample(range((2 * deg + 1) ** dim), min((2 * deg + 1) ** dim, 4 if dim < 3 else 2)))
        J['els'].append(dict(el=vpre.EL[el], deg=deg, parts=parts, pts=pts, fpts=fp, ids=ids))
    if extra:
        for _ in range(c.pick(10, 60)):
            nv = r.choice([1, 2, 2, 3]); od = r.sample(range(nv), nv); iv = []
            for k, i in enumerate(od):
                later = od[k + 1:]
                lo = [[r.randint(-4, 4), r.randint(1, 5), 0, 0, 0]] + (rpoly(r, 3, 1, 6, 1, later) if later and r.random() < .5 else [])
                hi = lo + [[r.randint(1, 4), r.randint(1, 3), 0, 0, 0]] + (rpoly(r, 3, 1, 9, 1, later) if later and r.random() < .6 else [])
                iv.append((i, lo, hi))
            J['ints'].append(dict(iv=iv, fu=[rpoly(r, nv, 3 if nv < 3 else 2, terms=r.randint(1, 3)) for _ in range(2)]))
        for _ in range(20):
            J['subs'].append(dict(fu=[rpoly(r, 3, 3, terms=r.randint(1, 4)) for _ in range(r.randint(1, 4))], su=[(i, rpoly(r, 3, 1, terms=r.randint(1, 2), vs=[v for v in range(3) if v != i])) for i in r.sample(range(3), r.randint(1, 3))],
                                 pt=[(r.randint(-5, 5), r.randint(1, 4)) for _ in range(3)]))
        for _ in range(20):
            nm = ['xi_1', 'xi_2', 'xi_3', 'chi', 'xi_1_unique', 'xi_1_unique_unique']
            n2 = r.randint(1, 3)
            J['unify'].append(dict(s1=r.sample(nm, r.randint(1, 4)), s2=r.sample(nm[:4], n2), b2=[[r.randint(-5, 5) for _ in range(n2)] for _ in range(3)], e=[r.randint(1, 3) for _ in range(n2)], pt=[r.randint(-4, 4) for _ in range(n2)]))
        for _ in range(24):
            f = r.choice(['float2d', 'int2d', 'int3d', 'float3d']); fl = f.startswith('f')
            v = lambda: r.choice([r.gauss(0, 1) * 10 ** r.randint(-12, 12), float(r.randint(-3, 3)), r.randint(-5, 5)]) if fl else r.randint(-1, 70000)
            sh2 = [r.randint(1, 5) for _ in range(2)]
            a2 = lambda: [[v() for _ in range(sh2[1])] for _ in range(sh2[0])]
            J['arr'].append(dict(f=f, a=a2() if '2d' in f else [a2() for _ in range(r.randint(1, 4))]))
        for k in range(12):
            p = '%s/c%d.xml' % (d, k)
            e = dict(degs=[r.randint(0, 9) for _ in range(r.randint(0, 4))], types=[r.choice(list(vpre.EL)) for _ in range(r.randint(0, 4))], out={n: '/x/%d' % r.randint(0, 99) for n in ('dg', 'subcell', 'plots') if r.random() < .7})
            od = ('<out_dirs>%s</out_dirs>' % ''.join('<%s>%s</%s>' % (n, v, n) for n, v in e['out'].items())) if e['out'] or r.random() < .5 else ''
            parts = ['<degs>%s</degs>' % ''.join('<deg>%d</deg>' % g for g in e['degs']), '<types>%s</types>' % ''.join('<type>%s</type>' % t for t in e['types']), od]
            r.shuffle(parts)
            open(p, 'w').write('<edge_pre>%s</edge_pre>' % ''.join(parts)); J['conf'].append(p); E.append(e)
    json.dump(J, open(d + '/job.json', 'w'))
    rc, o = sh([sys.executable, '-W', 'ignore', vh.VERIF + '/harness/c19mod.py', ROOT, d + '/job.json', d + '/out.json'], 420)
    if rc != 0:
        c.violation('mod/' + tag, 'modules of EDGEpre ended with %s: %s' % (rc, o[-500:]), dict(job=J)); return
    R = json.load(open(d + '/out.json'))
    F = lambda k, t: c.violation('mod/' + k, t, dict(job=tag))
    for k, (el, deg, parts) in enumerate(els):
        element(c, el, deg, parts, J['els'][k], R['el%d' % k], lambda n, t: c.violation('mod/%s/%s' % (el, n), '%s, degree %d: %s' % (el, deg, t), dict(el=el, deg=deg)))
        c.case('mod %s %d %s' % (el, deg, parts), sample='modules %s degree %d: %s' % (el, deg, parts), n=len(parts))
    for t, a in zip(J['ints'], R['ints']):
        P, W = nodes(t['iv']); f = [pv(p, P) for p in t['fu']]
        sc = max(1e-3, max(np.abs(f[i] * W).sum() * max(1, np.abs(f[i]).max()) for i in range(len(f))))
        e = [float((g * W).sum()) for g in f]
        ok = lambda x, y: np.shape(x) == np.shape(y) and np.abs(np.asarray(x) - np.asarray(y)).max() <= 1e-7 * sc
        if not ok(a['l'], [e]): F('intL', 'integrals %s of %s, expected %s' % (a['l'], t, e))
        m = [[float((f[i] * f[j] * W).sum()) for j in range(len(f))] for i in range(len(f))]
        if not ok(a['m'], m): F('mass', 'mass matrix %s of %s, expected %s' % (a['m'], t, m))
        s = [[[float((f[i] * pv(dpoly(t['fu'][j], v[0]), P) * W).sum()) for j in range(len(f))] for i in range(len(f))] for v in t['iv']]
        if not ok(a['s'], s): F('stiff', 'stiffness matrices %s of %s, expected %s' % (a['s'], t, s))
        if not ok([a['v'], a['q']], [e[0], e[0]]): F('scalar', 'exact integral %r, quadrature %r of %s, expected %r' % (a['v'], a['q'], t, e[0]))
        if not a['ex'] or a['qex']: F('scalar', 'exactness flags %s, %s of %s' % (a['ex'], a['qex'], t))
        c.case('int %s' % json.dumps(t), n=5)
    for t, a in zip(J['subs'], R['subs']):
        x = np.array([[p / q for p, q in t['pt']]])
        one = []
        for i, p in t['su']:
            y = x.copy(); y[0, i] = pv(p, x)[0]; one.append([float(pv(g, y)[0]) for g in t['fu']])
        if vpre.close(a['one'], one): F('subs', '%s: %s, expected %s' % (t, a['one'], one))
        # all substitutions, one after the other: later ones apply to what the earlier ones inserted
        y = x.copy()
        for i, p in reversed(t['su']): y[0, i] = pv(p, y)[0]
        al = [float(pv(g, y)[0]) for g in t['fu']]
        if vpre.close(a['all'], al): F('subsAll', '%s: %s, expected %s' % (t, a['all'], al))
        c.case('subs %s' % json.dumps(t), n=2)
    for t, a in zip(J['unify'], R['unify']):
        v = [float(sum(k * p ** e for k, p, e in zip(b, t['pt'], t['e']))) for b in t['b2']]
        if set(a['s']) & set(t['s1']) or len(set(a['s'])) != len(t['s2']) or any(n not in t['s1'] and m != n for n, m in zip(t['s2'], a['s'])): F('unify', 'symbols %s of %s' % (a['s'], t))
        if vpre.close(a['v'], v) or any(set(x) - set(a['s']) for x in a['free']): F('unify', 'basis of %s: values %s with the symbols %s, expected %s' % (t, a['v'], a['free'], v))
        c.case('unify %s' % json.dumps(t))
    for t, a in zip(J['arr'], R['arr']):
        p = d + '/a.csv'; open(p, 'w').write(a[0])
        try: b = vpre.read(p).tolist()
        except ValueError: b = None
        if b != np.array(t['a'], float).tolist(): F('arr', '%s of %s is %r' % (t['f'], t['a'], a[0]))
        elif not t['f'].startswith('f') and '.' in a[0]: F('arr', '%s writes %r' % (t['f'], a[0]))
        c.case('arr %s' % json.dumps(t))
    for e, a in zip(E, R['conf']):
        if a != e: F('config', 'configuration %s, expected %s' % (a, e))
        c.case('conf %s' % json.dumps(e))

def element(c, el, deg, parts, J, r, fail):
    dim, ns, nf = vpre.DIM[el], 2 * deg + 1, len(vpre.FV[el])
    nb = vstate.basis(el, deg + 1, np.zeros((1, dim)) + .1).shape[0]
    exp = dict(n_dims=dim, n_basis=nb, n_ves=len(vpre.REFV[el]), n_fas=nf, n_sfs=ns ** (dim - 1), n_scs=ns ** dim, ves=vpre.REFV[el].tolist())
    if 'vol' in r: exp['vol'] = vstate.REFVOL[el]
    if 'n_scs_in' in r and deg > 0: exp['n_scs_in'] = vpre.inner(el, ns)
    for k, v in exp.items():
        if r[k] != v and not (k == 'vol' and abs(r[k] - v) < 1e-12): fail('type', '%s of the type is %s, expected %s' % (k, r[k], v))
    pts = np.array(J['pts'])
    if 'basis' in parts:
        m = vpre.close(np.array(r['basis']).T, vstate.basis(el, deg + 1, pts))
        if m: fail('basis', 'values of the basis functions: ' + m)
        for p in r['polydeg']:
            if (p[0] if el in ('tria3', 'tet4') else max(p[1:])) > deg: fail('basis', 'degrees of a basis function: %s' % p)
    S = vpre.subgrid(el, deg, r, fail) if 'grid' in parts else None
    c.observe('subcells', ns ** dim if S else 0)
    if 'maps' in parts and S:
        nsc = S['n']
        fl = r['maps'][0] + r['maps'][1]; de = r['dets'][0] + r['dets'][1]
        if len(fl) != nsc or len(de) != nsc: fail('maps', 'number of mappings')
        else:
            for i, g in enumerate(S['geo']):
                # the image has to be the sub-cell: the linear map of the reference element
                m = vpre.close(fl[i], g[0] + pts @ g[1].T)
                if m: fail('maps', 'mapping of sub-cell %d: %s' % (i, m)); break
                if abs(de[i] - abs(np.linalg.det(g[1]))) > 1e-12: fail('dets', 'absolute determinant of sub-cell %d is %r, expected %r' % (i, de[i], abs(np.linalg.det(g[1])))); break
            for f in range(nf):
                for k in range(S['ns1']):
                    g = S['geo'][S['send'][f, k]]
                    m = vpre.close(r['maps'][2][f][k], g[0] + pts @ g[1].T)
                    if m or abs(r['dets'][2][f][k] - abs(np.linalg.det(g[1]))) > 1e-12: fail('maps', 'surface sub-cell %d of face %d: %s' % (k, f, m)); break
        ids, sc = r.get('scatter', ([], None))
        if ids:
            m = vpre.close(sc, np.array([vpre.average(el, deg, S['geo'][i]) for i in ids]).T)
            if m: fail('scatter', 'scatter operator of the sub-cells %s: %s' % (ids, m))
    if 'sf' in parts and el != 'line':
        for f in range(nf):
            e = []
            for k in range(ns ** (dim - 1)):
                p, w = vpre.subfaceQuad(el, k, ns, 3); x = vpre.faceMap(el, f, p)
                e.append([float((x[:, i] * w).sum()) for i in range(dim)] + [float(w.sum())])
            m = vpre.close(r['sf'][f], e)
            if m: fail('intSfDg', 'integrals of the coordinates over the sub-faces of face %d: %s' % (f, m))
    if 'fa' in parts and el != 'line':
        for q, p in enumerate(J['fpts']):
            e = [vpre.faceMap(el, f, [p])[0].tolist() for f in range(nf)]
            m = vpre.close(r['faToEl'][q], e)
            if m: fail('faToEl', 'face coordinates %s: %s' % (p, m))
            e = [vpre.mirror(el, v, [p])[0].tolist() for v in (vpre.VS[el] if el != 'hex8r' else [0])]
            m = vpre.close(r['faToFa'][q], e)
            if m: fail('faToFa', 'face coordinates %s: %s' % (p, m))
    if 'el' in parts:
        P, W = vpre.quad(el, 4)
        m = vpre.close([r['elvol']] + r['elmom'], [W.sum()] + [float((P[:, i] * W).sum()) for i in range(dim)])
        if m: fail('intEl', 'integration intervals of the element: ' + m)

def cpp(c, dirs):
    """csv -> C++ -> values"""
    r = c.sub('cpp'); d = os.path.join(c.wdir, 'cpp'); os.makedirs(d); src, prs, exp = '', '', {}
    todo = []
    for k in range(c.pick(16, 60)):
        n3 = r.choice([0, 0, 1, 2, 4]); n2, n1 = r.randint(1, 6), r.randint(1, 6); it = r.random() < .4
        v = (lambda: r.randint(-1, 9) if r.random() < .8 else r.randint(100, 60000)) if it else (lambda: r.choice([0.0, r.gauss(0, 1), r.gauss(0, 1) * 10 ** r.randint(-9, 9)]))
        a = [[[v() for _ in range(n1)] for _ in range(n2)] for _ in range(max(n3, 1))]
        s = ''.join(''.join(','.join(repr(x) for x in l) + ',\n' for l in b) + ('\n' if n3 else '') for b in a)
        open('%s/r%d.csv' % (d, k), 'w').write(s); todo.append(('r%d' % k, '%s/r%d.csv' % (d, k), it))
    for p in dirs:
        for w, ds, fs in os.walk(p):
            for f in sorted(fs):
                if f.endswith('.csv'): todo.append(('f_' + f[:-4], os.path.join(w, f), any(f.endswith('_%s.csv' % x) for x in ('scsv', 'scsfsc', 'sctysf', 'scdgad'))))
    for n, p, it in todo:
        cmd = [sys.executable, ROOT + '/cpp.py', '-i', p, '-s', r.choice(['dg', 'sc']), '-n', n, '-t', 'unsigned short' if it else 'double', '-o', '%s/%s.cpp' % (d, n)]
        if it: cmd += ['-r', '-1', 'std::numeric_limits< unsigned short >::max()']
        # argparse takes -1 as an option's value, if the parser has no options that look like negative numbers
        rc, o = sh(cmd, 120)
        if rc != 0: c.violation('cpp/run', 'cpp.py failed for %s: %s' % (n, o[-300:]), dict(csv=open(p).read()[:2000])); continue
        src += open('%s/%s.cpp' % (d, n)).read() + '\n'
        ns = cmd[cmd.index('-s') + 1]; a = vpre.read(p)
        if it: a = np.where(a < 0, 65535, a)
        exp[n] = a
        q = 'edge::pre::%s::g_%s' % (ns, n)
        prs += '  show( "%s", %s, %sRaw, %sSize );\n' % (n, q, q, q)
    main = '''#include <cstdio>
#include <type_traits>
template<class A, class T> void show( char const * n, A const & a, T const * raw, std::size_t size ) {
  printf( "%s %d", n, (int) std::rank<A>::value );
  printf( " %d %d %d", (int) std::extent<A,0>::value, (int) std::extent<A,1>::value, (int) std::extent<A,2>::value );
  printf( " %d %d", (int) size, (int) ((void const *) raw == (void const *) &a) );
  for( std::size_t i = 0; i < sizeof(A)/sizeof(T); i++ ) printf( " %.17g", (double) raw[i] );
  printf( "\\n" );
}
int main() {
''' + prs + '}\n'
    open(d + '/all.cpp', 'w').write(src + main)
    rc, o = sh(['g++', '-std=c++11', '-w', '-O0', '-o', d + '/all', d + '/all.cpp'], 300)
    if rc != 0: c.violation('cpp/compile', 'the generated C++ does not compile: ' + o[:600], dict(n=len(exp))); return
    rc, o = sh([d + '/all'], 60)
    if rc != 0: c.violation('cpp/run', 'program with the generated data ended with %s' % rc, {}); return
    got = {l.split()[0]: l.split()[1:] for l in o.split('\n') if l}
    for n, a in exp.items():
        g = got.get(n); e = [a.ndim] + list(a.shape) + [0] * (3 - a.ndim) + [a.size, 1]
        if g is None or [int(x) for x in g[:6]] != e: c.violation('cpp/shape', '%s: rank, extents, size and raw pointer are %s, expected %s' % (n, g and g[:6], e), {}); continue
        if [float(x) for x in g[6:]] != [float(x) for x in a.reshape(-1)]: c.violation('cpp/values', '%s: values differ from the csv' % n, {})
        c.case('cpp %s %s' % (n, list(a.shape)))
    c.observe('cpp_arrays', len(exp))

ALL = ['basis', 'grid', 'maps', 'sf', 'fa', 'el']
def run(c):
    dirs, jobs = [], []
    T = c.thorough
    runs = [('hex8r', [1]), ('tet4', [1]), ('tria3', [2]), ('quad4r', [1]), ('line', [2, 0, 3]), ('hex8r', [0]), ('tet4', [0]), ('tria3', [1, 0]), ('quad4r', [0]), ('line', [1, 4])]
    if T: runs = [('quad4r', [2]), ('tria3', [3]), ('tet4', [2]), ('line', [5, 6])] + runs
    mods = [[('hex8r', 2, ALL)], [('tet4', 2, ALL), ('tet4', 3, ['basis', 'grid', 'fa'])], [('quad4r', 3, ALL), ('tria3', 4, ALL), ('quad4r', 5, ['basis', 'grid', 'fa', 'el']), ('tria3', 6, ['basis', 'grid', 'fa'])],
            [('line', 5, ALL), ('line', 9, ['basis', 'grid', 'el']), ('tria3', 3, ALL), ('quad4r', 2, ALL), ('tet4', 1, ALL), ('hex8r', 1, ['basis', 'grid', 'sf', 'fa', 'el']), ('hex8r', 0, ALL), ('tet4', 0, ALL)]]
    if T: mods += [[('hex8r', 3, ['basis', 'grid', 'fa', 'el'])], [('tet4', 4, ['basis', 'grid', 'fa'])], [('hex8r', 4, ['basis', 'fa', 'el']), ('tet4', 5, ['basis'])]]
    def mr(el, de, k):
        d = main_run(c, el, de, 'run%d' % k)
        if d and el in ('line', 'tria3', 'tet4') and len(dirs) < 5: dirs.extend([d + '/dg', d + '/sc'])
    for k, (el, de) in enumerate(runs): jobs.append(lambda el=el, de=de, k=k: mr(el, de, k))
    for k, m in enumerate(mods): jobs.append(lambda m=m, k=k: mod_run(c, 'mod%d' % k, m, c.sub('mod', k), k in (1, 3)))
    c.parallel(jobs, 8)
    cpp(c, sorted(dirs)[:4])

vh.main(run, 'C19', rule='runs of edge_pre.py and calls of its modules for all element types and several degrees, random integrands, intervals, substitutions, arrays and configurations; distinct by element type, degree and input',
        assumptions=['plots are not judged', 'sympy 1.4 as in the build'])
