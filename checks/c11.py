#!/usr/bin/env python3
"""C11: receivers record the solution at their location, at all sampling times, exactly once."""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild, vacc, vrun

CONFIGS = [('tria3', 4, 1, 9), ('tet4', 3, 1, 6), ('tria3', 3, 3, 9), ('hex8r', 2, 2, 4), ('quad4r', 3, 1, 6)]

def extract(c, path, tag):
    """columns of a receiver, extracted by the processing tool"""
    rnd = c.sub('extract', tag); rows = [l.split(',') for l in open(path).read().split('\n') if l and l[0] != '#'][1:]
    if not rows: return
    cols = [rnd.randrange(len(rows[0])) for _ in range(rnd.randint(1, 5))]; k = rnd.choice([1, 1, 2, 3, 7]); out = os.path.join(c.wdir, 'x_%s.csv' % tag)
    rc, o = vrun.run([sys.executable, vbuild.REPO + '/tools/processing/recvs_extract_cols.py', '--in_csv', path, '--cols'] + [str(x) for x in cols] + (['--sample', str(k)] if k > 1 or rnd.random() < 0.5 else []) + ['--out_csv', out], env={'PYTHONDONTWRITEBYTECODE': '1'}, limit=60)
    rec = dict(file=path, cols=cols, sample=k)
    if rc != 0: c.violation('extract/abnormal', 'extraction of columns %s of a receiver with %d samples: %s' % (cols, len(rows), vh.crash_text(rc, o)), rec, [path]); return
    got = [[float(x) for x in l.split(',')] for l in open(out).read().split('\n') if l.strip()]; ref = [[float(r[x]) for x in cols] for r in rows[::k]]
    if repr(got) != repr(ref): c.violation('extract/values', 'columns %s, every %d. of %d samples: %d rows %s, expected %d rows %s' % (cols, k, len(rows), len(got), got[:2], len(ref), ref[:2]), rec, [path, out]); return
    c.observe('rows_extracted', len(ref)); c.case(['extract', len(rows), cols, k], nontrivial=True)

def run(c):
    ps = [vbuild.edgev_prog('edge_v')] + [vbuild.edge_prog('e_%s_%d_%d' % x[:3], 'elastic', x[0], x[1], 64, x[2], mpi=i < 2, outdir=c.bdir) for i, x in enumerate(CONFIGS)]
    ex = c.build(ps)
    jobs = []
    for i, (el, order, cfr, mu) in enumerate(CONFIGS):
        e = (ex['e_%s_%d_%d' % (el, order, cfr)], ex['edge_v']); t = '%s_%d_%d_' % (el, order, cfr)
        for k in range(c.pick(10, 80)):
            rnd = c.sub(t, k); th = rnd.choice([1, 1, 2, 4]); many = k % 4 == 3
            jobs.append((e, (el, order, cfr, rnd.choice([1, 2, 3] if mu > 4 else [1, 2]), mu), dict(tag=t + str(k), key=el, ranks=rnd.choice([1, 1, 2, 3]) if i < 2 else 1, threads=th, many=many, delay=rnd.choice([0, 40]) if th > 1 else 0)))
    c.parallel([(lambda j=j: vacc.receivers(c.view(j[2]['tag']), j[0], *j[1], **j[2])) for j in jobs], 6)
    fs = sorted(glob.glob(c.wdir + '/**/recv/**/*.csv', recursive=True)); rnd = c.sub('files'); rnd.shuffle(fs); fs = fs[:c.pick(40, 400)]
    for i in range(c.pick(10, 60)):
        n = rnd.choice([1, 2, 5, 30, 300]); nq = rnd.choice([5, 9]); cfr = rnd.choice([1, 2, 8]); p = os.path.join(c.wdir, 'syn%d.csv' % i); fs.append(p)
        with open(p, 'w') as f:
            f.write('# receiver name: syn %d\n# receiver coordinates (specified): %g %g 0\n# receiver coordinates (projected): %g %g 0\ntime,%s\n' % (i, rnd.gauss(0, 1), rnd.gauss(0, 1e3), rnd.gauss(0, 1), rnd.gauss(0, 1e3), ','.join('Q%d_C%d' % (q, r) for q in range(nq) for r in range(cfr))))
            for t in range(n): f.write(','.join('%.6g' % x for x in [t * 0.013] + [rnd.gauss(0, 1) * 10**rnd.randint(-20, 9) for _ in range(nq * cfr)]) + '\n')
    c.parallel([(lambda i=i, p=p: extract(c.view('x%d' % i), p, str(i))) for i, p in enumerate(fs)], 8)

vh.main(run, 'C11', rule='random meshes, receivers (inside, at vertices, shared elements, outside), sampling intervals and time groups; distinct by element type, mesh, groups, updates and interval')
