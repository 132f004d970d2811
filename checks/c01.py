#!/usr/bin/env python3
"""C01: results do not depend on the number of ranks, threads, the partitioning, thread or message timing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild, vsim, vrun, vstate, json

CONFIGS = [('elastic', 'tria3', 3, 1, 4), ('viscoelastic2', 'tet4', 2, 1, 2), ('advection', 'quad4r', 3, 2, 2)]

def one(c, exe, exev, cfg, k):
    eq, el, order, cfr, _ = cfg
    s = vsim.gen(c.rnd, eq, el, order, cfr, nels=150 if el != 'tet4' else 260, groups=c.rnd.choice([2, 3, 3, 4]) if k % 3 else c.rnd.choice([1, 2]), steps=20)
    wd = os.path.join(c.wdir, 's_%s_%d' % (eq, k)); os.makedirs(wd)
    rv = []
    for i in range(6):
        p = [l + (h - l) * c.rnd.uniform(0.03, 0.97) for l, h in zip(s['lo'], s['hi'])] + [0.0]
        rv.append(('r%d' % i, *p[:3]))
    fr = s['end'] / 7.3
    rec = vsim.describe(s)
    key = '%s/%s' % (eq, el)
    def base(p):
        rc, o, b = vsim.prepare(exev, s, wd, p)
        if rc != 0:
            c.violation(key + '/edge_v-abnormal', 'EDGE-V failed for %d partitions: %s' % (p, vh.crash_text(rc, o)), rec, [wd + '/in.msh', wd + '/v_m%d.xml' % p])
            return None
        return b
    b1 = base(1)
    if b1 is None: return
    rcs, outs, d0 = vsim.simulate(exe, s, wd, b1, 'ref', recv=(fr, rv) if eq != 'advection' else None)
    if any(r != 0 for r in rcs):
        c.violation(key + '/abnormal', 'reference run: %s' % vh.crash_text(rcs[0], outs[0]), rec, [wd]); return
    st = vstate.steps(d0 + '/dump')
    ref = [vstate.read(d0 + '/dump', i, 1, el) for i in st]
    rr = vrun.all_recv(d0 + '/recv') if eq != 'advection' else {}
    var = []
    pool = [(1, 3), (1, 8), (2, 2), (3, 2), (4, 2), (2, 1), (3, 1), (5, 1), (2, 4), (1, 2)]
    c.rnd.shuffle(pool)
    for ranks, threads in [pool[0]] + [x for x in pool[1:] if x[0] > 1][:2 if not c.thorough else 6]:
        b = base(ranks)
        if b is None: continue
        md, wdl, seed, sep = c.rnd.choice([0, 30, 80]), c.rnd.choice([0, 20, 60]), c.rnd.randrange(1 << 30), c.rnd.choice([None, 0])
        for attempt in (0, 1):
            rcs, outs, d = vsim.simulate(exe, s, wd, b, 'p%dt%d' % (ranks, threads), ranks, threads, seed, md, wdl, recv=(fr, rv) if eq != 'advection' else None, sep=sep)
            if None not in rcs or any(r not in (None, 0, -9) for r in rcs): break
        info = dict(rec, ranks=ranks, threads=threads, message_delay=md, work_delay=wdl, separate_workers=sep, run_seed=seed)
        if any(r != 0 for r in rcs):
            bad = [i for i, r in enumerate(rcs) if r not in (0, None)]
            i = bad[0] if bad else rcs.index(None)
            c.violation(key + '/abnormal', 'ranks=%d threads=%d: %s' % (ranks, threads, vh.crash_text(rcs[i], outs[i]) if bad else 'no progress within the time limit'), info, [wd]); continue
        ms = vsim.mpi_stats(d, ranks)
        for kk, v in ms.items(): c.observe('messages_' + kk, v)
        st2 = vstate.steps(d + '/dump')
        if st2 != st:
            c.violation(key + '/sync-points', 'synchronization points %s, expected %s' % (st2, st), info, [wd]); continue
        worst = 0
        for i in st:
            a = vstate.read(d + '/dump', i, ranks, el)
            c.observe('elements_compared', a.n)
            di, txt = vstate.compare(ref[i], a)
            worst = max(worst, di)
            if not di < 1e-9:
                c.violation(key + '/state', 'state differs at synchronization point %d by %g: %s' % (i, di, txt), info, [wd + '/in.msh', d + '/e.xml']); break
        if eq != 'advection':
            r2 = vrun.all_recv(d + '/recv')
            for n in sorted(set(rr) | set(r2)):
                x, y = rr.get(n, []), r2.get(n, [])
                if len(x) != 1 or len(y) != 1:
                    c.violation(key + '/receiver-owner', 'receiver %s written by %d and %d ranks' % (n, len(x), len(y)), info, [wd + '/in.msh', d + '/e.xml']); break
                c.observe('receiver_samples_compared', len(y[0][2]))
                sc = max([abs(v) for row in x[0][2] for v in row] + [1e-3])
                if len(x[0][2]) != len(y[0][2]) or any(abs(p - q) > 1e-5 * sc for a, b_ in zip(x[0][2], y[0][2]) for p, q in zip(a, b_)):
                    c.violation(key + '/receiver-values', 'receiver %s differs' % n, info, [wd + '/in.msh', d + '/e.xml']); break
        c.case([eq, k, ranks, threads, md, wdl, sep], nontrivial=s['nels'] > 20, sample=dict(info, worst_difference=worst, messages=ms['sends']))

def run(c):
    progs = [vbuild.edgev_prog('edge_v')] + [vbuild.edge_prog('edge_%s_%s_%d' % x[:3], x[0], x[1], x[2], 64, x[3], mpi=True, outdir=c.bdir) for x in CONFIGS]
    ex = c.build(progs)
    for cfg in CONFIGS:
        for k in range(cfg[4] * c.pick(1, 8)):
            one(c, ex['edge_%s_%s_%d' % cfg[:3]], ex['edge_v'], cfg, k)

vh.main(run, 'C01', rule='random scenarios (mesh, boundaries, material, initial values, time groups) run on 1..5 ranks x 1..8 threads with random delays of messages and of work; compared with the run on one rank and one thread; distinct by scenario, ranks, threads and delays',
        assumptions=['message passing by a stand-in for MPI which copies sends late, poisons receive buffers and delays completion', 'difference of at most 1e-9 relative to the largest value counts as equal (observed: about 1e-15)'])
