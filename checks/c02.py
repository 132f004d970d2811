#!/usr/bin/env python3
"""C02: every element is updated exactly once per time step, in the order of the data dependencies, and all groups reach the synchronization times."""
import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, vbuild, vsim, vrun, vstate, vtrace, vsrc

CONFIGS = [('elastic', 'tria3', 2, 1, 6), ('advection', 'tria3', 2, 1, 5), ('swe', 'tria3', 1, 1, 3)]

def header(base, rank):
    with open('%s.%d.0' % (base, rank), 'rb') as f: h = struct.unpack('10q', f.read(88)[8:])
    return h[0], h[9]

def one(c, exe, exev, cfg, k, rnd, stats):
    eq, el, order, cfr, _ = cfg
    kind = {'elastic': 'seismic'}.get(eq, eq)
    s = vsim.gen(rnd, eq, el, order, cfr, nels=rnd.choice([60, 150, 300]), groups=1 if eq == 'swe' else rnd.choice([1, 2, 3, 4, 5]), steps=rnd.choice([6, 20, 60]), grade=[rnd.choice([1, 4, 8]), rnd.choice([1, 4, 8])])
    # short intervals: only synchronizing steps; exact multiples: a last step of zero length
    s['sync'] = rnd.choice([s['end'], s['end'] * 0.37, s['end'] * 0.05, s['dt'] * 0.6, s['dt'] * 8, s['end'] * 0.5])
    s['sync'] = float('%.9g' % max(s['sync'], s['end'] / 40))
    wd = os.path.join(c.wdir, 's_%s_%d' % (eq, k)); os.makedirs(wd)
    key = kind
    ranks, threads = (1, rnd.choice([1, 2, 3, 5, 8])) if eq == 'swe' else rnd.choice([(1, 1), (1, 4), (1, 8), (2, 1), (2, 3), (3, 2), (4, 2), (3, 1), (5, 1)])
    rec = dict(vsim.describe(s), ranks=ranks, threads=threads)
    rc, o, b = vsim.prepare(exev, s, wd, ranks)
    if rc != 0: c.violation(key + '/edge_v-abnormal', vh.crash_text(rc, o), rec, [wd]); return
    srcs = []
    if eq == 'elastic' and rnd.random() < 0.7: srcs = [vsrc.write_random(c.ex['mksrc'], wd + '/src.h5', rnd, s, n=rnd.choice([1, 5, 20]))]
    rv = [('r%d' % i, *(([l + (h - l) * rnd.uniform(0.03, 0.97) for l, h in zip(s['lo'], s['hi'])] + [0.0])[:3])) for i in range(rnd.choice([0, 3, 12]))]
    md, wdl, seed, sep = rnd.choice([0, 30, 80]), rnd.choice([0, 30, 80]), rnd.randrange(1 << 30), rnd.choice([None, 0, 1])
    env = {'VH_BIAS': str(rnd.choice([0, 300, 2000])), 'VMPI_SKEW': str(rnd.choice([0, 3000, 20000]))}  # slow steps, slow directions of messages
    for attempt in (0, 1):
        rcs, outs, d = vsim.simulate(exe, s, wd, b, 'x', ranks, threads, seed, md, wdl, recv=(s['end'] / 9.3, rv) if rv and eq != 'swe' else None, trace=True, sep=sep, srcs=srcs, env=env)
        if None not in rcs: break
    rec.update(message_delay=md, work_delay=wdl, slow_steps=env['VH_BIAS'], slow_messages=env['VMPI_SKEW'], separate_workers=sep, run_seed=seed, sources=len(srcs), receivers=len(rv))
    if any(r != 0 for r in rcs):
        bad = [i for i, r in enumerate(rcs) if r not in (0, None)]
        i = bad[0] if bad else 0
        c.violation(key + '/abnormal', vh.crash_text(rcs[i], outs[i]) if bad else 'no progress within the time limit', rec, [wd]); return
    hd = [header(d + '/dump', r) for r in range(ranks)]
    err = vtrace.check(d, ranks, kind, [h[0] for h in hd], [h[1] for h in hd], s['end'], stats)
    for kk, t in err: c.violation(key + '/' + kk, t, rec, [wd + '/in.msh', d + '/e.xml'])
    c.case([eq, k, ranks, threads, s['groups']], sample=rec)

def run(c):
    progs = [vbuild.edgev_prog('edge_v', opt='-O0'), vsrc.prog()] + [vbuild.edge_prog('edge_%s' % x[0], x[0], x[1], x[2], 64, x[3], mpi=x[0] != 'swe', outdir=c.bdir, opt='-O0') for x in CONFIGS]
    c.ex = ex = c.build(progs)
    jobs = [(cfg, k) for cfg in CONFIGS for k in range(cfg[4] * c.pick(10, 60))]
    stats = {}
    c.parallel([(lambda cfg=cfg, k=k: one(c, ex['edge_' + cfg[0]], ex['edge_v'], cfg, k, c.sub(cfg[0], k), stats)) for cfg, k in jobs], 4)
    for k, v in stats.items(): c.extra[k] = len(v) if isinstance(v, set) else v

vh.main(run, 'C02', rule='recorded begin and end of every work package and message of randomized runs (meshes, time groups, ranks, threads, delays, synchronization intervals), checked offline; distinct by scenario',
        assumptions=['events are ordered by a counter incremented at the observation points', 'messages by a stand-in for MPI with random delays'])
