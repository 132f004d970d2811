"""Point source descriptions (HDF5, written by a small program as no Python bindings are available)."""
import os, subprocess, numpy as np
import vbuild

def prog():
    p = vbuild.Prog('mksrc', opt='-O0')
    p.add(vbuild.STUBS + '/lib/mksrc.cpp', defs=[], incs=[])
    p.libs += vbuild.HDF5
    return p

def write(exe, path, dim, nq, srcs):
    """srcs: list of (coords, scalings, t0, dt, samples)"""
    with open(path + '.txt', 'w') as f:
        f.write('%d %d %d\n' % (dim, nq, len(srcs)))
        for x, sc, t0, dt, ts in srcs:
            f.write(' '.join('%.9g' % v for v in list(x) + list(sc) + [t0, dt]) + ' %d ' % len(ts) + ' '.join('%.9g' % v for v in ts) + '\n')
    subprocess.check_call([exe, path + '.txt', path])
    return path

def random(rnd, s, n, amp=1.0):
    """random sources of a scenario; all numbers representable as float"""
    f = lambda v: float(np.float32(v))
    r = []
    nq = 5 if s['dim'] == 2 else 9
    T = s['end']
    for i in range(n):
        x = [f(l + (h - l) * rnd.uniform(0.02, 0.98)) for l, h in zip(s['lo'], s['hi'])]
        if i and rnd.random() < 0.3: x = [f(v + 1e-3 * (rnd.random() - 0.5) * (h - l)) for v, l, h in zip(r[-1][0], s['lo'], s['hi'])]
        x = [min(max(v, f(l + (h - l) * 0.01)), f(l + (h - l) * 0.99)) for v, l, h in zip(x, s['lo'], s['hi'])]
        sc = [f(rnd.uniform(-1, 1) * amp) for _ in range(nq)]
        m = rnd.choice([2, 3, 7, 40])
        t0 = f(rnd.choice([0.0, 0.0, rnd.uniform(-0.3, 0.8) * T]))
        dt = f(rnd.uniform(0.2, 1.3) * T / (m - 1))
        r.append((x, sc, t0, dt, [f(rnd.uniform(-1, 1)) for _ in range(m)]))
    return nq, r

def write_random(exe, path, rnd, s, n):
    nq, r = random(rnd, s, n)
    return write(exe, path, s['dim'], nq, r)
