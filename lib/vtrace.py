"""Offline monitor of recorded work and message events: exactly-once execution, dependencies, times, messages."""
import numpy as np, os

DT = np.dtype([('seq', 'u8'), ('kind', 'i4'), ('thread', 'i4'), ('tg', 'i8'), ('step', 'i8'), ('rgn', 'i8'), ('first', 'i8'), ('size', 'i8'), ('n', 'i8'), ('time', 'f8')])

def load(path):
    a = np.fromfile(path, dtype=DT)
    return a[np.argsort(a['seq'], kind='stable')]

def tiles(ev):
    """merged interval list if the (first, size) pairs are disjoint, else a text"""
    l = sorted((int(f), int(s)) for f, s in ev if s > 0)
    r = []
    for f, s in l:
        if r and f < r[-1][1]: return 'entities [%d, %d) worked on twice' % (f, min(r[-1][1], f + s))
        if r and f == r[-1][1]: r[-1][1] = f + s
        else: r.append([f, f + s])
    return r

# per equation: entries of the control flow, steps (local, source, neigh)
SPEC = {'seismic': dict(n=8, local=0, src=1, neigh=2), 'advection': dict(n=6, local=0, src=None, neigh=1), 'swe': dict(n=2, local=0, src=None, neigh=1)}

class Mon:
    def __init__(self, kind, n_els, n_fas, tend, stats):
        self.kind, self.sp, self.n_els, self.n_fas, self.tend, self.stats = kind, SPEC[kind], n_els, n_fas, tend, stats
        self.err = []
    def bad(self, key, txt):
        if len(self.err) < 5: self.err.append((key, txt))

    def rank(self, ev):
        """events of a single rank; returns {(peer, tag): [sizes]} of sends and receives"""
        sp = self.sp
        beg = np.flatnonzero(ev['kind'] == 3)
        if len(beg) == 0: self.bad('no-events', 'no simulation interval recorded'); return {}, {}
        ntg = int(ev['step'][beg[0]])
        # intervals
        cur, t0, region = 0, 0.0, {}
        b = [i for i in beg if ev['tg'][i] == 0]
        e = [i for i in np.flatnonzero(ev['kind'] == 4) if ev['tg'][i] == ntg - 1]
        if len(b) != len(e): self.bad('interval', '%d intervals begun, %d ended' % (len(b), len(e))); return {}, {}
        self.stats['intervals'] = self.stats.get('intervals', 0) + len(b)
        sends, recvs = {}, {}
        for i0, i1 in zip(b, e):
            it = ev[i0:i1 + 1]
            dur = float(ev['time'][i0])
            ends = it[it['kind'] == 4]
            for x in ends:
                if abs(x['time'] - (t0 + dur)) > 1e-9 * max(1.0, t0 + dur):
                    self.bad('reach', 'time group %d reached %.15g, the interval ends at %.15g' % (x['tg'], x['time'], t0 + dur))
            self.interval(it, ntg, t0, dur, region, sends, recvs)
            t0 += dur
        if abs(t0 - self.tend) > 1e-9 * max(1.0, self.tend): self.bad('end', 'simulated time %.15g, requested end time %.15g' % (t0, self.tend))
        # all events of work lie inside of intervals
        w = ev[(ev['kind'] == 1) | (ev['kind'] == 2)]
        tot = sum(int(((ev['kind'][i0:i1] == 1) | (ev['kind'][i0:i1] == 2)).sum()) for i0, i1 in zip(b, e))
        if tot != len(w): self.bad('outside', '%d work events outside of the simulation intervals' % (len(w) - tot))
        # regions of the groups tile the elements
        for st in (sp['local'], sp['neigh']):
            n = self.n_fas if self.kind == 'swe' and st == 0 else self.n_els
            a = []
            for tg in range(ntg): a += [(f, t - f) for f, t in region.get((tg, st), [])]
            t = tiles(a)
            if isinstance(t, str): self.bad('tile', 'step %d: %s' % (st, t))
            elif t != ([[0, n]] if n else []): self.bad('tile', 'step %d covers %s of %d entities' % (st, t, n))
        if self.kind != 'swe':
            for tg in range(ntg):
                if region.get((tg, sp['local']), []) != region.get((tg, sp['neigh']), []): self.bad('tile', 'time group %d: entities of the first and second half of the step differ' % tg)
        return sends, recvs

    def interval(self, it, ntg, t0, dur, region, sends, recvs):
        sp, st = self.sp, self.stats
        wb, we = it[it['kind'] == 1], it[it['kind'] == 2]
        st['work_packages'] = st.get('work_packages', 0) + len(wb)
        if len(wb) != len(we): self.bad('pairs', '%d work packages begun, %d ended' % (len(wb), len(we)))
        # interleaving: order of (tg, step) begins
        st.setdefault('interleavings', set()).add(hash(tuple((int(x['tg']), int(x['rgn']), int(x['thread'])) for x in wb)))
        cls = lambda a: a['rgn'] - a['tg'] * sp['n']
        info = []     # per group: list over updates of {(step, class): (min begin, max end)}
        for tg in range(ntg):
            b, e = wb[wb['tg'] == tg], we[we['tg'] == tg]
            ids = np.unique(b['n'])
            ups, times = [], []
            if len(ids) and not np.array_equal(ids, np.arange(ids[0], ids[0] + len(ids))): self.bad('updates', 'time group %d: updates %s' % (tg, ids[:10]))
            # all entities of the second half
            for n in ids:
                bn, en = b[b['n'] == n], e[e['n'] == n]
                if len(set(bn['time'])) != 1: self.bad('time', 'time group %d, update %d at different times %s' % (tg, n, sorted(set(bn['time']))[:3]))
                times.append(float(bn['time'][0]))
                d = {}
                for s in np.unique(bn['step']):
                    bs, es = bn[bn['step'] == s], en[en['step'] == s]
                    t = tiles(zip(bs['first'], bs['size'])); te = tiles(zip(es['first'], es['size']))
                    if isinstance(t, str): self.bad('exactly-once', 'time group %d, update %d, step %d: %s' % (tg, n, s, t)); continue
                    if t != te: self.bad('exactly-once', 'time group %d, update %d, step %d: begun %s, ended %s' % (tg, n, s, t, te))
                    k = (tg, int(s))
                    if k not in region: region[k] = t
                    elif region[k] != t: self.bad('exactly-once', 'time group %d, update %d, step %d worked on %s instead of %s' % (tg, n, s, t, region[k]))
                    for c in np.unique(cls(bs)):
                        m, me = cls(bs) == c, cls(es) == c
                        d[int(s), int(c)] = (int(bs['seq'][m].min()), int(es['seq'][me].max()) if me.any() else 1 << 62)
                for s in ([sp['local'], sp['neigh']]):
                    if region.get((tg, s)) and not any(k[0] == s for k in d): self.bad('exactly-once', 'time group %d, update %d misses step %d' % (tg, n, s))
                if sp['src'] is not None and region.get((tg, sp['src'])) and not any(k[0] == sp['src'] for k in d): self.bad('exactly-once', 'time group %d, update %d misses the sources' % (tg, n))
                ups.append(d)
            info.append((ups, times))
            st['updates'] = st.get('updates', 0) + len(ups)
        B = lambda u, s, c=None: min([v[0] for k, v in u.items() if k[0] == s and (c is None or k[1] == c)] or [1 << 62])
        E = lambda u, s, c=None: max([v[1] for k, v in u.items() if k[0] == s and (c is None or k[1] == c)] or [-1])
        L, S, N = sp['local'], sp['src'], sp['neigh']
        def after(key, x, y, txt):
            st['dependencies'] = st.get('dependencies', 0) + 1
            if not x < y: self.bad(key, txt)
        # number of updates, times
        full = [tg for tg in range(ntg) if len(info[tg][0])]
        for tg in range(ntg):
            ups, times = info[tg]
            if not ups: continue
            if abs(times[0] - t0) > 1e-9 * max(1.0, t0): self.bad('time', 'time group %d starts at %.15g, interval starts at %.15g' % (tg, times[0], t0))
            if any(times[i + 1] < times[i] for i in range(len(times) - 1)): self.bad('time', 'time group %d: decreasing times' % tg)
            for i, u in enumerate(ups):
                after('order', E(u, L), B(u, N), 'time group %d, update %d: second half of the step began before the first half was complete' % (tg, i))
                if i: after('order', E(ups[i - 1], N), B(u, L), 'time group %d, update %d began before the previous update was complete' % (tg, i))
                if S is not None:
                    # the sources follow the local step and precede the neighboring one (inner: 2, 4, send: 3, 5)
                    for cl, cs, cn in ((0, 2, 4), (1, 3, 5)):
                        if (S, cs) in u:
                            after('order-src', E(u, L, cl), B(u, S, cs), 'time group %d, update %d: sources before the local step' % (tg, i))
                            after('order-src', E(u, S, cs), B(u, N, cn), 'time group %d, update %d: second half of the step before the sources' % (tg, i))
            if tg + 1 < ntg and info[tg + 1][0]:
                u2, t2 = info[tg + 1]
                if len(ups) != 2 * len(u2): self.bad('rate', 'time groups %d and %d: %d and %d updates' % (tg, tg + 1, len(ups), len(u2))); continue
                for i, u in enumerate(u2):
                    if abs(times[2 * i] - t2[i]) > 1e-9 * max(1.0, t2[i]): self.bad('rate', 'time groups %d and %d not aligned: %.15g vs. %.15g' % (tg, tg + 1, times[2 * i], t2[i]))
                    a, b2 = ups[2 * i], ups[2 * i + 1]
                    after('lts', E(u, L), B(a, N), 'update %d of time group %d consumed data of group %d before it was complete' % (2 * i, tg, tg + 1))
                    after('lts', E(u, L), B(b2, N), 'update %d of time group %d consumed data of group %d before it was complete' % (2 * i + 1, tg, tg + 1))
                    after('lts', max(E(a, L), E(b2, L)), B(u, N), 'update %d of time group %d consumed data of group %d before it was complete' % (i, tg + 1, tg))
                    if i + 1 < len(u2):
                        after('lts', E(b2, N), B(u2[i + 1], L), 'time group %d overwrote data before group %d consumed it' % (tg + 1, tg))
                        after('lts', E(u, N), B(ups[2 * i + 2], L), 'time group %d overwrote data before group %d consumed it' % (tg, tg + 1))
        # messages
        ms = it[(it['kind'] >= 5) & (it['kind'] <= 8)]
        for snd, kp, kd, store in ((True, 5, 6, sends), (False, 7, 8, recvs)):
            post, done = ms[ms['kind'] == kp], ms[ms['kind'] == kd]
            for peer, tag in sorted(set((int(x['tg']), int(x['step'])) for x in post)):
                p = post[(post['tg'] == peer) & (post['step'] == tag)]
                d = done[(done['tg'] == peer) & (done['step'] == tag)]
                store.setdefault((peer, tag), []).extend(int(x) for x in p['size'])
                st['messages'] = st.get('messages', 0) + len(p)
                tl, tr = tag // ntg, tag % ntg
                if tl >= ntg or abs(tl - tr) > 1: continue
                g, o = (tl, tr) if snd else (tr, tl)
                ups = info[g][0]
                want = len(ups) // 2 if g < o else len(ups)
                what = '%s rank %d, groups %d -> %d' % ('messages to' if snd else 'messages from', peer, tl, tr)
                if len(p) != want: self.bad('messages', '%s: %d messages in %d updates' % (what, len(p), len(ups))); continue
                if len(d) != len(p): self.bad('messages', '%s: %d posted, %d completed within the interval' % (what, len(p), len(d))); continue
                for k in range(len(p)):
                    if not p['seq'][k] < d['seq'][k] or (k and not d['seq'][k - 1] < p['seq'][k]): self.bad('messages', '%s: message %d overtakes' % (what, k))
                    if snd:
                        n = 2 * k + 1 if g < o else k
                        nx = 2 * k + 3 if g < o else k + 1
                        after('send', E(ups[n], L, 1), int(p['seq'][k]), '%s: message %d sent before the data was computed' % (what, k))
                        if nx < len(ups): after('send', int(d['seq'][k]), B(ups[nx], L, 1), '%s: data of message %d overwritten before it was sent' % (what, k))
                    else:
                        n0 = 2 * k if g < o else k
                        n1 = 2 * k + 1 if g < o else k
                        c = 5 if self.kind == 'seismic' else 3
                        after('recv', int(d['seq'][k]), B(ups[n0], N, c), '%s: message %d consumed before it was received' % (what, k))
                        if k + 1 < len(p): after('recv', E(ups[n1], N, c), int(p['seq'][k + 1]), '%s: buffer of message %d reused before its data was consumed' % (what, k))

def check(d, ranks, kind, n_els, n_fas, tend, stats):
    """n_els, n_fas: per rank. Returns list of (key, text)"""
    m = Mon(kind, 0, 0, tend, stats)
    s, r = [], []
    for k in range(ranks):
        m.n_els, m.n_fas = n_els[k], n_fas[k]
        n = len(m.err)
        a, b = m.rank(load(d + '/trace.%d' % k)); s.append(a); r.append(b)
        m.err[n:] = [(x, 'rank %d: %s' % (k, y)) for x, y in m.err[n:]]
    for i in range(ranks):
        for (peer, tag), l in s[i].items():
            if r[peer].get((i, tag)) != l: m.bad('match', 'messages of rank %d to rank %d (tag %d): %d sent, %d received or sizes differ' % (i, peer, tag, len(l), len(r[peer].get((i, tag), []))))
        for (peer, tag), l in r[i].items():
            if (i, tag) not in s[peer]: m.bad('match', 'rank %d receives from rank %d (tag %d), which sends nothing' % (i, peer, tag))
    return m.err
