#!/usr/bin/env python3
"""Random small mutations of single source lines against one check, in scratch copies; prints the survivors.
usage: mutate.py CXX N SEED WORKERS file[:first-last] ...   (files relative to the repository)"""
import os, random, re, shutil, subprocess, sys, threading
check, n, seed, W = sys.argv[1].lower(), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
rng = random.Random(seed)
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\+=', '-='), (r'-=', '+='), (r'\+=', '='), (r'std::min', 'std::max'), (r'std::max', 'std::min'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bLeft\b', 'Right'), (r'(?<=[a-z])L\b', 'R'), (r'(?<=[a-z])R\b', 'L'),
       (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b2\b', '1'), (r'\b3\b', '2'), (r'\b0\.5\b', '0.25'), (r'\+\+', '--'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\[2\]', '[1]'), (r'(\[[^\]\[]+\])(\[[^\]\[]+\])', r'\2\1'), ('DEL', ''), ('DEL', ''), (r'if\(', 'if( !'), (r'\bcontinue;', 'break;'), (r'= -', '= '), (r'\b(\w+_)i\b', r'\1j')]
muts = []
for a in sys.argv[5:]:
    f, _, rg = a.partition(':'); L = open('/repo/' + f).read().split('\n'); lo, hi = (map(int, rg.split('-')) if rg else (1, len(L))); com = False
    for k, l in enumerate(L):
        s = l.strip()
        if s.startswith('/*'): com = True
        c = com
        if '*/' in s: com = False
        if c or not (lo <= k+1 <= hi) or s.startswith(('//', '#', '*', 'EDGE_', 'static_assert')): continue
        for rx, to in OPS:
            if rx == 'DEL':
                if re.match(r'^[\w\]\[\.\*:>-]+\s*([-+*/]?=|\().*;$', s) and not re.match(r'^(return|typedef|template|using)\b', s): muts.append((f, k, re.match(r'\s*', l).group() + ';'))
            else:
                for m in re.finditer(rx, l.split('//')[0]):
                    x = l[:m.start()] + m.expand(to) + l[m.end():]
                    if x != l: muts.append((f, k, x))
muts = list(dict.fromkeys(muts)); rng.shuffle(muts); muts = muts[:n]; print(len(muts), 'mutants', flush=True)
lock = threading.Lock(); stat = {}
def work(w):
    d = '/tmp/mut_%s_%d' % (check, w); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/verif')
    subprocess.run("mkdir %s/repo && cp -a /repo/src /repo/tools /repo/submodules %s/repo/" % (d, d), shell=True)
    subprocess.run("cp -a $(ls -d /verif/* | grep -v -e _build -e seeded) %s/verif/" % d, shell=True)
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'); cmd = ['python3', d + '/verif/checks/%s.py' % check]
    b = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if b.returncode: print('baseline fails', b.stdout[-1500:], b.stderr[-1500:]); return
    while True:
        with lock:
            if not muts: break
            f, k, x = muts.pop()
        p = d + '/repo/' + f; o = open(p).read(); L = o.split('\n'); old = L[k]; L[k] = x; open(p, 'w').write('\n'.join(L))
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=400); out = r.stdout + r.stderr
            res = 'survived' if r.returncode == 0 else 'killed' if 'VIOLATION' in out else 'nocompile'
        except subprocess.TimeoutExpired: res = 'timeout'
        open(p, 'w').write(o)
        with lock:
            stat[res] = stat.get(res, 0) + 1
            if res in ('survived', 'timeout'): print('%s %s:%d\n   - %s\n   + %s' % (res, f, k+1, old.strip(), x.strip()), flush=True)
    shutil.rmtree(d, ignore_errors=True)
T = [threading.Thread(target=work, args=(w,)) for w in range(W)]; [t.start() for t in T]; [t.join() for t in T]; print(stat)
