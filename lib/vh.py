"""Common part of all checks: seeds, evidence, known findings, replays, exit codes."""
import os, sys, json, time, random, hashlib, shutil, traceback, re, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import vbuild, vrun

def known():
    """known-findings.txt: lines 'known: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing"""
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
            if m: res.append(m.groups())
    return res

class View:
    def __init__(self, c, rnd): self.__dict__.update(_c=c, rnd=rnd)
    def __getattr__(self, k): return getattr(self._c, k)

class Check:
    def __init__(self, prop, level='exploration', rule='', assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'): self.tier = sys.argv[1]
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.rnd = random.Random('%s/%d/%s' % (prop, self.seed, self.tier))
        self.t0 = time.time()
        self.bdir = os.path.join(VERIF, '_build', prop)
        self.wdir = os.path.join(self.bdir, 'work')
        shutil.rmtree(self.wdir, ignore_errors=True)
        os.makedirs(self.wdir)
        self.rdir = os.path.join(VERIF, '_build', 'replay', prop)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.skipped, self.tviol, self.fin = None, None, threading.Lock()
        self.evals, self.sigs, self.samples, self.extra = 0, set(), [], {}
        self.viol, self.kn = [], {}
        self.known = [(k, t) for p, k, t in known() if p == prop]
        self.skipped = 0
    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)
    def pick(self, q, t):
        """number of cases: quick or thorough"""
        return t if self.thorough else q
    def case(self, sig, nontrivial=True, sample=None, n=1):
        """counts evaluations; sig identifies the case"""
        self.evals += n
        if nontrivial: self.sigs.add(sig if isinstance(sig, (str, int)) else json.dumps(sig, sort_keys=True, default=str))
        if sample is not None and len(self.samples) < 12: self.samples.append(sample)
    def observe(self, key, n=1):
        """counts what the monitors saw"""
        self.extra[key] = self.extra.get(key, 0) + n
    def violation(self, key, text, replay=None, files=()):
        """key identifies the failing input, call site or history"""
        for k, t in self.known:
            if k == key or (k.endswith('*') and key.startswith(k[:-1])):
                self.kn[k] = t
                return
        if len(self.viol) >= 20: return
        os.makedirs(self.rdir, exist_ok=True)
        p = os.path.join(self.rdir, 'v%02d.json' % len(self.viol))
        d = dict(property=self.prop, key=key, text=text, seed=self.seed, tier=self.tier, replay=replay)
        cp = []
        for f in files:
            if f and os.path.exists(f):
                q = os.path.join(self.rdir, 'v%02d_%s' % (len(self.viol), os.path.basename(f)))
                (shutil.copytree if os.path.isdir(f) else shutil.copy)(f, q); cp.append(q)
        d['files'] = cp
        json.dump(d, open(p, 'w'), indent=1, default=str)
        self.viol.append((key, text, p))
        if self.tviol is None: self.tviol = time.time()
        self.log('violation:', key, str(text)[:600])
    def sub(self, *key):
        """random generator of its own for a case: independent of the order of execution"""
        return random.Random('%s/%d/%s/%s' % (self.prop, self.seed, self.tier, '/'.join(str(k) for k in key)))
    def view(self, *key):
        """this check with a random generator of its own"""
        return View(self, self.sub(*key))
    def parallel(self, jobs, n):
        """runs functions in n threads; the first exception is raised"""
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(n) as p:
            fs = [p.submit(lambda j=j: None if self.enough() else j()) for j in jobs]
            for f in fs: f.result()
    def enough(self):
        """violations were found a while ago: the remaining cases are left out"""
        return self.tviol is not None and time.time() - self.tviol > self.pick(60, 600)
    def watch(self):
        """a broken program might block run after run: report what was found in time"""
        while True:
            time.sleep(5); t = time.time()
            if self.tviol is not None and (t - self.tviol > self.pick(150, 3000) or t - self.t0 > self.pick(700, 10**9)): self.log('ending early'); self.finish()
    def build(self, progs):
        t = time.time()
        r = vbuild.make(progs, self.bdir)
        self.log('built %s in %.1f s' % (', '.join(p.name for p in progs), time.time() - t))
        return r
    def harness(self, exe, args=(), label='', limit=None, env=None, cwd=None):
        """runs a harness (see harness/vh.hpp) and collects its reports; an abnormal end is a violation"""
        miss = [x for x in [exe] + list(args) if isinstance(x, vbuild.Missing)]
        if miss:
            for x in miss: self.log('not built:', os.path.basename(x), x.error[:600]); self.extra['not_built_' + os.path.basename(x)] = 1
            self.skipped = miss; return self
        rc, o = vrun.run([exe] + [str(a) for a in args], env=env, limit=limit, cwd=cwd)
        rec = dict(cmd=[exe] + [str(a) for a in args], label=label)
        label = label or os.path.basename(exe)
        nf = 0
        for l in o.split('\n'):
            f = l.split('\t')
            if f[0] == 'FAIL' and len(f) >= 3:
                nf += 1; self.violation(label + '/' + f[1], '\t'.join(f[2:]), rec)
            elif f[0] == 'STAT' and len(f) == 3: self.observe(f[1], int(float(f[2])))
            elif f[0] == 'SIG': self.sigs.add(label + ':' + '\t'.join(f[1:]))
            elif f[0] == 'SAMPLE' and len(self.samples) < 12: self.samples.append(label + ': ' + f[1])
            elif f[0] == 'EVAL': self.evals += int(f[1])
        done = 'HARNESS-DONE' in o
        if rc != 0 or not done:
            if rc is None and nf == 0: # time limit: try again with more time before judging
                rc, o2 = vrun.run([exe] + [str(a) for a in args], env=env, limit=(limit or vrun.LIMIT) * 1.5, cwd=cwd)
                if rc == 0 and 'HARNESS-DONE' in o2: return self
                o = o2 or o
            t = [x for x in o.split('\n') if not x.startswith(('SIG\t', 'STAT\t', 'FAIL\t', 'SAMPLE'))]
            self.violation(label + '/abnormal', crash_text(rc if rc is not None else 'time limit', '\n'.join(t)) or 'ended early: ' + '\n'.join(t)[-300:], dict(rec, output='\n'.join(t)[-6000:]))
        return self
    def finish(self):
        self.fin.acquire()
        vrun.kill_all()
        self.evals = self.evals or sum(v for k, v in self.extra.items() if k.startswith('eval'))
        if self.skipped and not self.evals and not self.viol:
            print('BUILD-ERROR', self.skipped[0].error, flush=True); os._exit(2)
        for k, t in self.kn.items(): print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, t, k))
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.sigs), rule=self.rule, samples=self.samples)
        if self.extra: cov['observed'] = self.extra
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1, default=str)
        shutil.rmtree(self.wdir, ignore_errors=True)
        for k, t, p in self.viol: print('VIOLATION property=%s replay=%s' % (self.prop, p))
        self.log('done: %d evaluations, %d distinct, %d violations' % (self.evals, len(self.sigs), len(self.viol)))
        sys.stdout.flush()
        os._exit(1 if self.viol else 0)

def main(fn, prop, **kw):
    """runs fn(check); an error of the check itself (e.g., the tree does not build) exits with 2"""
    c = Check(prop, **kw)
    threading.Thread(target=c.watch, daemon=True).start()
    try:
        fn(c)
    except vbuild.BuildError as e:
        print('BUILD-ERROR', e, flush=True)
        os._exit(2)
    except (OSError, MemoryError):
        traceback.print_exc()
        if c.viol: c.finish()
        os._exit(2)
    except Exception as e:
        # the programs left something behind which the oracles cannot interpret
        traceback.print_exc()
        c.violation('uninterpretable', '%s: %s' % (type(e).__name__, str(e)[:300]), dict(trace=traceback.format_exc()))
    c.finish()

SAN_RE = re.compile(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|MINIMPI-MISUSE[^\n]*|FATAL[^\n]*|Check failed[^\n]*|terminate called[^\n]*|what\(\)[^\n]*|Assertion[^\n]*)')

def crash_text(rc, out):
    """short description of an abnormal end, None if normal"""
    if rc == 0: return None
    m = SAN_RE.search(out)
    return 'rc=%s %s' % (rc, m.group(1)[:300] if m else out[-300:].strip())
