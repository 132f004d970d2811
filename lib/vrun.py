"""Runs the EDGE-V / EDGE pipeline on generated inputs: meshes, configs, ranks (mini-MPI), threads, delays."""
import os, subprocess, time, json, re, random, glob, shutil, struct
import vmesh

# time limit of a single run in seconds; runs take well below a tenth of it
LIMIT = float(os.environ.get('VERIF_RUN_LIMIT', '120'))
LIVE = set()   # running programs
STOP = []      # no more programs are started

def kill_all():
    STOP.append(1)
    for p in list(LIVE):
        try: p.kill()
        except OSError: pass

class RunError(Exception):
    """the program under test misbehaved: text describes how"""

def env_base(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OMP_', 'VMPI_', 'GOMP_', 'VH_'))}
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
    e['TSAN_OPTIONS'] = 'exitcode=98'
    e['OMP_NUM_THREADS'] = '1'
    if extra: e.update(extra)
    return e

def run(cmd, cwd=None, env=None, limit=None, stdin=None):
    """returns (rc, output); rc None: time limit"""
    while STOP: time.sleep(1)
    p = subprocess.Popen(cmd, cwd=cwd, env=env_base(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL)
    LIVE.add(p)
    try:
        o, _ = p.communicate(stdin, timeout=limit or LIMIT)
        return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        p.kill(); o, _ = p.communicate()
        return None, o.decode(errors='replace')
    finally: LIVE.discard(p)

def edge_v_xml(path, inp, base, n_parts=1, n_groups=1, fdt=None, periodic=None, seismic=None, tsunami='', annot=False, reorder_only=False, ext='.msh', dts=None, cbased=None, refinement=''):
    m = ''
    if periodic is not None: m += '<periodic>%d</periodic>' % periodic
    m += '<files><in>%s</in><out><base>%s</base><extension>%s</extension></out></files>' % (inp, base, ext)
    m += '<n_partitions>%d</n_partitions>' % n_parts
    if annot: m += '<write_element_annotations>true</write_element_annotations>'
    if reorder_only: m += '<reorder_only>true</reorder_only>'
    v = '<seismic_expression>%s</seismic_expression>' % seismic if seismic else tsunami
    t = '<n_groups>%d</n_groups>' % n_groups
    if fdt is not None: t += '<fundamental_time_step>%r</fundamental_time_step>' % fdt
    if cbased is not None: t += '<centroid_based_cfl>%s</centroid_based_cfl>' % ('true' if cbased else 'false')
    if dts: t += '<files><out><time_steps>%s</time_steps></out></files>' % dts
    open(path, 'w').write('<edge_v><mesh>%s</mesh><velocity_model>%s</velocity_model>%s<time>%s</time></edge_v>' % (m, v, refinement, t))

def run_edge_v(exe, wd, name, threads=1, **kw):
    x = os.path.join(wd, name + '.xml')
    edge_v_xml(x, **kw)
    rc, o = run([exe, '-x', x], cwd=wd, env={'OMP_NUM_THREADS': str(threads)})
    return rc, o

def edge_xml(path, base, ext='.msh', boundary=None, domains=None, init=(), end=1.0, wf=None, recv=None, err=None, sync=None, srcs=(), att=None, sep=None, sptypes='', extra_setups=''):
    """domains: list of (halfspaces [(origin, normal)], dict of pars); recv: (dir, freq, [(name,x,y,z)]); wf: (type, file, int[, sparse])"""
    s = '<edge><cfr><mesh><in><base>%s</base><extension>%s</extension></in>' % (base, ext)
    s += '<boundary>' + ''.join('<%s>%d</%s>' % (k, v, k) for k, v in (boundary or {}).items()) + '</boundary>'
    s += sptypes + '</mesh>'
    if domains:
        s += '<velocity_model>'
        for hs, pars in domains:
            s += '<domain>'
            for o, n in hs:
                s += '<half_space><origin><x>%r</x><y>%r</y><z>%r</z></origin><normal><x>%r</x><y>%r</y><z>%r</z></normal></half_space>' % (tuple(o) + tuple(n))
            s += ''.join('<%s>%r</%s>' % (k, v, k) for k, v in pars.items()) + '</domain>'
        s += '</velocity_model>'
    s += '<setups>'
    if init: s += '<initial_values>' + ''.join('<v>%s</v>' % i for i in init) + '</initial_values>'
    if srcs: s += '<point_sources>' + ''.join('<file>%s</file>' % f for f in srcs) + '</point_sources>'
    if att: s += '<attenuation><central_frequency>%r</central_frequency><frequency_ratio>%r</frequency_ratio></attenuation>' % att
    s += '<end_time>%r</end_time>%s</setups><output>' % (end, extra_setups)
    if wf:
        s += '<wave_field><type>%s</type><file>%s</file><int>%r</int>' % wf[:3]
        if len(wf) > 3: s += '<sparse_type>%d</sparse_type>' % wf[3]
        s += '</wave_field>'
    if recv:
        s += '<receivers><path_to_dir>%s</path_to_dir><freq>%r</freq>' % (recv[0], recv[1])
        for n, x, y, z in recv[2]: s += '<receiver><name>%s</name><coords><x>%r</x><y>%r</y><z>%r</z></coords></receiver>' % (n, x, y, z)
        s += '</receivers>'
    if err: s += '<error_norms><type>%s</type><file>%s</file><reference_values>%s</reference_values></error_norms>' % (err[0], err[1], ''.join('<v>%s</v>' % e for e in err[2]))
    s += '</output></cfr>'
    if sync is not None: s += '<synchronization><max_int>%r</max_int></synchronization>' % sync
    if sep is not None: s += '<parallelization><separate_workers>%d</separate_workers></parallelization>' % sep
    s += '</edge>'
    open(path, 'w').write(s)

def run_edge(exe, wd, xml, ranks=1, threads=1, seed=0, delay=0, dump=None, env=None, limit=None):
    """starts all ranks; returns (list of rc, list of outputs). dump: base name of the dumped final state (hook)"""
    while STOP: time.sleep(1)
    f = os.path.join(wd, 'vmpi_%d_%d' % (os.getpid(), random.getrandbits(30)))
    open(f, 'w').close()
    ps = []
    for r in range(ranks):
        e = {'OMP_NUM_THREADS': str(threads if isinstance(threads, int) else threads[r]), 'VMPI_FILE': f, 'VMPI_RANK': str(r), 'VMPI_SIZE': str(ranks), 'VMPI_SEED': str(seed), 'VMPI_DELAY': str(delay), 'OMP_WAIT_POLICY': 'passive'}
        if dump: e['VH_DUMP'] = dump
        if env: e.update(env)
        lf = open(os.path.join(wd, 'log_%d_%d' % (os.getpid(), r)), 'w+b')
        ps.append((subprocess.Popen([exe, '-x', xml], cwd=wd, env=env_base(e), stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL), lf)); LIVE.add(ps[-1][0])
    t0 = time.time(); lim = limit or LIMIT
    while time.time() - t0 < lim:
        rcs = [p.poll() for p, _ in ps]
        if all(r is not None for r in rcs): break
        # a failed rank leaves the others waiting
        if any(r not in (None, 0) for r in rcs):
            time.sleep(0.5); break
        time.sleep(0.01)
    rcs = []
    outs = []
    for p, lf in ps:
        if p.poll() is None:
            p.kill(); p.wait(); rcs.append(None)
        else: rcs.append(p.returncode)
        LIVE.discard(p); lf.seek(0); outs.append(lf.read().decode(errors='replace')); lf.close(); os.unlink(lf.name)
    os.unlink(f)
    return rcs, outs

def read_recv(path):
    """receiver csv -> (header, rows)"""
    l = [x for x in open(path).read().split("\n") if x and not x.startswith("#")]
    return l[0].split(','), [[float(v) for v in r.split(',')] for r in l[1:] if r]

def all_recv(d):
    """all receivers below a directory: {name: [(rank, header, rows)]}"""
    res = {}
    for f in sorted(glob.glob(d + '/**/*.csv', recursive=True)):
        n = os.path.basename(f)[:-4]
        rk = os.path.basename(os.path.dirname(f))
        res.setdefault(n, []).append((rk,) + read_recv(f))
    return res
