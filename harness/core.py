"""Recording executions of pyqcstrc and deciding them with TLC.

Everything that decides is in spec/*.tla.  This file only
  * runs the real code (imported from /repo/src) and records what went in and came out,
  * hands the recording to TLC together with the specification,
  * reports what TLC rejected.
"""
import os, sys, json, time, signal, subprocess, shutil, tempfile, re, hashlib, traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
NCPU = min(8, os.cpu_count() or 8)

# ----------------------------------------------------------------- encoding
def z(n):
    """integer -> BigInt.tla tuple"""
    n = int(n)
    if n == 0:
        return [0]
    s = 1 if n > 0 else -1
    n = abs(n)
    out = [s]
    while n:
        out.append(n & 32767)
        n >>= 15
    return out

def zq(x):
    """finite float -> exact numerator/denominator"""
    a, b = float(x).as_integer_ratio()
    return [z(a), z(b)]

def enc(x):
    if x is None:
        return {'k': 'none'}
    if isinstance(x, (bool, np.bool_)):
        return {'k': 'bool', 'v': bool(x)}
    if isinstance(x, (int, np.integer)):
        return {'k': 'int', 'v': z(x)}
    if isinstance(x, (float, np.floating)):
        return {'k': 'float', 'v': zq(x)} if np.isfinite(x) else {'k': 'nan'}
    if isinstance(x, str):
        return {'k': 'str', 'v': x}
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enc(x[()])
        if x.dtype.kind in 'iu' or (x.dtype.kind == 'O' and all(type(t) is int for t in x.ravel())):
            return {'k': 'arr', 'sh': list(x.shape), 'v': _nest(x.tolist(), z)}
        if x.dtype.kind == 'f':
            if not np.all(np.isfinite(x)):
                return {'k': 'nan'}
            return {'k': 'farr', 'sh': list(x.shape), 'v': _nest(x.tolist(), zq)}
        return {'k': 'other', 'v': 'ndarray ' + str(x.dtype)}
    if isinstance(x, (list, tuple)):
        return {'k': 'list', 'v': [enc(y) for y in x]}
    return {'k': 'other', 'v': type(x).__name__}

def _nest(x, f):
    return [_nest(y, f) for y in x] if isinstance(x, list) else f(x)

def i32(n):
    return {'k': 'int32', 'v': int(n)}

# ----------------------------------------------------------------- recording
class Hang(Exception):
    pass

def _alarm(*_):
    raise Hang()

CALL_LIMIT = int(os.environ.get('VERIF_CALL_LIMIT', '150'))

class quiet:
    """the library prints; keep that off our stdout"""
    def __enter__(self):
        sys.stdout.flush()
        self.fd = os.dup(1)
        self.nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.nul, 1)
    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.fd, 1)
        os.close(self.fd)
        os.close(self.nul)
        return False

def attempt(fn, *args, **kw):
    """(outcome, raw result) of a call; an exception or a hang is an outcome too"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CALL_LIMIT)
    try:
        with quiet():
            r = fn(*args, **kw)
        signal.alarm(0)
        return enc(r), r
    except Hang:
        return {'k': 'exc', 'v': 'does not return within %d s' % CALL_LIMIT}, None
    except MemoryError:
        raise
    except (Exception, SystemExit) as e:
        return {'k': 'exc', 'v': type(e).__name__}, None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)

class Session:
    def __init__(self, key, **info):
        self.key, self.info, self.ev = key, info, []
    def call(self, op, fn, *args, more=None, **kw):
        """call the real code and record the event; arguments are recorded as they were before"""
        a = [enc(x) for x in args]
        o, r = attempt(fn, *args, **kw)
        e = {'op': op, 'a': a, 'r': o}
        if more:
            e.update(more)
        self.ev.append(e)
        return r
    def event(self, op, a=(), r=None, more=None):
        e = {'op': op, 'a': list(a), 'r': r if r is not None else {'k': 'none'}}
        if more:
            e.update(more)
        self.ev.append(e)
    def out(self):
        d = {'id': self.key, 'ev': self.ev}
        d.update(self.info)
        return d

def pkg(name):
    """the package under test, as a namespace of its modules"""
    import importlib
    if REPO + '/src' not in sys.path:
        sys.path.insert(0, REPO + '/src')
    base = 'pyqcstrc.' + {'ico': 'ico2', 'dode': 'dode2'}[name]
    class NS: pass
    ns = NS()
    ns.name = name
    for m in ('math1', 'numericalc', 'symmetry', 'utils', 'intsct', 'occupation_domain', 'two_occupation_domains'):
        with quiet():
            setattr(ns, m, importlib.import_module(base + '.' + m))
    f = os.path.realpath(ns.math1.__file__)
    assert f.startswith(os.path.realpath(REPO) + '/'), f
    return ns

def _cover():
    """development aid (VERIF_COV): which lines of the library a check executes"""
    m = sys.monitoring
    hit = set()
    def line(code, n):
        if '/pyqcstrc/' in code.co_filename:
            hit.add((code.co_filename.split('/pyqcstrc/')[1], n))
        return m.DISABLE
    try:
        m.use_tool_id(3, 'cov')
    except ValueError:
        return hit
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    return hit

_hit = None
def _run_job(job):
    global _hit
    if os.environ.get('VERIF_COV'):
        if _hit is None:
            _hit = _cover()
        try:
            return _run_job1(job)
        finally:
            with open(os.path.join(os.environ['VERIF_COV'], str(os.getpid())), 'a') as f:
                for x in sorted(_hit):
                    f.write('%s:%d\n' % x)
                _hit.clear()
    return _run_job1(job)

def _run_job1(job):
    modname, fname, params = job
    import importlib
    sys.path.insert(0, HERE)
    m = importlib.import_module('props.' + modname)
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    try:
        out = getattr(m, fname)(**params)
        return [s.out() for s in out]
    except (OSError, MemoryError, ImportError):
        raise
    except Exception as e:
        # what the library returned cannot be used as the value it should be
        import traceback
        sys.stderr.write(traceback.format_exc())
        s = Session('%s/unusable' % fname + ''.join('/%s' % params[k] for k in ('n',) if k in params))
        s.event('crash', more={'what': '%s: %s' % (type(e).__name__, e)})
        return [s.out()]

def apart(fn, *a):
    """fn(*a) in a forked process of its own, so that nothing it leaves behind in the library is seen by others;
    fn returns a Session"""
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            with os.fdopen(wr, 'wb') as f:
                try:
                    v = ('ok', fn(*a))
                except Exception as e:
                    v = ('exc', e if isinstance(e, (OSError, MemoryError, ImportError)) else RuntimeError('%s: %s' % (type(e).__name__, e)))
                pickle.dump(v, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        return None
    k, v = pickle.loads(b)
    if k == 'exc':
        raise v
    return v

def run_jobs(modname, jobs, nproc=NCPU):
    """jobs: list of (pkgname, fname, params) -> {pkgname: [session,..]}"""
    res = {}
    todo = [(modname, f, dict(p, P=pk)) for pk, f, p in jobs]
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    with ProcessPoolExecutor(nproc) as ex:
        futs = [ex.submit(_run_job, t) for t in todo]
        for (pk, f, p), fut in zip(jobs, futs):
            try:
                out = fut.result()
            except BrokenProcessPool:
                s = Session('%s/%s/crash' % (pk, f))
                s.event('crash')
                out = [s.out()]
            res.setdefault(pk, []).extend(out)
    return res

# ----------------------------------------------------------------- TLC
def classes():
    """compile the Java overrides of BigInt/QF/Eager into a scratch directory"""
    d = os.path.join(VERIF, 'build', 'classes')
    src = sorted(os.path.join(VERIF, 'java', f) for f in os.listdir(os.path.join(VERIF, 'java')))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    mark = os.path.join(d, 'ok-' + h)
    if not os.path.exists(mark):
        tmp = tempfile.mkdtemp(prefix='cls', dir=_mk(os.path.join(VERIF, 'build')))
        subprocess.run(['javac', '-cp', TLA + '/tla2tools.jar', '-d', tmp] + src, check=True)
        open(os.path.join(tmp, 'ok-' + h), 'w').close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    return d

def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d

def cp(pure=False):
    jars = [TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar']
    return ':'.join(([] if pure else [classes()]) + jars)

class TlcError(Exception):
    pass

def tlc(module, consts, work, env=None, spec=None, extra_cfg='', args=(), workers=NCPU, mem='6g', pure=False,
        timeout=800, deadlock=False):
    """run TLC on spec/<module>.tla with the given constants; returns (stdout, stats)"""
    d = tempfile.mkdtemp(prefix='tlc', dir=work)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    cfg = ''
    for k, v in consts.items():
        cfg += 'CONSTANT %s %s %s\n' % (k, '<-' if isinstance(v, Sub) else '=', v)
    cfg += ('SPECIFICATION %s\n' % spec if spec else '') + extra_cfg
    open(os.path.join(d, 'run.cfg'), 'w').write(cfg)
    cmd = ['java', '-Xss512m', '-Xmx' + mem, '-XX:+UseParallelGC', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet',
           '-XX:MaxDirectMemorySize=512m', '-Djava.io.tmpdir=' + d, '-cp', cp(pure), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-config', 'run.cfg', '-noGenerateSpecTE']
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as ex:
        raise TlcError('TLC did not finish in %d s' % timeout)
    out = p.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    st = {'rc': p.returncode, 'generated': int(m[-1][0]) if m else 0, 'distinct': int(m[-1][1]) if m else 0,
          'wall': time.time() - t0}
    m = re.findall(r'The number of states generated: (\d+)', out)
    if m:
        st['generated'] = int(m[-1])
    shutil.rmtree(d, ignore_errors=True)
    return out, st

class Sub(str):
    """an operator substituted for a constant"""

def check_traces(module, pk, sessions, work, consts=None, timeout=800, step='TheStep', initst='TheInit', depth=0):
    """validate recorded sessions against spec/<module>.tla; returns (rejections, stats)
    rejection = (session index, event index, clause)"""
    if not sessions:
        return [], {'generated': 0, 'distinct': 0, 'wall': 0.0}
    path = os.path.join(work, 'trace-%s-%s.ndjson' % (module, pk))
    with open(path, 'w') as f:
        for s in sessions:
            f.write(json.dumps(s) + '\n')
    c = {'PKG': '"%s"' % pk, 'Step': Sub(step), 'InitSt': Sub(initst)}
    c.update(consts or {})
    out, st = tlc(module, c, work, env={'TRACE': path}, spec='Spec', timeout=timeout)
    rej = [(int(a) - 1, int(b) - 1, cl) for a, b, cl in
           re.findall(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out)]
    if 'REJECTED' in out and not rej:
        raise TlcError('cannot read the rejections\n' + out[-2000:])
    if st['rc'] != 0 or 'Model checking completed' not in out:
        m = re.findall(r'sess = (\d+)', out)
        if not m or 'OutOfMemory' in out:
            raise TlcError(out[-4000:])
        # the specification has no verdict on an event of this session: it is not a behaviour of the specification
        bad = int(m[-1]) - 1
        errs = [x for x in out.splitlines() if 'rror' in x or 'xception' in x][:3]
        sys.stderr.write(out[-1500:] + '\n')
        if depth >= 3:                       # enough of them: the others stay undecided
            st['sessions'] = len(sessions)
            return rej + [(bad, 0, 'not a behaviour of the specification: ' + ' '.join(errs)[:200])], st
        rest = sessions[:bad] + sessions[bad + 1:]
        r2, s2 = check_traces(module, pk, rest, work, consts, timeout, step, initst, depth + 1)
        return [(bad, 0, 'not a behaviour of the specification: ' + ' '.join(errs)[:200])] + [
            (a + (a >= bad), b, cl) for a, b, cl in r2], s2
    exp = sum(len(s['ev']) + 1 for s in sessions)
    if not rej and st['distinct'] != exp:
        raise TlcError('%d states instead of %d\n%s' % (st['distinct'], exp, out[-2000:]))
    st['sessions'] = len(sessions)
    return rej, st

# ----------------------------------------------------------------- reporting
def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.known, self.notes, self.assume = [], [], [], {}, []
        self.events = 0
        self.work = tempfile.mkdtemp(prefix='vrf-%s-' % pid)
        self.kf = known_findings(pid)

    def model(self, name, out, st, ok='No error has been found'):
        """account for a model-checking run of the specification itself"""
        self.states += st['distinct']
        self.transitions += st['generated']
        self.notes.setdefault('models', []).append({'model': name, 'distinct': st['distinct'], 'generated': st['generated'],
                                                    'wall_s': round(st['wall'], 1)})
        if st['rc'] != 0 or ok not in out:
            raise TlcError('model %s: %s' % (name, out[-3000:]))

    def violation(self, key, clause, replay):
        if key in self.kf:
            if key not in self.known:
                self.known.append(key)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.kf[key]))
            return
        d = _mk(os.path.join(EVID, 'replay'))
        name = re.sub(r'[^A-Za-z0-9_.-]+', '_', '%s-%s' % (self.pid, key))[:120] + '.json'
        path = os.path.join(d, name)
        json.dump(replay, open(path, 'w'))
        self.viol.append((key, clause, path))

    def traces_of(self, module, by_pkg, consts=None, timeout=800):
        for pk, sessions in sorted(by_pkg.items()):
            keys = {}
            for s in sessions:
                n = keys.get(s['id'], 0)
                keys[s['id']] = n + 1
                if n:
                    s['id'] += '#%d' % n
            rej, st = check_traces(module, pk, sessions, self.work, consts, timeout)
            self.states += st['distinct']
            self.transitions += st['generated']
            self.traces += len(sessions) - len({a for a, _, _ in rej})
            self.events += sum(len(s['ev']) for s in sessions)
            self.notes.setdefault('runs', []).append({'spec': module, 'package': pk, 'sessions': len(sessions),
                'events': sum(len(s['ev']) for s in sessions), 'states': st['distinct'], 'tlc_s': round(st['wall'], 1)})
            if sessions:
                for s in (sessions[0], sessions[len(sessions) // 2]):
                    self.samples.append({'package': pk, 'session': s['id'],
                                         'event': brief(s['ev'][-1]) if s['ev'] else None})
            for a, b, cl in rej:
                s = sessions[a]
                self.violation('%s/%s' % (pk, s['id']), cl, {'property': self.pid, 'spec': module, 'package': pk,
                               'clause': cl, 'event_index': b, 'session': s})

    def finish(self, level='model_checking'):
        shutil.rmtree(self.work, ignore_errors=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces, 'events': self.events,
                           'samples': self.samples[:6] or ['none'], **self.notes},
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        json.dump(ev, open(os.path.join(_mk(EVID), self.pid + '.json'), 'w'), indent=1)
        for key, clause, path in self.viol[:20]:
            print('rejected: %s: %s' % (key, clause))
        if len(self.viol) > 20:
            print('... and %d more' % (len(self.viol) - 20))
        if self.viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, self.viol[0][2]))
            return 1
        print('ok: property %s held on %d sessions, %d events, %d states (%.1f s)' %
              (self.pid, self.traces, self.events, self.states, time.time() - self.t0))
        return 0

def brief(x, n=600):
    def dz(v):
        if isinstance(v, list) and v and all(isinstance(t, int) for t in v):
            r = 0
            for t in reversed(v[1:]):
                r = (r << 15) | t
            return r * (v[0] if v[0] in (-1, 1) else 0)
        if isinstance(v, list):
            return [dz(t) for t in v]
        if isinstance(v, dict):
            if 'sh' in v:
                return dz(v['v'])
            return {k: (dz(t) if k != 'sh' else t) for k, t in v.items()}
        return v
    s = json.dumps(dz(x))
    return s if len(s) <= n else s[:n] + '...'
