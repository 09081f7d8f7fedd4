"""Shared runner: TLC invocation, implementation driver invocation, verdicts, evidence, known findings."""
import hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('FICUS_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
KNOWN = os.path.join(VERIF, 'known_findings.json')


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self):
        self.rc = None
        self.generated = 0
        self.distinct = 0
        self.cases = []     # PrintT("CASE " \o ToJson(..))
        self.bad = []       # PrintT("BAD " \o ToJson(..))
        self.info = []      # PrintT("INFO " \o ToJson(..))
        self.violated = None
        self.error = None
        self.out = ''
        self.wall = 0.0
        self.actions = {}


_prt = re.compile(r'^"(CASE|BAD|INFO) (.*)"$')
_gen = re.compile(r'^(\d+) states generated, (\d+) distinct states found')
_inv = re.compile(r'^Error: (Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated'
                  r'|Invariant (\S+) is violated by the initial state|Property (\S+) is violated by the initial state)')
_sim = re.compile(r'^The number of states generated: (\d+)')


def tlc(module, cfg_text, env=None, workers=8, timeout=600, simulate=None, seed=None, heap='6g', keep_out=False,
        coverage=False):
    """Runs TLC on spec/<module>.tla with the given configuration text in a scratch directory."""
    res = TlcResult()
    d = tempfile.mkdtemp(prefix='vtlc_')
    t0 = time.time()
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla') or f.endswith('.json'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg_text)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-config', 'run.cfg', '-noGenerateSpecTE']
        if coverage:
            cmd += ['-coverage', '1']
        if simulate:
            cmd += ['-simulate', simulate[0], '-depth', str(simulate[1])]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd.append(module + '.tla')
        e = dict(os.environ)
        e.update(env or {})
        outp = os.path.join(d, 'out.txt')
        with open(outp, 'w') as fo:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT)
            try:
                res.rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                res.rc = -1
                res.error = 'timeout after %ss' % timeout
        err_lines = []
        with open(outp, errors='replace') as fi:
            in_err = 0
            for line in fi:
                line = line.rstrip('\n')
                m = _prt.match(line)
                if m:
                    body = json.loads(json.loads('"' + m.group(2) + '"'))
                    {'CASE': res.cases, 'BAD': res.bad, 'INFO': res.info}[m.group(1)].append(body)
                    continue
                m = _gen.match(line)
                if m:
                    res.generated, res.distinct = int(m.group(1)), int(m.group(2))
                    continue
                m = _sim.match(line)
                if m:
                    res.generated = int(m.group(1))
                    continue
                m = _inv.match(line)
                if m:
                    res.violated = line
                    in_err = 40
                elif line.startswith('Error:'):
                    if res.error is None:
                        res.error = line
                    in_err = 40
                if in_err:
                    err_lines.append(line)
                    in_err -= 1
                m = re.match(r'^<(\w+) line .*>: (\d+):(\d+)', line)
                if m:
                    a = res.actions.setdefault(m.group(1), [0, 0])
                    a[0] += int(m.group(2))
                    a[1] += int(m.group(3))
        res.out = '\n'.join(err_lines[:200])
        if res.error and 'Parsing or semantic' in res.error:
            with open(outp, errors='replace') as fi:
                res.out = fi.read()[-2500:]
        if res.rc not in (0,) and res.violated is None and res.error is None:
            res.error = 'TLC exit code %s' % res.rc
            with open(outp, errors='replace') as fi:
                res.out = fi.read()[-3000:]
        res.wall = time.time() - t0
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cached_tlc(module, cfg, **kw):
    """What TLC finds on a model does not depend on the code; tools that run a check on many trees keep it (never set for a check)."""
    d = os.environ.get('VERIF_MODEL_CACHE')
    if not d:
        return tlc(module, cfg, **kw)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(repr((module, cfg, sorted(kw.items()))).encode())
    for f in sorted(os.listdir(SPEC)):
        h.update(open(os.path.join(SPEC, f), 'rb').read())
    p = os.path.join(d, h.hexdigest())
    if os.path.exists(p):
        return pickle.load(open(p, 'rb'))
    r = tlc(module, cfg, **kw)
    with open(p + '.%d' % os.getpid(), 'wb') as f:
        pickle.dump(r, f)
    os.replace(p + '.%d' % os.getpid(), p)
    return r


def py_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
             MPLCONFIGDIR='/opt/venv/mplconfig', FICUS_REPO=REPO, GRPC_VERBOSITY='NONE')
    e['PYTHONPATH'] = ''
    return e


def _prefix(p):
    return os.path.join(VERIF, 'harness', p)


def run_driver(driver, cases, workdir, procs=1, timeout=600, env=None):
    """Executes harness/<driver>.py on the implementation. Returns the list of recorded histories (in case order).
    A driver process that dies yields a single synthetic history with a failing step."""
    n = len(cases)
    procs = max(1, min(procs, n))
    chunks = [cases[i::procs] for i in range(procs)]
    ps = []
    for i, ch in enumerate(chunks):
        ci = os.path.join(workdir, '%s.%d.in' % (driver, i))
        co = os.path.join(workdir, '%s.%d.out' % (driver, i))
        ce = os.path.join(workdir, '%s.%d.err' % (driver, i))
        with open(ci, 'w') as f:
            for c in ch:
                f.write(json.dumps(c) + '\n')
        fe = open(ce, 'w')
        p = subprocess.Popen([PY, '-W', 'ignore', _prefix(driver + '.py'), ci, co], env=dict(py_env(), **(env or {})), cwd=workdir,
                             stdout=fe, stderr=subprocess.STDOUT)
        ps.append((p, co, ce, fe, ch))
    out = []
    deaths = []
    t_end = time.time() + timeout
    for p, co, ce, fe, ch in ps:
        try:
            rc = p.wait(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        fe.close()
        got = []
        if os.path.exists(co):
            with open(co) as f:
                for line in f:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
        out.extend(got)
        if rc != 0 or len(got) != len(ch):
            tail = open(ce, errors='replace').read()[-3000:]
            deaths.append({'rc': rc, 'done': len(got), 'of': len(ch), 'stderr': tail,
                           'case': ch[len(got)] if len(got) < len(ch) else None})
    return out, deaths


class Check:
    """One property check. Sub-classes / scripts call its methods and finally finish()."""

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.steps = 0
        self.samples = []
        self.viol = []
        self.kf = []
        self.notes = {}
        self.assumptions = []
        self.work = tempfile.mkdtemp(prefix='v_%s_' % pid)
        self.known = []
        if os.path.exists(KNOWN):
            self.known = [k for k in json.load(open(KNOWN))['findings']
                          if k['property'] == pid and k['status'] == 'known']

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- stage 1: the specification itself
    def model(self, module, cfg, label=None, **kw):
        r = cached_tlc(module, cfg, **kw)
        lab = label or module
        if r.violated:
            # the specification contradicts its own property: this is a defect of the machinery (specs are static)
            raise MachineryError('model %s: %s\n%s' % (lab, r.violated, r.out))
        if r.error:
            raise MachineryError('model %s: %s\n%s' % (lab, r.error, r.out))
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        self.notes.setdefault('models', {})[lab] = {'generated': r.generated, 'distinct': r.distinct,
                                                    'cases': len(r.cases), 'wall_s': round(r.wall, 1)}
        return r

    # -- stage 2: drive the implementation
    def drive(self, driver, cases, procs=8, timeout=600, env=None):
        hist, deaths = run_driver(driver, cases, self.work, procs=procs, timeout=timeout, env=env)
        for d in deaths:
            self.violation('driver-died', {'why': ['implementation driver %s did not finish: rc=%s' % (driver, d['rc'])],
                                           'death': d})
        return hist

    # -- stage 3: validate the recorded histories with TLC
    def validate(self, module, hist, cfg_extra='', label=None, workers=8, timeout=600, heap='8g'):
        lab = label or module
        if not hist:
            return
        f = os.path.join(self.work, lab + '.ndjson')
        with open(f, 'w') as fo:
            for h in hist:
                fo.write(json.dumps(h) + '\n')
        cfg = 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n' + cfg_extra
        r = tlc(module, cfg, env={'TRACES': f}, workers=workers, timeout=timeout, heap=heap)
        expected = sum(len(h['steps']) + 1 for h in hist)
        for b in r.bad:
            h = hist[b['h'] - 1]
            self._report(h, b)
        if r.error and 'Parsing or semantic' in r.error:
            raise MachineryError('validate %s: %s\n%s' % (lab, r.error, r.out))
        if r.error or r.violated:
            # the validator is total on well-formed recordings; bisect the recording that cannot be evaluated
            bad = self._bisect(module, hist, cfg, workers)
            if bad is None:
                raise MachineryError('validate %s: %s\n%s' % (lab, r.error or r.violated, r.out))
            self._report(bad[0], {'k': 0, 'why': ['recorded behaviour cannot be interpreted: ' + bad[1][:400]]})
        elif r.distinct != expected:
            raise MachineryError('validate %s: visited %d states, expected %d' % (lab, r.distinct, expected))
        self.states += r.distinct
        self.transitions += r.generated
        self.validated += len(hist)
        self.steps += expected - len(hist)
        self.notes.setdefault('validation', {})[lab] = {'histories': len(hist), 'steps': expected - len(hist),
                                                        'bad': len(r.bad), 'wall_s': round(r.wall, 1)}
        if len(self.samples) < 6:
            for h in hist[:1] + hist[len(hist) // 2:len(hist) // 2 + 1]:
                s = json.dumps(h)
                self.samples.append(h if len(s) < 1500 else s[:1500])
        return r

    def _bisect(self, module, hist, cfg, workers):
        """Finds one history on which the validator cannot be evaluated (bounded effort)."""
        lo = list(hist)
        last = None
        while len(lo) > 1:
            half = lo[:len(lo) // 2]
            e = self._eval_err(module, half, cfg, workers)
            if e:
                lo, last = half, e
                continue
            rest = lo[len(lo) // 2:]
            e = self._eval_err(module, rest, cfg, workers)
            if not e:
                return None
            lo, last = rest, e
        if last is None:
            last = self._eval_err(module, lo, cfg, workers)
        return (lo[0], last) if last else None

    def _eval_err(self, module, hist, cfg, workers):
        f = os.path.join(self.work, 'bisect.ndjson')
        with open(f, 'w') as fo:
            for h in hist:
                fo.write(json.dumps(h) + '\n')
        r = tlc(module, cfg, env={'TRACES': f}, workers=workers, timeout=300)
        return (str(r.error or r.violated) + ' ' + r.out) if (r.error or r.violated) else None

    def _report(self, h, b):
        why = b.get('why', [])
        for k in self.known:
            if k.get('history') == h.get('t') and set(why) <= set(k.get('clauses', [])):
                line = 'KNOWN-FINDING: property=%s %s' % (self.pid, k['what'])
                if line not in self.kf:
                    self.kf.append(line)
                return
        self.violation('history', {'history': h, 'step': b.get('k'), 'why': why, 'expected': b.get('exp')})

    def violation(self, kind, payload):
        self.viol.append(dict(kind=kind, **payload))

    def finish(self):
        for line in self.kf:
            print(line)
        rc = 0
        replay = None
        if self.viol:
            rc = 1
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, '%s.json' % self.pid)
            with open(replay, 'w') as f:
                few, seen = [], {}
                for v in self.viol:     # a few of each kind
                    w = str(v.get('why'))
                    seen[w] = seen.get(w, 0) + 1
                    if seen[w] <= 4 and len(few) < 40:
                        few.append(v)
                json.dump({'property': self.pid, 'count': len(self.viol), 'violations': few}, f, indent=1)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated, 'steps_validated': self.steps,
               'samples': self.samples, 'stages': self.notes, 'known_findings_seen': len(self.kf)}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s tier=%s seed=%d states=%d transitions=%d histories=%d steps=%d violations=%d wall=%.1fs' %
              (self.pid, self.tier, self.seed, self.states, self.transitions, self.validated, self.steps,
               len(self.viol), time.time() - self.t0))
        kinds = {}
        for v in self.viol:
            key = '; '.join(sorted(map(str, v.get('why') or ['?'])))[:300]
            kinds[key] = kinds.get(key, 0) + 1
        for key, n in sorted(kinds.items(), key=lambda x: -x[1])[:25]:
            print('  %5d x %s' % (n, key))
        for v in self.viol[:3]:
            print('  why=%s step=%s history=%s' % (v.get('why'), v.get('step'),
                                                   json.dumps(v.get('history', v.get('death')))[:700]))
        if rc:
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def main():
    """bin entry: run.py <ID> [quick|thorough]"""
    import importlib
    pid = sys.argv[1]
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    mod = importlib.import_module(pid.lower())
    c = Check(pid, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.run(c)
    except MachineryError as e:
        shutil.rmtree(c.work, ignore_errors=True)
        if c.viol:
            return c.finish()
        print('MACHINERY-ERROR %s: %s' % (pid, e))
        return 2
    return c.finish()
