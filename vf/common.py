"""Shared pieces of the checks: building, running TLC, evidence, verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
NPROC = min(8, os.cpu_count() or 4)
T0 = time.time()
ASAN = ('detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:'
        'allocator_may_return_null=1:handle_abort=1:max_malloc_fill_size=4096:malloc_context_size=4:'
        'detect_container_overflow=0:symbolize=1')


def log(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


_work = None


def work():
    """scratch directory of this run"""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='vf.', dir='/tmp')
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


_built = {}


def build(target):
    if target in _built:
        return _built[target]
    keep = os.environ.get('VF_BUILD')   # development only: reuse a build directory
    out = keep or os.path.join(work(), 'build')
    exe = os.path.join(out, target)
    t = time.time()
    r = subprocess.run([os.path.join(ROOT, 'harness', 'build.sh'), out, target], env=dict(os.environ, REPO=REPO),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError('the harness does not build:\n' + r.stdout[-4000:])
    log('built %s in %.1fs' % (target, time.time() - t))
    _built[target] = exe
    return exe


def asan_env():
    return dict(os.environ, ASAN_OPTIONS=ASAN, LC_ALL='C')


CP = None


def java_cmd(mem):
    """the command line of the tlc wrapper, with a memory limit"""
    return ['java', '-Xmx%s' % mem, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
            '-cp', tlc_cp(), 'tlc2.TLC']


def tlc_cp():
    global CP
    if CP is None:
        w = open(shutil.which('tlc')).read()
        jars = re.findall(r'[\w/.\-]+\.jar', w)
        CP = ':'.join(dict.fromkeys(jars))
        if not CP:
            raise CheckError('cannot find the TLC jars')
    return CP


class Tlc:
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.ok = rc == 0 and ('No error has been found' in out or 'Finished in' in out) and 'Error:' not in out

    def printed(self, tag):
        """values printed with PrintT(<tag> \\o ToJson(..))"""
        r = []
        for l in self.out.splitlines():
            if l.startswith('"' + tag + ' '):
                r.append(json.loads(json.loads(l)[len(tag) + 1:]))
        return r


def tlc(module, cfg, workers=NPROC, mem='6g', env=None, args=(), timeout=None):
    d = tempfile.mkdtemp(prefix='tlc.', dir=work())
    cfgf = os.path.join(SPEC, cfg)
    if '\n' in cfg:
        cfgf = os.path.join(d, 'run.cfg')
        open(cfgf, 'w').write(cfg)
    t = time.time()
    cmd = java_cmd(mem)[:-1] + ['-DTLA-Library=' + SPEC, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'states'),
                                '-noGenerateSpecTE', '-config', cfgf, *args, os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), -1
    shutil.rmtree(d, ignore_errors=True)
    return Tlc(out, rc, time.time() - t)


def must(r, what):
    if not r.ok:
        raise CheckError('%s: TLC failed (%s)\n%s' % (what, r.rc, '\n'.join([l for l in r.out.split('\n') if not l.startswith('"')])[:3000]))
    return r


def known(prop):
    """open known findings of a property: list of (key, text)"""
    f = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    res = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


class Run:
    """One check run: collects coverage and violations, writes the evidence, gives the verdict."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.cov = {}
        self.viol = []
        self.seen_known = set()
        self.assume = []

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, list):
                self.cov.setdefault(k, [])
                self.cov[k] += v
            else:
                self.cov[k] = v

    def violation(self, what, data, key=None):
        """record a violation unless the known-findings file lists it"""
        for k, text in known(self.prop):
            if key == k:
                self.seen_known.add((k, text))
                return False
        d = os.path.join(ROOT, 'out')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.viol) + 1))
        json.dump({'property': self.prop, 'what': what, 'seed': SEED, 'tier': TIER, 'key': key, 'data': data}, open(p, 'w'), indent=1)
        self.viol.append((what, p))
        return True

    def finish(self):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        for k, v in self.cov.items():
            if isinstance(v, list):
                self.cov[k] = v[:6]
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - T0, 2), 'violations': len(self.viol)}
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k, text in known(self.prop):
            log('KNOWN-FINDING: property=%s %s%s' % (self.prop, text, '' if (k, text) in self.seen_known else ' [not met in this run]'))
        for what, p in self.viol[:5]:
            log('VIOLATION property=%s replay=%s' % (self.prop, p))
            log('  ' + what.replace('\n', '\n  ')[:3000])
        if len(self.viol) > 5:
            log('  ... %d more' % (len(self.viol) - 5))
        log('%s %s: %s in %.1fs' % (self.prop, TIER, 'VIOLATED' if self.viol else 'held', time.time() - T0))
        return 1 if self.viol else 0


def rng(*salt):
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, salt))))
