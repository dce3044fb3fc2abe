"""Common driver: build harnesses from the current tree, run them, confirm, report, write evidence."""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = os.cpu_count() or 8
BASE_LIBS = ['-Wl,-z,muldefs', '-ltbb', '-lboost_timer', '-lboost_chrono', '-lpthread']
STD = ['-std=c++14', '-w']


class CheckError(Exception):
    pass


def sh(cmd, timeout=900, **kw):
    """Runs cmd in its own process group; kills the whole group on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode(errors='replace')


CONFIGS = {  # name -> defined macros; 'default' is the repository's default build
    'default': ['BOOST', 'TBB', 'INVARIANTS_CHECK'],
    'mpi': ['BOOST', 'TBB', 'MPI', 'INVARIANTS_CHECK'],
    'mpionly': ['BOOST', 'MPI', 'INVARIANTS_CHECK'],
    'notbb': ['BOOST', 'INVARIANTS_CHECK'],
    'none': ['BOOST'],
    'logging': ['BOOST', 'TBB', 'INVARIANTS_CHECK', 'LOGGING'],
}


def gen_config(incdir, which):
    """Instantiates config.hpp.in the way CMake's configure_file does."""
    on = set(CONFIGS[which])
    src = open(os.path.join(REPO, 'include/parmcb/config.hpp.in')).read()
    lines = []
    for ln in src.splitlines():
        m = re.match(r'\s*#\s*cmakedefine(01)?\s+(\w+)(.*)', ln)
        if m:
            name = m.group(2)
            val = any(name == 'PARMCB_HAVE_' + o or name == 'PARMCB_' + o or name.endswith('_' + o) for o in on)
            if m.group(1):
                ln = '#define %s %d' % (name, 1 if val else 0)
            else:
                ln = '#define %s%s' % (name, m.group(3)) if val else '/* #undef %s */' % name
        ln = re.sub(r'@\w+@', '0', ln)
        lines.append(ln)
    d = os.path.join(incdir, 'parmcb')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'config.hpp'), 'w') as f:
        f.write('\n'.join(lines) + '\n')


class Build:
    """Parallel compile + link into a fresh directory of its own."""

    def __init__(self, pid):
        self.dir = os.path.join(VERIF, 'build', '%s.%d' % (pid, os.getpid()))
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.pool = concurrent.futures.ThreadPoolExecutor(NCPU)
        self.incs = {}
        self.t0 = time.time()
        self.secs = 0.0

    def inc(self, which):
        if which not in self.incs:
            d = os.path.join(self.dir, 'inc-' + which)
            gen_config(d, which)
            self.incs[which] = d
        return self.incs[which]

    def compile(self, src, defs=(), config='default', opt=('-O2', '-DNDEBUG'), flags=(), pre_inc=(), cxx='g++', std=None, tag=''):
        name = os.path.basename(src).replace('.cpp', '')
        key = hashlib.sha1(repr((src, defs, config, opt, flags, pre_inc, cxx, std, tag)).encode()).hexdigest()[:10]
        obj = os.path.join(self.dir, '%s-%s.o' % (name, key))
        cmd = [cxx] + (std or STD) + list(opt) + ['-D' + d for d in defs]
        for i in pre_inc:
            cmd += ['-I' + i]
        cmd += ['-I' + self.inc(config), '-I' + os.path.join(VERIF, 'fw'), '-I' + os.path.join(REPO, 'include')] + list(flags) + ['-c', src if src.startswith('/') else os.path.join(VERIF, src), '-o', obj]

        def go():
            rc, out = sh(cmd, timeout=600)
            if rc != 0:
                raise CheckError('compile failed: %s\n%s' % (' '.join(cmd), out[-4000:]))
            return obj
        return self.pool.submit(go)

    def link(self, name, futs, libs=None, flags=(), cxx='g++'):
        exe = os.path.join(self.dir, name)
        objs = []
        err = None
        for f in futs:
            try:
                objs.append(f.result())
            except CheckError as e:
                err = err or e
        if err:
            raise err
        cmd = [cxx] + list(flags) + objs + ['-o', exe] + list(BASE_LIBS if libs is None else libs)
        rc, out = sh(cmd, timeout=600)
        if rc != 0:
            raise CheckError('link failed: %s\n%s' % (' '.join(cmd), out[-4000:]))
        self.secs = time.time() - self.t0
        return exe

    def clean(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings():
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', ln)
            if m:
                res.append({'property': m.group(1), 'match': m.group(2), 'what': m.group(3)})
    return res


class Report:
    """Collects violations and coverage for one property run."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.violations = []       # (replay path, text)
        self.known = []
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.extra = {}
        self.exhaustive = True
        self.assumptions = []
        self.errors = []
        self.kf = [k for k in known_findings() if k['property'] == pid]

    def violation(self, key, text, harness, sub=''):
        """key: the failing case (replayable), text: what fails."""
        for k in self.kf:
            if k['match'] == hashlib.sha1((harness + '|' + key).encode()).hexdigest()[:16]:
                if k not in self.known:
                    self.known.append(k)
                return
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1((harness + '|' + key).encode()).hexdigest()[:16]
        path = os.path.join(d, '%s-%s.txt' % (self.pid, h))
        with open(path, 'w') as f:
            f.write(key + '\n')
            f.write('# property %s\n# harness %s\n# where %s\n# what %s\n' % (self.pid, harness, sub, text.replace('\n', '\n#   ')))
            f.write('# replay with: python3 %s/run.py replay %s\n' % (VERIF, path))
        self.violations.append((path, text))

    def add_samples(self, s, n=6):
        for x in s[:n]:
            if len(self.samples) < 24:
                self.samples.append(x if isinstance(x, (dict, list)) or len(str(x)) < 400 else str(x)[:400] + '...')

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.validated,
               'samples': self.samples, 'exhaustive': bool(self.exhaustive)}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.violations)}
        if self.errors:
            ev['errors'] = self.errors
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        done = set()
        for path, text in self.violations:
            if path in done:
                continue
            done.add(path)
            print('  ' + text[:600].replace('\n', '\n  '))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('%s %s: states=%d transitions=%d executions=%d violations=%d exhaustive=%s wall=%.1fs' % (
            self.pid, self.tier, self.states, self.transitions, self.validated, len(self.violations), self.exhaustive, time.time() - self.t0))
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors:
                print('ERROR ' + e[-1500:].replace('\n', '\n  '))
            return 2
        return 0


def run_harness(rep, exe, name, tier, build, deadline, casetime=40, args=(), exec_counter='executions', env=None, confirm=True, workers=None):
    """Runs one exhaustive harness; merges counters; confirms failures by replay."""
    out = os.path.join(build.dir, name + '.json')
    cmd = [exe, '--tier', tier, '--out', out, '--workers', str(workers or NCPU), '--deadline', str(deadline), '--casetime', str(casetime), '--seed', str(rep.seed)] + list(args)
    e = dict(os.environ)
    if env:
        e.update(env)
    rc, log = sh(cmd, timeout=deadline + 5 * casetime + 120, env=e)
    if rc not in (0, 1) or not os.path.exists(out):
        for i in range(16):
            pl = out + '.log%d' % i
            if os.path.exists(pl):
                log += open(pl, errors='replace').read()[-500:]
        rep.errors.append('harness %s ended with %s: %s' % (name, rc, log[-1500:]))
        if not os.path.exists(out):
            return None
    j = json.load(open(out))
    c = j['counters']
    rep.states += c.get('states', 0)
    rep.transitions += c.get('transitions', 0)
    rep.validated += c.get(exec_counter, 0)
    sub = rep.extra.setdefault('harness_' + name, {})
    for k, v in sorted(c.items()):
        if k not in ('states', 'transitions', exec_counter):
            sub[k] = v
    sub.update(j['maxima'])
    sub['wall_s'] = j['wall']
    rep.add_samples(j['samples'])
    if j['capped']:
        rep.exhaustive = False
    seen = set()
    for f in sorted(j['failures'], key=lambda f: len(f['case'])):
        if len(rep.violations) >= 8:
            break
        if (f['case'], f['sub'], f['kind']) in seen:
            continue
        seen.add((f['case'], f['sub'], f['kind']))
        text = '%s: %s at %s: %s [case %s]' % (name, f['kind'], f['sub'], f['detail'], f['case'][:300])
        if confirm:
            rf = os.path.join(build.dir, 'replay.txt')
            with open(rf, 'w') as fh:
                fh.write(f['case'] + '\n')
            rrc, rlog = sh([exe, '--replay', rf, '--tier', tier], timeout=max(120, 4 * casetime), env=e)
            if rrc == 0 and (f['kind'] == 'hang' or 'signal 9' in f['detail']):
                rep.extra.setdefault('unconfirmed', []).append(text)
                rep.exhaustive = False
                continue
            text += ' (confirmed by replay)' if rrc != 0 else ' (not reproduced when replayed alone: depends on earlier executions in the process)'
        rep.violation(f['case'], text, name, f['sub'])
    return j
