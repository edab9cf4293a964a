"""Common machinery of the checks: building the drivers against /repo, running
them, running TLC on the recorded traces, known findings, evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
JOBS = min(8, os.cpu_count() or 1)
CXX = ['g++', '-O1', '-std=c++11', '-w']
ENV = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C')


class CheckError(Exception):
    """The check itself cannot give an answer."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode != 0:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


def once(path, make):
    """make(tmp) creates tmp; it becomes path atomically."""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.%d.tmp' % os.getpid()
    make(tmp)
    os.rename(tmp, path)
    return path


# ------------------------------------------------------------------ building
def pch():
    """The precompiled header depends on nothing of /repo."""
    key = sha(read(os.path.join(HARNESS, 'pch.hpp')), ' '.join(CXX))
    d = os.path.join(BUILD, 'pch-' + key)
    g = os.path.join(d, 'pch.hpp.gch')
    if not os.path.exists(g):
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(HARNESS, 'pch.hpp'), d)
        once(g, lambda t: run(CXX + ['-x', 'c++-header', os.path.join(d, 'pch.hpp'), '-o', t]))
    return d


def java():
    key = sha(read(os.path.join(SPEC, 'Num.java')))
    d = os.path.join(BUILD, 'java-' + key)

    def make(t):
        os.makedirs(t)
        run(['javac', '-cp', TLAJARS, '-d', t, os.path.join(SPEC, 'Num.java')])
    try:
        once(d, make)
    except OSError:
        if not os.path.isdir(d):
            raise
    return d


def repo_key():
    fs = sorted(glob.glob(REPO + '/*.[hc]pp') + glob.glob(REPO + '/stability_region/*.[hc]pp'))
    return sha(*[os.path.basename(f).encode() + read(f) for f in fs])


def drivers(names, defs=(), extra=()):
    """Builds the drivers against the library sources in REPO's working tree."""
    p = pch()
    flags = CXX + list(defs) + list(extra)
    key = sha(repo_key(), ' '.join(flags),
              *[read(f) for f in sorted(glob.glob(HARNESS + '/*'))])
    d = os.path.join(BUILD, 'drv-' + key)
    os.makedirs(d, exist_ok=True)
    use = [] if defs or extra else ['-include', os.path.join(p, 'pch.hpp')]
    jobs = []

    def obj(src, name):
        o = os.path.join(d, name + '.o')
        return once(o, lambda t: run(flags + use + ['-I', p, '-I', HARNESS, '-I', REPO, '-c', src, '-o', t]))
    srcs = sorted(glob.glob(REPO + '/*.cpp'))
    with ThreadPoolExecutor(JOBS) as ex:
        fd = {n: ex.submit(obj, os.path.join(HARNESS, n + '.cpp'), 'h_' + n) for n in names}
        fl = [ex.submit(obj, s, 'l_' + os.path.basename(s)[:-4]) for s in srcs]
        libs = [f.result() for f in fl]
        res = {}
        for n in names:
            o = fd[n].result()
            exe = os.path.join(d, n)
            link = [f for f in flags if f.startswith('-fsanitize')]
            res[n] = once(exe, lambda t: run(['g++', o] + libs + link + ['-o', t, '-larmadillo', '-lpthread']))
    prune()
    return res


def prune(keep=6):
    ds = sorted(glob.glob(BUILD + '/drv-*'), key=os.path.getmtime)
    for x in ds[:-keep]:
        if os.path.getmtime(x) > time.time() - 1800:      # possibly in use
            continue
        shutil.rmtree(x, ignore_errors=True)


# every entry into a function of the library is a point at which the turn may
# pass to another thread (harness/fine.hpp)
FINE = ('-DFINE', '-finstrument-functions', '-finstrument-functions-exclude-file-list=/harness/')


# ------------------------------------------------------------------ driving
def hexd(x):
    if isinstance(x, str):
        return x
    if x != x:
        return 'NaN'
    if x in (float('inf'), float('-inf')):
        return 'Inf' if x > 0 else '-Inf'
    return float(x).hex()


def kvline(sid, d):
    def val(v):
        if isinstance(v, bool):
            return '1' if v else '0'
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return float(v).hex()
        if isinstance(v, (list, tuple)):
            return ','.join(val(x) for x in v)
        return str(v)
    return sid + ' ' + ' '.join('%s=%s' % (k, val(v)) for k, v in d.items() if v is not None)


def drive(exe, lines, jobs=JOBS, env=None, timeout=800):
    """Runs scenario lines through a driver, sharded; returns {id: result}."""
    lines = list(lines)
    shards = [lines[i::jobs] for i in range(jobs)]
    shards = [s for s in shards if s]

    def one(sh):
        r = subprocess.run([exe], input='\n'.join(sh) + '\n', stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=dict(ENV, **(env or {})), timeout=timeout,
                           universal_newlines=True, errors='replace')
        if r.returncode != 0:
            raise CheckError('driver %s failed (%d): %s' % (exe, r.returncode, r.stderr[-2000:]))
        return r.stdout
    out = {}
    with ThreadPoolExecutor(max(1, len(shards))) as ex:
        for t in ex.map(one, shards):
            for l in t.split('\n'):
                if l:
                    try:
                        j = json.loads(l)
                    except ValueError:
                        raise CheckError('driver output: ' + l[:300])
                    out[j['id']] = j
    return out


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '') if False else out)
        m2 = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.transitions, self.states = (int(m2[-1][0].replace(',', '')), int(m2[-1][1].replace(',', ''))) if m2 else (0, 0)
        self.viol = []
        for l in out.split('\n'):
            m = re.match(r'^"(VIOL\|.*)"$', l.strip())
            if m:
                self.viol.append(m.group(1).replace('\\"', '"').split('|')[1:])
        self.prints = [l for l in out.split('\n') if l.startswith('"INFO|')]
        self.ok = 'Model checking completed. No error has been found.' in out
        self.error = None
        if not self.ok:
            i = out.find('Error:')
            self.error = out[i:i + 3000] if i >= 0 else out[-3000:]
        self.invariant = re.findall(r'Error: Invariant (\S+) is violated', out) + \
            re.findall(r'Temporal properties were violated', out) + \
            re.findall(r'Error: Action property (\S+) is violated', out)


def tlc(module, cfg=None, env=None, workers=None, extra=(), heap='6g', timeout=850):
    jd = java()
    meta = tempfile.mkdtemp(prefix='vf-tlc-')
    try:
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta,
               '-cp', TLAJARS + ':' + jd, 'tlc2.TLC', '-deadlock', '-noGenerateSpecTE',
               '-metadir', os.path.join(meta, 'm'), '-workers', str(workers or JOBS)]
        cmd += list(extra) + ['-config', cfg or module + '.cfg', module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(ENV, **(env or {})), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        return Tlc(r.stdout.decode(errors='replace'), r.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# ------------------------------------------------------------------ verdicts
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


class Report:
    """Collects the violations of one property and writes the evidence."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.viol = []          # (trace id, where, clause, detail, replay data)
        self.known = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.kf = [f for f in known_findings()['findings'] if f['property'] == prop]

    def add_tlc(self, r):
        self.cov['states'] += r.states
        self.cov['transitions'] += r.transitions

    def violation(self, tid, where, clause, detail='', data=None):
        for f in self.kf:
            if f['trace'] in (tid, '*') and f['clause'] == clause and \
               (f.get('where') is None or str(f['where']) == str(where)) and \
               (f.get('detail') is None or f['detail'] == detail):
                self.known.append(f)
                return
        self.viol.append((tid, str(where), clause, detail, data))

    def finish(self, level='model_checking'):
        for f in self.kf:
            n = sum(1 for k in self.known if k is f)
            if n:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': level,
              'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 2)}
        ev['coverage']['known_findings_seen'] = len(set(f['what'] for f in self.known))
        ev['coverage']['violations'] = len(self.viol)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not self.viol:
            print('%s: held (%d traces, %d states, %.1f s)' % (
                self.prop, self.cov['traces_validated_against_impl'], self.cov['states'], time.time() - self.t0))
            return 0
        rd = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s.json' % self.prop)
        with open(p, 'w') as f:
            json.dump([{'trace': a, 'where': b, 'clause': c, 'detail': e, 'data': g}
                       for a, b, c, e, g in self.viol[:50]], f, indent=1)
        for a, b, c, e, g in self.viol[:12]:
            print('  %s at %s: %s  %s' % (a, b, c, e))
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        return 1


def write_traces(traces):
    f = tempfile.NamedTemporaryFile('w', prefix='vf-', suffix='.ndjson', delete=False)
    with f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    return f.name


def validate(rep, module, traces, check, env=None, **kw):
    """TLC walks through all traces; clauses that fail go to the report."""
    if not traces:
        raise CheckError('no traces')
    p = write_traces(traces)
    try:
        r = tlc(module, env=dict(env or {}, TRACES=p, CHECK=check), **kw)
    finally:
        os.unlink(p)
    rep.add_tlc(r)
    if not r.ok:
        raise CheckError('TLC: ' + (r.error or ''))
    by = {t['id']: t for t in traces}
    for v in r.viol:
        tid, where, clause = v[0], v[1], v[2]
        t = by.get(tid, {})
        rep.violation(tid, where, clause, v[3] if len(v) > 3 else '', t.get('line'))
    rep.cov['traces_validated_against_impl'] += len(traces)
    return r


def model(rep, module, cfg=None, **kw):
    """Exhaustive exploration of the specification itself."""
    r = tlc(module, cfg=cfg, **kw)
    rep.add_tlc(r)
    if not r.ok:
        raise CheckError('the specification %s violates its own invariants: %s' % (module, r.error))
    return r


def inductive(rep, module, claims):
    """Inductive invariants of the specification, by Apalache: claims are
    (init, invariant, length, holds).  The specification does not depend on
    the code; without an answer in time the claim is listed as open."""
    def go(c):
        init, inv, length, holds = c
        out = tempfile.mkdtemp(prefix='vf-ap-')
        try:
            env = dict(os.environ, JVM_ARGS='-Xmx3g')
            r = subprocess.run(['apalache-mc', 'check', '--init=' + init, '--inv=' + inv, '--length=%d' % length,
                                '--out-dir=' + out, '--run-dir=' + os.path.join(out, 'run'), os.path.join(SPEC, module + '.tla')],
                               cwd=out, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
            if 'The outcome is: NoError' in r.stdout:
                return True
            if 'The outcome is: Error' in r.stdout:
                return False
            return None
        except (OSError, subprocess.TimeoutExpired):
            return None
        finally:
            shutil.rmtree(out, ignore_errors=True)
    with ThreadPoolExecutor(4) as ex:
        for c, r in zip(claims, ex.map(go, claims)):
            name = '%s: %s => %s' % (module, c[0], c[1]) + (' after one action' if c[2] else '')
            if r is None:
                rep.cov.setdefault('proof not completed', []).append(name)
            elif r != c[3]:
                raise CheckError('the specification %s: %s %s' % (module, name, 'fails' if c[3] else 'holds'))
            elif c[3]:
                rep.cov.setdefault('proved for all integers', []).append(name)
