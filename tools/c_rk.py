"""C01-C09: runs of the Runge-Kutta integrators against RkTrace.tla."""
import json
import random
import vf
import rk

T = vf.TIER == 'thorough'


class Batch:
    """Scenarios of one family, with the runs they are compared with."""

    def __init__(self, fam, prefix=''):
        self.fam = fam
        self.prefix = prefix + fam[0]
        self.sc = {}
        self.refs = {}
        self.gen = {}

    def add(self, s, ref=None, gen=None):
        sid = '%s%d' % (self.prefix, len(self.sc))
        self.sc[sid] = s
        if ref is not None:
            self.refs[sid] = ref
        if gen is not None:
            self.gen[sid] = gen
        return sid


def methods(fam, adaptive=False):
    if fam == 'erk':
        return rk.ERK_ADAPT if adaptive else rk.ERK
    return rk.IRK_ADAPT if adaptive else rk.IRK


def ncall(m):
    return rk.ERK_NS[m] - (1 if m in rk.ERK_FSAL else 0)


def cycle(rng, fam, n, **kw):
    """n scenarios that go round the methods."""
    ms = methods(fam, kw.get('adaptive') is True)
    for i in range(n):
        s = rk.scenario(rng, fam, method=ms[i % len(ms)], **kw)
        decorate(rng, s)
        yield s


def decorate(rng, s):
    """options that must not matter"""
    if rng.random() < 0.08:
        s['progress'] = rng.choice([1, 3])
    if rng.random() < 0.08:
        s['timeint'] = 1
    if 'maxdt' not in s and rng.random() < 0.1:
        s['maxdt'] = rng.choice([0.0, -1.0])      # no limit


def special(rng, fam):
    """Corner cases of intervals, steps and limits."""
    for m in methods(fam):
        for k in range(10):
            s = rk.scenario(rng, fam, method=m, kinds=['decay', 'osc', 'time', 'zero'])
            L = s['t1'] - s['t0']
            if k == 0:        # the step divides the interval exactly
                t0, nst = rng.choice([0.0, -2.0, 1.0]), rng.choice([1, 2, 5, 8])
                s.update(t0=t0, t1=t0 + nst * 0.25, dt=0.25, adaptive=False, maxsteps=-1)
                s.pop('maxdt', None)
            elif k == 1:      # accumulated rounding: 0.1 + 0.1 + ...
                s.update(t0=0.0, t1=0.1 * rng.randint(3, 12), dt=0.1, adaptive=False, maxsteps=-1)
                s.pop('maxdt', None)
            elif k == 2:      # one step longer than the interval
                s.update(dt=L * rng.choice([1.0, 1.5, 30]), maxsteps=-1 if not s['adaptive'] else 20)
            elif k == 3:      # limits 0 and 1
                s.update(maxsteps=rng.choice([0, 1]))
            elif k == 4:      # max_dt below everything
                s.update(maxdt=L / 6, dt=L, maxsteps=rng.choice([-1, 3, 6, 7]) if not s['adaptive'] else 24)
            elif k == 5:      # dt a hair off a divisor of the interval
                nst = rng.randint(2, 8)
                s.update(dt=L / nst * (1 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(20, 52)),
                         adaptive=False, maxsteps=rng.choice([-1, nst - 1, nst, nst + 1]))
                s.pop('maxdt', None)
            elif k == 6:      # large times
                t0 = rng.choice([-1, 1]) * 10.0 ** rng.randint(4, 7)
                c = [0.0] * s['n']
                s.update(t0=t0, t1=t0 + L, c=c, d=c)
            elif k == 7:      # ends at zero, or a huge max_dt
                s.update(t0=-L, t1=0.0, maxdt=1e6 * L, c=[0.0] * s['n'], d=[0.0] * s['n'])
            elif k == 9:      # no matter how short, around zero
                q = 10.0 ** -rng.uniform(6, 15)
                t0 = rng.choice([0.0, -q, rng.uniform(-3, 3) * q])
                s.update(t0=t0, t1=t0 + q, dt=q * rng.uniform(0.1, 2), maxsteps=24,
                         c=[0.0] * s['n'], d=[0.0] * s['n'])
                if 'maxdt' in s:
                    s['maxdt'] = q / 3
            else:             # very short interval
                q = L * 1e-6
                s.update(t1=s['t0'] + q, dt=q * rng.uniform(0.1, 2), maxsteps=24)
                if 'maxdt' in s:
                    s['maxdt'] = q / 3
            yield s


def long(rng, fam, n):
    """Runs of several hundred steps."""
    for i in range(n):
        ad = i % 2 == 1
        s = rk.scenario(rng, fam, method=rng.choice(methods(fam, ad)), kinds=['decay', 'osc', 'time'] if i % 3 else ['zero'],
                        adaptive=ad)
        L = s['t1'] - s['t0']
        N = rng.choice([130, 260, 300, 520])
        s.update(maxsteps=rng.choice([-1, -1, N - 1, N]), dt=L / N)
        s.pop('maxdt', None)
        s.pop('progress', None)
        if ad:
            s.update(maxdt=L / N, rtol=1e-3, atol=1e-3 * max(map(abs, s['y0'])))
        yield s


def one_step(rng, fam, n):
    """Runs of a single step, that ends where the interval does."""
    for s in cycle(rng, fam, n, adaptive=False, kinds=['decay', 'osc', 'zero', 'time', 'lv']):
        L = s['t1'] - s['t0']
        # t0 + (t1 - t0) need not be t1
        s['t0'] = L * rng.choice([-rng.random(), rng.random() * 0.1])
        s['t1'] = L * rng.uniform(0.11, 1)
        L = s['t1'] - s['t0']
        s.update(dt=L * rng.choice([1.0, 1.0, rng.uniform(1, 3)]), maxsteps=rng.choice([-1, 1, 5]),
                 adaptive=rng.random() < 0.3)
        s.pop('maxdt', None)
        yield s


def long_steps(rng, fam, n):
    """The first attempt would end the run, but it is rejected."""
    for s in cycle(rng, fam, n, adaptive=True):
        L = s['t1'] - s['t0']
        s['dt'] = L * rng.choice([1.0, rng.uniform(0.5, 3), 10])
        if rng.random() < 0.5:
            s['maxdt'] = L * rng.uniform(0.4, 3)
        else:
            s.pop('maxdt', None)
        if rng.random() < 0.5:
            nan_attempts(rng, s, sorted(rng.sample(range(1, 5), rng.randint(1, 2))))
        yield s


def simple(rng, fam):
    """the overloads without options"""
    import math
    for kind in (['decay', 'osc', 'logistic', 'lv', 'time'] if fam == 'erk' else ['decay', 'osc', 'lv', 'time', 'stiff']):
        s = rk.scenario(rng, fam, method=131 if fam == 'erk' else 211, kinds=[kind], adaptive=True)
        for k in ('maxdt', 'progress', 'timeint'):
            s.pop(k, None)
        s.update(simple=1, dt=1e-6, rtol=1e-4, atol=10 * 1e-4, maxsteps=-1)
        if fam == 'irk':
            s.update(ntol=0.1 * 1e-4, ndx=1e-4, nmaxit=5000, nrefresh=25)
        yield s


# --------------------------------------------------------------- faults
def nan_attempts(rng, s, rejected):
    """non-finite values in the given attempts (numbered from 1)"""
    fl = []
    kind = lambda: rng.choice('nnim')
    if s['fam'] == 'erk':
        nc = ncall(s['method'])
        off = 1 if s['method'] in rk.ERK_FSAL else 0
        for a in rejected:
            lo = off + (a - 1) * nc + 1
            q = rng.randint(0, nc - 1)
            hi = lo + nc - 1 if rng.random() < 0.5 else lo + q
            if rng.random() < 0.5:
                lo = lo + q
                hi = max(lo, hi)
            fl.append('f:n:%d:%d:0:%d:%s' % (lo, hi, rng.randint(-1, s['n'] - 1), kind()))
    else:
        s['nrefresh'] = 0     # one Jacobian per attempt
        for a in rejected:
            fl.append('j:n:%d:%d:0:%d:%s' % (a, a, rng.randint(-1, s['n'] - 1), kind()))
    s['faults'] = ';'.join(fl)
    if not fl:
        s.pop('faults')


def temporary(rng, fam, n, maxpts=24, **kw):
    """Adaptive runs with non-finite values in some attempts."""
    for s in cycle(rng, fam, n, adaptive=True, maxpts=maxpts, **kw):
        nan_attempts(rng, s, sorted(rng.sample(range(1, 9), rng.randint(1, 3))))
        yield s


def spikes(rng, fam, n, maxpts=24):
    """Adaptive runs in which some values of f are far off: error rejections."""
    for s in cycle(rng, fam, n, adaptive=True, maxpts=maxpts):
        if fam == 'erk':
            nc = ncall(s['method'])
            off = 1 if s['method'] in rk.ERK_FSAL else 0
            fl = []
            for a in sorted(rng.sample(range(1, 9), rng.randint(1, 2))):
                c = off + (a - 1) * nc + rng.randint(2, nc)
                fl.append('f:n:%d:%d:0:-1:a:%s' % (c, c, rng.choice(['1e9', '-1e12', '1e15'])))
            s['faults'] = ';'.join(fl)
        else:
            c = rng.randint(5, 80)
            s['faults'] = 'f:n:%d:%d:0:-1:a:%s' % (c, c + rng.randint(0, 6), rng.choice(['1e6', '-1e9']))
        yield s


def failing(rng, fam, n):
    """Runs that cannot succeed, and runs that must overcome a failure."""
    ms = methods(fam)
    for i in range(n):
        m = ms[i % len(ms)]
        k = i // len(ms) % 8
        u = rng.uniform
        ad = m in methods(fam, True)
        kind = rng.choice('nnim')
        if k == 0:            # the solution leaves the domain of f for good
            a = u(0.5, 2)
            s = rk.scenario(rng, fam, method=m, kinds=['zero'])
            nn = s['n']
            s.update(c=[a] + [0.0] * (nn - 1), L=[0.0] * (nn * nn), y0=[0.0] * nn, maxsteps=150,
                     atol=s['atol'] or s['rtol'])
            s['t1'] = s['t0'] + 2 / a
            s['dt'] = u(0.05, 0.3) / a
            s['maxdt'] = 0.5 / a
            s['adaptive'] = ad and rng.random() < 0.6
            s['faults'] = 'f:g:%r:0:0:-1:%s' % (u(0.5, 1.1), kind)
            s['expect'] = 'fail'
        elif k == 1:          # never defined
            s = rk.scenario(rng, fam, method=m)
            s['maxsteps'] = -1
            s['faults'] = 'f:n:1:1e18:0:%d:%s' % (rng.randint(-1, s['n'] - 1), kind)
            s['expect'] = 'fail'
        elif k == 2:          # not defined after some time
            s = rk.scenario(rng, fam, method=m, kinds=['decay', 'osc', 'time', 'zero', 'lv'])
            L = s['t1'] - s['t0']
            s['dt'] = L * u(0.02, 0.15)
            s['maxdt'] = L * u(0.1, 0.2)
            s['maxsteps'] = -1
            s['rtol'] = s['atol'] = 1e-4
            s['faults'] = 'f:t:%r:1e18:0:%d:%s' % (s['t0'] + L * u(0.05, 0.6), rng.randint(-1, s['n'] - 1), kind)
            s['expect'] = 'fail'
        elif k in (3, 4):     # fails a few times only
            s = rk.scenario(rng, fam, method=m, kinds=['decay', 'osc', 'time', 'zero', 'forced'])
            L = s['t1'] - s['t0']
            s['maxsteps'] = -1
            s['dt'] = L * u(0.02, 0.15)
            s['maxdt'] = L * u(0.1, 0.2)
            s['rtol'] = s['atol'] = 1e-4
            s['adaptive'] = ad and (k == 3)
            s['faults'] = 'f:t:%r:%d:0:-1:%s' % (s['t0'] + L * u(0.05, 0.6), rng.randint(1, 5), kind)
            if m in rk.ERK_FSAL and s['adaptive']:
                pass          # t > t0, so never the evaluation at the start
            s['expect'] = 'ok' if s['adaptive'] else 'fail'
        elif k == 5:          # a Jacobian that is not finite at first
            s = rk.scenario(rng, fam, method=m, kinds=['decay', 'osc', 'time', 'zero', 'forced'])
            L = s['t1'] - s['t0']
            s['maxsteps'] = -1
            s['dt'] = L * u(0.02, 0.2)
            s['maxdt'] = L * u(0.1, 0.2)
            s['rtol'] = s['atol'] = 1e-4
            s['adaptive'] = ad and rng.random() < 0.6
            if fam == 'irk':
                s['faults'] = 'j:n:1:%d:0:-1:%s' % (rng.randint(1, 3), kind)
                s['expect'] = 'ok' if s['adaptive'] else 'fail'
        elif k == 6:          # blow-up in finite time
            s = rk.scenario(rng, fam, method=m, kinds=['blowup'])
            L = s['t1'] - s['t0']
            s['maxsteps'] = rng.choice([20, 60] if fam == 'irk' else [-1, 60])
            s['dt'] = L * u(0.01, 0.1)
            if s['adaptive'] and ad:
                s['rtol'] = 10 ** -u(3, 6)
                s['atol'] = s['rtol']
        else:                 # stage equations that are hard or impossible to solve
            s = rk.scenario(rng, fam, method=m, kinds=['quad', 'lorenz', 'lv', 'blowup'])
            L = s['t1'] - s['t0']
            s['dt'] = L * u(0.3, 1)
            if fam == 'irk':
                s['nmaxit'] = rng.randint(1, 6)
                s['ntol'] = s['ndx'] = 10 ** -u(8, 14)
            s['maxsteps'] = 30
        if s.get('faults') is None:
            s.pop('faults', None)
        yield s


def benign(rng, fam, n):
    """Bounded smooth problems without a limit on the steps: they succeed."""
    for s in cycle(rng, fam, n, kinds=['decay', 'osc', 'time', 'zero', 'forced', 'lin4', 'chain']):
        s['maxsteps'] = -1
        if s['adaptive'] and s['method'] in methods(fam, True):
            s['rtol'] = max(s['rtol'], 10 ** -rng.uniform(2, 4))
            s['atol'] = s['rtol'] * max(map(abs, s['y0']))
            if s['method'] == 210 or s['method'] == 120:
                s['rtol'] *= 10
        s['expect'] = 'ok'
        if rng.random() < 0.3:
            s['maxdt'] = rng.choice([0.0, -1.0])
        yield s


def generated(rng, fam, n, only=None):
    """Behaviours of StepperGen, forced on the library."""
    r = vf.tlc('StepperGen', cfg='StepperGenT.cfg' if T else 'StepperGen.cfg')
    if not r.ok:
        raise vf.CheckError('StepperGen: ' + r.error)
    bs = sorted(set(json.loads(json.loads(l)[5:]).__repr__() for l in r.prints))
    bs = [eval(b) for b in bs]
    bs = [b for b in bs if b['cfg']['implicit'] == (fam == 'irk')]
    if only:
        bs = [b for b in bs if only(b['cfg'])]
    rng.shuffle(bs)
    for b in bs[:n]:
        c, h = b['cfg'], b['hist']
        ad = c['adaptive']
        m = rng.choice(methods(fam, ad))
        s = rk.scenario(rng, fam, method=m, kinds=['zero'], adaptive=ad)
        s['c'] = [rng.uniform(-1, 1) for _ in s['c']]
        dt = 10 ** rng.uniform(-3, 0)
        t0 = rng.choice([0.0, rng.uniform(-3, 3)])
        s.update(t0=t0, t1=t0 + 1000 * dt, dt=dt, maxsteps=c['maxsteps'], rtol=1e-3, atol=1e-3,
                 maxdt=dt, oint=c['oint'])
        tog = ('V' if c['store'] else 'N') + ('S' if c['stream'] else '')
        s['toggles'] = ''.join(rng.sample(tog, len(tog)))
        if ad:
            nan_attempts(rng, s, [i + 1 for i, x in enumerate(h) if x != 'A'])
        elif h and h[-1] != 'A':
            a = len(h) - 1
            cut = t0 + dt * (a - 0.5) if m == 100 else t0 + dt * a + 1e-3 * dt
            s['faults'] = 'f:t:%r:1e18:0:-1:n' % cut
        yield s, dict(vec=b['s']['vec'], file=b['s']['file'], status=b['s']['status'])
    generated.model = r


# --------------------------------------------------------------- checks
def coeff_dump():
    cd = vf.drivers(['coef_driver'])['coef_driver']
    r = vf.drive(cd, [vf.kvline('i%d' % m, dict(what='coef', fam='irk', method=m)) for m in rk.IRK])
    out = {}
    for k, v in r.items():
        if v['end'] != 'ok':
            raise vf.CheckError('no coefficients for ' + k)
        out[int(k[1:])] = v['k']
    return out


def scenarios(prop, seed):
    """[Batch] for a property"""
    rng = random.Random(seed * 1000003 + int(prop[1:]))
    q = 8 if T else 1
    bs = []
    for fam in ('erk', 'irk'):
        b = Batch(fam)
        if prop == 'C02' and fam == 'irk' or prop == 'C03' and fam == 'irk' or \
           prop in ('C04', 'C05', 'C30', 'C31') and fam == 'erk':
            continue
        if prop == 'C01':
            for s in special(rng, fam):
                b.add(s)
            for s in cycle(rng, fam, 600 * q):
                b.add(s)
            for s in temporary(rng, fam, 120 * q):
                b.add(s)
            for g in (one_step(rng, fam, 150 * q), long_steps(rng, fam, 120 * q), temporary(rng, fam, 60 * q),
                      cycle(rng, fam, 100 * q)):
                for s in g:
                    rk.with_clock(rng, s)
                    b.add(s)
            for s in failing(rng, fam, 200 * q):
                b.add(s)
            for s in simple(rng, fam):
                b.add(s)
        elif prop == 'C02':
            for s in special(rng, fam):
                b.add(s)
            for s in cycle(rng, fam, 700 * q):
                b.add(s)
            for s in temporary(rng, fam, 250 * q):
                s['clean'] = True     # attempts with such values are never accepted
                b.add(s)
            for s in simple(rng, fam):
                b.add(s)
        elif prop == 'C05':
            for s in special(rng, fam):
                b.add(s)
            for s in cycle(rng, fam, 700 * q):
                b.add(s)
            for s in cycle(rng, fam, 100 * q, kinds=['lorenz', 'lv', 'robertson', 'quad', 'logistic']):
                s['nmaxit'] = rng.choice([3, 5, 8, 15])
                b.add(s)
            for s in simple(rng, fam):
                b.add(s)
        elif prop == 'C03':
            for s in cycle(rng, fam, 650 * q, adaptive=True):
                s['logf'] = 1
                b.add(s)
            for s in cycle(rng, fam, 60 * q, adaptive=False):
                s['logf'] = 1
                b.add(s)
            for g in (temporary(rng, fam, 100 * q), spikes(rng, fam, 100 * q)):
                for s in g:
                    s['logf'] = 1
                    b.add(s)
        elif prop == 'C04':
            for s in cycle(rng, fam, 420 * q, adaptive=True):
                s['logf'] = 1
                b.add(s)
            for s in cycle(rng, fam, 30 * q, adaptive=False):
                s['logf'] = 1
                b.add(s)
            for g in (temporary(rng, fam, 60 * q, maxpts=14), spikes(rng, fam, 40 * q, maxpts=14)):
                for s in g:
                    s['logf'] = 1
                    b.add(s)
        elif prop == 'C06':
            n = 250 if fam == 'irk' else 350
            for s in cycle(rng, fam, n * q):
                s['logf'] = 1
                b.add(s)
            for g in (temporary(rng, fam, 60 * q), spikes(rng, fam, 60 * q)):
                for s in g:
                    s['logf'] = 1
                    b.add(s)
            for s in failing(rng, fam, 200 * q):
                b.add(s)
            for s in special(rng, fam):
                b.add(s)
            for s in cycle(rng, fam, 150 * q):    # runs that are not recorded in full
                s['oint'] = rng.choice([1, 2, 3])
                s['toggles'] = rng.choice(['', 'N', 'S', 'SN'])
                b.add(s)
        elif prop == 'C07':
            for s in special(rng, fam):
                b.add(s, ref=dict(s, maxsteps=-1))
            for s in cycle(rng, fam, 400 * q):
                if s['adaptive']:
                    s['rtol'] = max(s['rtol'], 1e-5)
                    s['atol'] = max(s['atol'], 1e-5)
                b.add(s, ref=dict(s, maxsteps=-1))
            for s in cycle(rng, fam, 200 * q, kinds=['decay', 'osc', 'zero', 'time', 'forced']):
                # around the number of steps the run needs
                s['rtol'] = s['atol'] = 1e-3
                s['near'] = rng.choice([-2, -1, 0, 1])
                b.add(s, ref=dict(s, maxsteps=-1))
            for s in cycle(rng, fam, 200 * q, kinds=['decay', 'osc', 'zero', 'time', 'forced']):
                s['rtol'] = s['atol'] = 1e-3      # not every step is recorded
                if rng.random() < 0.7:
                    s['near'] = rng.choice([-3, -2, -1, 0, 1])
                s['oint'] = rng.choice([2, 3, 5, 50, 1])
                s['toggles'] = rng.choice(['', 'S', 'N', 'SN'] if s['oint'] > 1 else ['N', 'SN'])
                b.add(s, ref=dict(full(s), maxsteps=-1))
            for s in failing(rng, fam, 96 * q):       # runs that stop for other reasons
                s.pop('expect', None)
                far = 3000 if s['maxsteps'] < 0 else s['maxsteps']
                s['maxsteps'] = rng.choice([far, far, rng.randint(0, 12)])
                b.add(s)
            for s, g in generated(rng, fam, 150 * q, only=lambda c: c['store'] and c['oint'] == 1):
                b.add(s, gen=g)
        elif prop == 'C08':
            for s in failing(rng, fam, 800 * q):
                b.add(s)
            for s in benign(rng, fam, 120 * q):
                b.add(s)
            for s in cycle(rng, fam, 200 * q):
                b.add(s)
            for s in special(rng, fam):
                b.add(s)
            for s, g in generated(rng, fam, 150 * q):
                b.add(s, gen=g)
        elif prop == 'C09':
            for s in cycle(rng, fam, 400 * q):
                outputs(rng, s)
                b.add(s, ref=full(s))
            for s in temporary(rng, fam, 100 * q):
                outputs(rng, s)
                b.add(s, ref=full(s))
            for s, g in generated(rng, fam, 400 * q):
                b.add(s, ref=full(s), gen=g)
        elif prop == 'C30':
            for s in stage_runs(rng, 25 * 12 * q):
                b.add(s)
        elif prop == 'C31':
            for s in control_runs(rng, 300 * q):
                b.add(s)
        elif prop == 'C24':
            def ref(s):
                s['text'] = 1
                return dict(full(s), progress=0 if s['progress'] == 1 else 1)
            for s in cycle(rng, fam, 250 * q):
                s['progress'] = rng.choice([0, 1, 1, 1, 2, 3, 5])
                if s['progress'] != 1 and rng.random() < 0.5:
                    outputs(rng, s)
                b.add(s, ref=ref(s))
            for g in (temporary(rng, fam, 80 * q), spikes(rng, fam, 80 * q), failing(rng, fam, 100 * q),
                      special(rng, fam)):
                for s in g:
                    s['progress'] = rng.choice([0, 1, 1, 1, 2, 3])
                    if s['adaptive'] is False and s['progress'] == 0:
                        s['progress'] = 2
                    b.add(s, ref=ref(s))
        for s in long(rng, fam, (6 if prop in ('C04', 'C05', 'C30', 'C31') else 10) * q):
            if prop == 'C03':
                s.update(adaptive=s['method'] in rk.ERK_ADAPT, logf=1)
            elif prop in ('C04', 'C06'):
                s['logf'] = 1
            elif prop == 'C30':
                stage_options(rng, s)
            elif prop == 'C31':
                s.update(adaptive=s['method'] != 200, logf=1, logj=1)
            elif prop == 'C09':
                outputs(rng, s)
                s['oint'] = rng.choice([1, 1, 7, 16, 100])
            elif prop == 'C24':
                s.update(progress=rng.choice([1, 7, 16, 100]), text=1)
            b.add(s, ref=dict(s, maxsteps=-1) if prop == 'C07' else full(s) if prop == 'C09' else
                  dict(full(s), progress=1 if s['progress'] != 1 else 0) if prop == 'C24' else None)
        bs.append(b)
    return bs


def stage_options(rng, s):
    s.update(logf=1, logj=1)
    s['nmaxit'] = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 30, 100])
    s['nrefresh'] = rng.choice([0, 1, 1, 2, 3, 5])
    s['ntol'] = 10 ** -rng.uniform(2, 13)
    s['ndx'] = 10 ** -rng.uniform(2, 13)
    s.pop('progress', None)


# failures (numbers of the attempts) 15 and 16 accepted steps after the start
# or the extension before
edges = [(16, 18, 24, 36, 51), (17, 34, 51, 60), (18, 34, 41, 52), (17, 33, 36, 53, 60), (18, 35, 52, 69), (19, 36, 52, 61)]


def stage_runs(rng, n):
    kinds = ['decay', 'osc', 'stiff', 'logistic', 'lv', 'lorenz', 'time', 'quad', 'lin4', 'forced', 'chain', 'robertson']
    for i in range(n):
        s = rk.scenario(rng, 'irk', method=rk.IRK[i % 12], kinds=kinds if i % 3 else ['logistic', 'lv', 'lorenz', 'quad'],
                        maxpts=12)
        stage_options(rng, s)
        L = s['t1'] - s['t0']
        if s['adaptive']:
            s['rtol'] = max(s['rtol'], 1e-6)
        if s['maxsteps'] < 0 or s['maxsteps'] > 12:
            s['maxsteps'] = 12
        if rng.random() < 0.5:
            s['dt'] = L * rng.uniform(0.1, 1)
        z = rng.random()
        if z < 0.2:               # values of f that are far off, or not finite
            c = rng.randint(2, 80)
            s['faults'] = 'f:n:%d:%d:0:%d:%s:%s' % (c, c + rng.randint(0, 8), rng.randint(-1, s['n'] - 1),
                                                    *rng.choice([('n', '0'), ('i', '0'), ('a', '1e3'), ('s', '1.1'), ('s', '-3')]))
        elif z < 0.45:            # a Jacobian that is inexact (slow convergence) or not finite
            c = rng.randint(1, 12)
            s['faults'] = 'j:n:%d:%d:0:-1:%s' % (c, c + rng.randint(0, 6), rng.choice(
                ['n', 's:0', 's:0.7', 's:1.3', 's:-1', 's:3', 'a:0.5']))
        if z > 0.9:               # many attempts, some of which fail late
            s['maxsteps'], s['rtol'], s['atol'] = 45, 1e-2, 1e-2 * max(map(abs, s['y0']))
            s['maxdt'] = s['dt'] = L / 50
            s['faults'] = ';'.join('j:n:%d:%d:0:-1:s:%s' % (c, c, rng.choice(['-5', '20', '0']))
                                   for c in sorted(rng.sample(range(14, 80), 12)))
            if rng.random() < 0.5:  # a failure now and then: the limit grows
                s.update({k: v for k, v in rk.problem(rng, True, ['decay', 'osc', 'time'])[0].items()})
                s['y0'] = [rng.uniform(0.5, 1) for _ in range(s['n'])]
                s.update(t0=0.0, t1=L, maxsteps=70, rtol=1e-1, atol=1.0, maxdt=L / 80, dt=L / 80, nmaxit=4, nrefresh=0,
                         ntol=1e-6, ndx=1e-7)
                s['faults'] = ';'.join('j:n:%d:%d:0:-1:%s' % (c, c, rng.choice(['s:-50', 's:40', 'a:30']))
                                       for c in rng.choice([(18, 37, 56, 66), (18, 37, 43, 60)] + edges))
        elif 0.85 < z:            # f fails while the corrections are already short enough
            s['ndx'] = 10 ** rng.uniform(1, 4) * max(map(abs, s['y0']))
            c = rng.randint(2, 30)
            s['faults'] = 'f:n:%d:%d:0:0:%s' % (c, c, rng.choice('nim'))
        yield s


def control_runs(rng, n):
    kinds = ['decay', 'osc', 'stiff', 'logistic', 'lv', 'lorenz', 'time', 'quad', 'lin4', 'forced', 'chain', 'robertson']
    for i in range(n):
        s = rk.scenario(rng, 'irk', method=rk.IRK_ADAPT[i % len(rk.IRK_ADAPT)], kinds=kinds, maxpts=12, adaptive=True)
        decorate(rng, s)
        L = s['t1'] - s['t0']
        z = rng.random()
        s.update(logf=1, logj=1, nmaxit=rng.choice([4, 5, 8, 12, 30, 100]))
        s['rtol'] = max(s['rtol'], 1e-6)
        if z < 0.5:                # steps that are far too long, or too short
            s['dt'] = L * 10 ** rng.uniform(-5, 0)
            s['rtol'] *= 10 ** -rng.uniform(0, 3)
            s['atol'] *= 10 ** -rng.uniform(0, 3)
        if rng.random() < 0.5 and 'maxdt' in s:
            s['maxdt'] = rng.choice([0.0, -1.0])
        if z > 0.8:                # iterations that fail: the Jacobian is wrong in some attempts
            s['nrefresh'] = 0
            for c in sorted(rng.sample(range(1, 12), 2)):
                s['faults'] = (s.get('faults', '') + ';j:n:%d:%d:0:-1:%s' % (c, c, rng.choice(['n', 'a:1e6', 's:-40']))).strip(';')
        elif z > 0.74:             # failures late in a run: the limit of iterations has grown
            p = rk.problem(rng, True, ['decay', 'osc', 'time'])[0]
            s.update(p, y0=[rng.uniform(0.5, 1) for _ in range(p['n'])], t0=0.0, t1=L, maxsteps=40, rtol=1e-1, atol=1.0,
                     maxdt=L / 60, dt=L / 60, nmaxit=4, nrefresh=0, ntol=1e-6, ndx=1e-7)
            if z > 0.77:
                s['maxsteps'] = 60
                e = rng.choice(edges)
                s['faults'] = ';'.join('j:n:%d:%d:0:-1:s:-50;j:n:%d:%d:0:-1:a:%g' % (
                    c, c, c + 1, c + 4, rng.choice([0.5, 1]) / s['maxdt']) for c in e)
            else:
                s['faults'] = 'j:n:18:18:0:-1:s:-50;j:n:24:30:0:-1:a:%g;f:n:200:300:0:-1:a:%g' % (
                    rng.choice([0.5, 2]) / s['maxdt'], rng.choice([1e2, 1e3]) / s['maxdt'])
        yield s


def outputs(rng, s):
    s['oint'] = rng.choice([1, 1, 2, 3, 4, 7])
    k = rng.randint(0, 4)
    s['toggles'] = ''.join(rng.choice('SVN') for _ in range(k))


def full(s):
    r = dict(s)
    r.pop('oint', None)
    r.pop('toggles', None)
    return r


def check(prop):
    rep = vf.Report(prop)
    d = vf.drivers(['erk_driver', 'irk_driver', 'coef_driver'])
    co = coeff_dump() if prop in ('C04', 'C06', 'C31') else None
    ev = prop in ('C03', 'C04', 'C06', 'C30', 'C31')
    traces = []
    stats = {'ok': 0, 'error': 0, 'accepted': 0, 'rejected': 0}
    if prop in ('C01', 'C03', 'C06', 'C07', 'C08', 'C09', 'C24'):
        vf.model(rep, 'MCStepper')
    if prop == 'C08' or T and prop in ('C01', 'C06', 'C07', 'C09'):
        vf.inductive(rep, 'StepperProof', [('Init', 'IndInv', 0, True), ('IndInit', 'IndInv', 1, True),
                                           ('IndInit', 'Invisible', 1, True), ('IndInit', 'Variant', 1, True),
                                           ('Init', 'OutInv0', 0, True), ('OutInit', 'OutInv', 1, True),
                                           ('IndInit', 'Never', 1, False), ('OutInit', 'Never', 1, False)])
    for b in scenarios(prop, vf.SEED):
        exe = d[b.fam + '_driver']
        if b.refs:
            ref = vf.drive(exe, [rk.line(k, s) for k, s in b.refs.items()])
        for sid, s in b.sc.items():
            if 'near' in s:
                q = ref[sid]
                s['maxsteps'] = max(0, len(q['T']) - 1 + s['near']) if q['end'] == 'ok' else 5
        res = vf.drive(exe, [rk.line(k, s) for k, s in b.sc.items()])
        for sid, s in b.sc.items():
            if sid not in res:
                raise vf.CheckError('no result for ' + sid)
            r = res[sid]
            if prop in ('C30', 'C31') and len(r.get('ev', [])) > (5000 if T else 1100):
                rep.cov['runs too long to be replayed'] = rep.cov.get('runs too long to be replayed', 0) + 1
                continue
            if r['end'] == 'ok':
                stats['ok' if r['status'] == 0 else 'error'] += 1
                stats['accepted'] += len(r['T']) - 1
                stats['rejected'] += r['rerr'] + r.get('nrej', 0)
            traces.append(rk.trace(sid, s, r, coeffs=co if b.fam == 'irk' else None, hasev=ev and 'ev' in r, gen=b.gen.get(sid),
                                   ref=ref[sid] if sid in b.refs else None, short=prop == 'C07'))
    random.Random(1).shuffle(traces)
    if prop == 'C08':
        for t in traces:       # only the states matter here
            t['res'].pop('ev', None)
    vf.validate(rep, 'StageTrace' if prop in ('C30', 'C31') else 'RkTrace', traces, prop)
    rep.cov.update(stats)
    rep.cov['methods'] = len(set((t['cfg']['fam'], t['cfg']['method']) for t in traces))
    rep.cov['samples'] = [t['line'][:300] for t in traces[:3]]
    return rep.finish()
