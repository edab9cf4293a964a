"""Scenarios for the Runge-Kutta properties C01-C09 and their conversion to
traces of RkTrace.tla."""
import random
import re
import vf

ERK = [100, 110, 120, 130, 131, 132]
ERK_NS = {100: 1, 110: 4, 120: 4, 130: 6, 131: 7, 132: 6}
ERK_FSAL = {120, 131}
ERK_ADAPT = [120, 130, 131, 132]
IRK = [200, 210, 211, 212, 213, 220, 222, 230, 231, 232, 240, 243]
IRK_NS = {200: 1, 210: 2, 211: 3, 212: 5, 213: 7, 220: 3, 222: 7, 230: 3, 231: 4, 232: 5, 240: 3, 243: 7}
IRK_ADAPT = [m for m in IRK if m != 200]


def lin(n, L, c=None, d=None, Q=None):
    return dict(n=n, c=c or [0.0] * n, d=d or [0.0] * n, L=[float(x) for r in L for x in r], Q=Q or [])


def qflat(n, terms):
    q = [0.0] * (n ** 3)
    for (i, j, k), v in terms.items():
        q[(i * n + j) * n + k] = float(v)
    return q


def problem(rng, implicit, kinds=None):
    """returns (problem, y0, length of a sensible interval)"""
    k = rng.choice(kinds or ['decay', 'osc', 'stiff', 'logistic', 'lv', 'lorenz', 'time', 'quad', 'lin4',
                             'zero', 'forced', 'chain'] + (['robertson'] if implicit else []))
    u = rng.uniform
    if k == 'decay':
        a = u(0.3, 5)
        return lin(1, [[-a]]), [u(0.2, 3) * rng.choice([-1, 1])], 3 / a
    if k == 'osc':
        w = u(0.5, 4)
        g = u(-0.3, 0.1)
        return lin(2, [[g, w], [-w, g]]), [u(-2, 2), u(-2, 2)], 4 / w
    if k == 'stiff':
        b = 10 ** (u(1, 4) if implicit else u(1, 1.7))
        return lin(2, [[-1, u(-1, 1)], [0, -b]]), [u(0.5, 2), u(-1, 1)], (u(1, 3) if implicit else 40 / b)
    if k == 'logistic':
        r, K = u(0.5, 3), u(0.5, 4)
        return lin(1, [[r]], Q=qflat(1, {(0, 0, 0): -r / K})), [K * u(0.05, 0.4)], 2.5 / r
    if k == 'lv':
        a, b, c, d = u(0.5, 2), u(0.3, 1.2), u(0.5, 2), u(0.3, 1.2)
        return lin(2, [[a, 0], [0, -c]], Q=qflat(2, {(0, 0, 1): -b, (1, 1, 0): d})), [u(0.5, 3), u(0.5, 3)], u(1, 4)
    if k == 'lorenz':
        return lin(3, [[-10, 10, 0], [28, -1, 0], [0, 0, -8 / 3.]],
                   Q=qflat(3, {(1, 0, 2): -1, (2, 0, 1): 1})), [u(-5, 5), u(-5, 5), u(15, 30)], u(0.2, 0.6)
    if k == 'robertson':
        return lin(3, [[-0.04, 0, 0], [0.04, 0, 0], [0, 0, 0]],
                   Q=qflat(3, {(0, 1, 2): 1e4, (1, 1, 2): -1e4, (1, 1, 1): -3e7, (2, 1, 1): 3e7})), \
            [1.0, 0.0, 0.0], u(0.1, 10)
    if k == 'time':
        n = rng.choice([1, 2])
        return lin(n, [[u(-1.5, 0.5) for _ in range(n)] for _ in range(n)], c=[u(-1, 1) for _ in range(n)],
                   d=[u(-1, 1) for _ in range(n)]), [u(-1, 1) for _ in range(n)], u(1, 3)
    if k == 'quad':
        n = rng.choice([1, 2, 3])
        return lin(n, [[u(-1, 0.6) for _ in range(n)] for _ in range(n)], c=[u(-.5, .5) for _ in range(n)],
                   d=[rng.choice([0.0, u(-.5, .5)]) for _ in range(n)],
                   Q=[u(-0.3, 0.3) for _ in range(n ** 3)]), [u(-0.8, 0.8) for _ in range(n)], u(0.6, 1.5)
    if k == 'lin4':
        return lin(4, [[u(-1, 1) - (2 if i == j else 0) for j in range(4)] for i in range(4)],
                   c=[u(-1, 1) for _ in range(4)]), [u(-2, 2) for _ in range(4)], u(1, 3)
    if k == 'zero':
        n = rng.choice([1, 2])
        return lin(n, [[0] * n] * n, c=[rng.choice([0.0, u(-1, 1)]) for _ in range(n)]), \
            [u(-1, 1) for _ in range(n)], u(0.5, 2)
    if k == 'forced':
        a = u(1, 8)
        return lin(2, [[-a, 0], [1, -0.5]], c=[u(-1, 1), 0], d=[u(-2, 2), u(-1, 1)]), [u(-1, 1), u(-1, 1)], u(1, 2)
    if k == 'chain':          # more components than the usual problems
        n = rng.choice([5, 6, 7, 9])
        g = u(0.2, 2)
        L = [[0.0] * n for _ in range(n)]
        for i in range(n):
            L[i][i] = -2 * g * u(0.8, 1.2)
            if i:
                L[i][i - 1] = g * u(0.5, 1.5)
            if i < n - 1:
                L[i][i + 1] = g * u(-1, 1)
        return lin(n, L, c=[u(-1, 1) for _ in range(n)], d=[rng.choice([0.0, u(-1, 1)]) for _ in range(n)]), \
            [u(-2, 2) for _ in range(n)], u(1, 3) / g
    if k == 'blowup':
        a = u(0.5, 2)
        return lin(1, [[0]], Q=[a]), [u(0.8, 2)], 40.0
    raise ValueError(k)


def interval(rng, length, clean=True):
    z = rng.random()
    if z < 0.35:
        t0 = 0.0
    elif z < 0.6:
        t0 = rng.uniform(-5, 5)
    elif z < 0.75:
        t0 = -length * rng.uniform(0.2, 0.9)
    elif z < 0.9:
        t0 = rng.choice([-1, 1]) * 10 ** rng.uniform(1, 3)
    else:
        t0 = rng.choice([-1, 1]) * 10 ** rng.uniform(3, 6)
    return t0, t0 + length


def rescale(s, f):
    """the same problem in other units"""
    for k in ('y0', 'c', 'd'):
        s[k] = [x * f for x in s[k]]
    s['Q'] = [x / f for x in s['Q']]
    s['atol'] *= f
    for k in ('ntol', 'ndx'):
        if k in s:
            s[k] *= max(f, 1.0)


def retime(s, f):
    """the same problem with another unit of time"""
    for k, q in (('c', 1), ('d', 2), ('L', 1), ('Q', 1)):
        s[k] = [x / f ** q for x in s[k]]
    for k in ('t0', 't1', 'dt', 'maxdt'):
        if k in s:
            s[k] *= f
    if 'ntol' in s:
        s['ntol'] *= max(1 / f, 1.0)


def scenario(rng, fam, method=None, adaptive=None, kinds=None, maxpts=24):
    imp = fam == 'irk'
    m = method if method is not None else rng.choice(IRK if imp else ERK)
    if adaptive is None:
        adaptive = rng.random() < 0.75
    p, y0, length = problem(rng, imp, kinds)
    length *= rng.uniform(0.7, 1.3)
    if len(y0) > 1 and rng.random() < 0.12:     # components at rest
        for j in rng.sample(range(len(y0)), rng.randint(1, len(y0) - 1)):
            y0[j] = 0.0
    t0, t1 = interval(rng, length)
    # the explicit time dependence is one of t - t0, up to a few units
    off = t0 - rng.uniform(-2, 2)
    p['c'] = [ci - di * off for ci, di in zip(p['c'], p['d'])]
    s = dict(p, fam=fam, method=m, adaptive=bool(adaptive), y0=y0, t0=t0, t1=t1)
    hasemb = m in (IRK_ADAPT if imp else ERK_ADAPT)
    if adaptive and hasemb:
        hi = 9 if m not in (120, 210, 220, 230, 240) else 6
        s['rtol'] = 10 ** -rng.uniform(2, hi)
        s['atol'] = s['rtol'] * 10 ** rng.uniform(-1, 1)
        s['dt'] = length * 10 ** -rng.uniform(0, 4)
        if rng.random() < 0.1:
            s['dt'] = length * rng.uniform(1, 20)
        s['maxsteps'] = maxpts if rng.random() < 0.8 else rng.randint(1, maxpts)
        if rng.random() < 0.3:
            s['maxdt'] = length / rng.uniform(2, 12)
        elif rng.random() < 0.1:
            s['maxdt'] = length * rng.uniform(1, 3)
        if 'maxdt' in s and rng.random() < 0.3:
            s['dt'] = length * rng.uniform(0.3, 3)
    else:
        s['rtol'], s['atol'] = 1e-6, 1e-6
        s['dt'] = length / rng.uniform(0.5, maxpts * 0.6)
        s['maxsteps'] = rng.choice([-1, -1, -1, maxpts, rng.randint(1, maxpts)])
        if rng.random() < 0.3:
            s['maxdt'] = length / rng.uniform(2, maxpts * 0.6)
    if imp:
        s['ntol'] = 10 ** -rng.uniform(9, 12)
        s['ndx'] = 10 ** -rng.uniform(10, 12)
        s['nmaxit'] = rng.choice([30, 50, 100])
        s['nrefresh'] = rng.choice([0, 1, 1, 2, 5, 25])
    if adaptive and hasemb:
        w = rng.random()
        if w < 0.06 and kinds is None:
            s['atol'] *= 10 ** rng.uniform(-6, 3)
        elif w < 0.1:
            s['atol' if all(y0) else 'rtol'] = 0.0
        elif w < 0.12:
            s['rtol'] = 0.0
    if rng.random() < 0.15:
        rescale(s, 10 ** rng.uniform(-6, 8))
    if rng.random() < 0.1:
        retime(s, 10 ** rng.uniform(-9, 5))
    return s


def with_clock(rng, s):
    """one more component, whose derivative is the same everywhere: its value
    tells through which time the state was integrated, for any method"""
    n = s['n']
    rate = max([abs(x) for x in s['c'] + s['y0']] + [1e-3]) * rng.choice([-1, 1])
    L = []
    for i in range(n):
        L += s['L'][i * n:(i + 1) * n] + [0.0]
    Q = []
    if s['Q']:
        m = n + 1
        Q = [0.0] * m ** 3
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    Q[(i * m + j) * m + k] = s['Q'][(i * n + j) * n + k]
    s.update(n=n + 1, c=s['c'] + [rate], d=s['d'] + [0.0], L=L + [0.0] * (n + 1), Q=Q,
             y0=s['y0'] + [rate * rng.uniform(-1, 1)], clock=n + 1)


def clean_of(s):
    return not s.get('faults')


KEYS = ['n', 'c', 'd', 'L', 'Q', 'y0', 't0', 't1', 'dt', 'method', 'rtol', 'atol', 'maxdt', 'maxsteps',
        'adaptive', 'progress', 'timeint', 'oint', 'toggles', 'ntol', 'ndx', 'nmaxit', 'nrefresh', 'faults',
        'logf', 'logj', 'text', 'simple', 'budget', 'cpu', 'wall']


def line(sid, s):
    d = {k: s[k] for k in KEYS if k in s and s[k] is not None and s[k] != []}
    return vf.kvline(sid, d)


def output_state(toggles):
    store, stream = True, False
    for c in toggles:
        if c == 'S':
            stream = True
        elif c == 'V':
            store = True
        elif c == 'N':
            store = False
    return store, stream


def token(x):
    try:
        return vf.hexd(float(x))
    except ValueError:
        return 'NaN'


def progress(r):
    """the progress report in what the library printed: header lines, and
    the lines of step, time, step size, error (and iterations)"""
    num = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)'
    heads, log = 0, []
    for l in r['cout'] + r['cerr']:
        if re.search(r'Rehuel:\s+step\s+t\s+dt\s+err', l):
            heads += 1
        m = re.search(r'Rehuel:\s+(\d+)\s+(%s)\s+(%s)\s+(%s)(?:\s+(\d+))?\s*$' % (num, num, num), l)
        if m:
            log.append(dict(k=int(m[1]), t=token(m[2]), h=token(m[3]), e=token(m[4]), it=int(m[5] or -1)))
    return heads, log


def nest(p):
    n = p['n']
    H = vf.hexd
    L = [[H(p['L'][i * n + j]) for j in range(n)] for i in range(n)]
    Q = [[[H(p['Q'][(i * n + j) * n + k]) for k in range(n)] for j in range(n)] for i in range(n)] if p['Q'] else []
    return dict(c=[H(x) for x in p['c']], d=[H(x) for x in p['d']], L=L, Q=Q)


def trace(sid, s, res, coeffs=None, ref=None, hasev=False, gen=None, short=False):
    H = vf.hexd
    store, stream = output_state(s.get('toggles', ''))
    cf = dict(fam=s['fam'], method=s['method'], n=s['n'], t0=H(s['t0']), t1=H(s['t1']), dt=H(s['dt']),
              y0=[H(x) for x in s['y0']], maxdt=H(s.get('maxdt', 0.0)), maxsteps=s.get('maxsteps', -1),
              adaptive=s['adaptive'], oint=s.get('oint', 1), store=store, stream=stream,
              rtol=H(s['rtol']), atol=H(s['atol']), p=nest(s), clean=s.get('clean', clean_of(s)),
              expect=s.get('expect', 'any'), ntol=H(s.get('ntol', 0.0)), ndx=H(s.get('ndx', 0.0)),
              nmaxit=s.get('nmaxit', 0), nrefresh=s.get('nrefresh', 0),
              gamma='0', b2=[], progress=s.get('progress', 0),
              clock=s.get('clock', 0))
    if coeffs:
        c = coeffs[s['method']]
        cf['gamma'], cf['b2'] = c['gamma'], c['b2']
    r = dict(res)
    if r['end'] == 'ok':
        r['file'] = [[token(x) for x in l.split(' ')] for l in r['file']]
        if not hasev:
            r.pop('ev', None)
        else:
            ev, r['ev'], r['jv'] = r['ev'], [], []
            for e in ev:
                if e['k'] == 'f':
                    r['ev'].append(e)
                else:
                    r['jv'].append(dict(at=len(r['ev']), t=e['t'], y=e['y'], r=e['r']))
        if 'cout' in r:
            r['heads'], r['log'] = progress(r)
            r.pop('cout'), r.pop('cerr')
    t = dict(id=sid, cfg=cf, res=r, hasev=bool(hasev and r['end'] == 'ok'), hasref=ref is not None,
             full=bool(store and s.get('oint', 1) == 1), line=line(sid, s))
    if ref is not None:
        if ref['end'] != 'ok':
            t['ref'] = {'end': ref['end'], 'status': 4}
        else:
            t['ref'] = dict(ref, M=len(ref['T']) - 1)
            t['ref'].pop('file', None)
            if 'cout' in ref:
                t['ref']['heads'], t['ref']['log'] = progress(ref)
                t['ref'].pop('cout'), t['ref'].pop('cerr')
            if short and t['full']:   # only as many points as can be compared
                k = len(r.get('T', [])) + 1
                t['ref'] = dict(end='ok', status=ref['status'], M=len(ref['T']) - 1,
                                T=ref['T'][:k], Y=ref['Y'][:k])
    t['hasgen'] = gen is not None
    if gen is not None:
        t['gen'] = gen
    return t
