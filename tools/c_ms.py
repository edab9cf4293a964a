"""C17, C18: multistep runs (MsTrace.tla)."""
import random
import vf
import rk

T = vf.TIER == 'thorough'
H = vf.hexd
KEYS = ['what', 'order', 'n', 'c', 'd', 'L', 'Q', 'y0', 't0', 't1', 'dt', 'faults', 'budget', 'cpu', 'wall']
KINDS = ['decay', 'osc', 'logistic', 'lv', 'time', 'quad', 'lin4', 'zero', 'forced', 'stiff', 'chain']


def line(i, s):
    return vf.kvline(i, {k: s[k] for k in KEYS if k in s and s[k] != []})


def scenario(rng, what, order=None):
    ab = what == 'ab'
    top = 5 if ab else 6
    q = order if order is not None else rng.randint(1, top)
    p, y0, length = rk.problem(rng, True, KINDS if not ab else [k for k in KINDS if k != 'stiff'])
    length *= rng.uniform(0.7, 1.3)
    t0, t1 = rk.interval(rng, length)
    off = t0 - rng.uniform(-2, 2)
    p['c'] = [ci - di * off for ci, di in zip(p['c'], p['d'])]
    start = q if ab else q + 1
    z = rng.random()
    if p['Q']:        # not beyond the end, where the solution need not exist
        z = 0.3 + 0.7 * z
    if z < 0.1:       # larger than the interval
        dt = length * rng.uniform(1, 5)
    elif z < 0.25:    # the start-up alone goes beyond the end
        dt = length / rng.uniform(1, max(1.0, start - 1.0) + 0.01)
    elif z < 0.4:     # divides the interval
        dt = (t1 - t0) / rng.choice([x for x in (2, 4, 5, 8, 10, 16) if x >= start or not p['Q']])
    else:
        dt = length / rng.uniform(start, 40)
        if z > 0.97:      # hundreds of points
            dt = length / rng.uniform(150, 400)
    s = dict(p, what=what, order=q, y0=y0, t0=t0, t1=t1, dt=dt, expect='ok', minpts=1, flow=True)
    eff = min(dt, t1 - t0)
    # stable: the run stays moderate whatever the method does with it
    lim = 0.15 if ab else 0.6
    L = max([abs(x) for x in p['L']] + [0.1])
    if eff * L > lim and (ab or p['Q']) or p['Q'] and eff * L > 0.3:
        s['expect'] = 'any'
    z = rng.random()
    if z < 0.12:      # from some moment on the right-hand side fails
        k = rng.randint(start, start + 6)
        tf = t0 + (k + 0.5) * eff
        s['faults'] = 'f:t:%r:1000000:0:%d:%s' % (tf, rng.choice([-1, 0]), rng.choice('nim'))
        s['expect'] = 'fail' if tf < t1 - 1.5 * eff else 'any'
        s['minpts'] = (start if s['expect'] == 'fail' and ok_before(s, p, eff, ab) else 1)
    elif z < 0.2:     # a single evaluation after the start fails
        s['faults'] = 'f:n:%d:%d:0:%d:%s' % ((lambda a: (a, a))(rng.randint(1, 400)) + (rng.choice([-1, 0]), rng.choice('nim')))
        s['expect'] = 'any'
    elif z < 0.28:    # the start-up fails
        a = rng.choice([1, 1, 2, 5, 12, 30])
        s['faults'] = 'f:n:%d:100000000:0:-1:n' % a
        s['expect'] = 'fail' if a == 1 and start > 1 else 'any'
        s['flow'] = a == 1
    elif z < 0.34 and not ab:   # inexact Jacobian
        s['faults'] = 'j:n:1:100000000:0:-1:s:%r' % rng.uniform(0.7, 1.2)
        s['expect'], s['flow'] = 'any', False
    s['budget'] = 300000
    s['cpu'] = 10
    return s


def ok_before(s, p, eff, ab):
    return True


def invalid(rng, what):
    s = scenario(rng, what)
    s.pop('faults', None)
    s['order'] = rng.choice([0, -1, -2, -1000, 7, 8, 100, 6 if what == 'ab' else 7, 2147483647, -2147483648])
    s['expect'] = 'any'
    return s


def trace(i, s, r):
    c = dict(what=s['what'], order=s['order'], t0=H(s['t0']), t1=H(s['t1']), dt=H(s['dt']), y0=[H(x) for x in s['y0']],
             p=rk.nest(s), starttol='1e-6', flow=s['flow'], expect=s['expect'], minpts=s['minpts'])
    return dict(id=i, cfg=c, res=r, line=line(i, s))


def check(prop):
    rep = vf.Report(prop)
    rng = random.Random(vf.SEED * 177 + int(prop[1:]))
    what = 'ab' if prop == 'C17' else 'bdf'
    n = 1500 if T else 260
    sc = {'m%d' % k: scenario(rng, what) for k in range(n)}
    for k in range(40 if T else 15):
        sc['i%d' % k] = invalid(rng, what)
    exe = vf.drivers(['ms_driver'])['ms_driver']
    res = vf.drive(exe, [line(i, s) for i, s in sc.items()])
    traces = [trace(i, s, res[i]) for i, s in sc.items()]
    vf.validate(rep, 'MsTrace', traces, prop)
    rep.cov['points'] = sum(len(t['res'].get('T', [])) for t in traces)
    rep.cov['statuses'] = {}
    for t in traces:
        k = str(t['res'].get('status', t['res']['end']))
        rep.cov['statuses'][k] = rep.cov['statuses'].get(k, 0) + 1
    rep.cov['samples'] = [traces[0]['line'], traces[-1]['line']]
    return rep.finish()
