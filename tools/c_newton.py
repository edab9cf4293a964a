"""C15, C16, C19, C28: root finding and numerical Jacobians (NewtonTrace.tla)."""
import random
import re
import vf
import rk

T = vf.TIER == 'thorough'
H = vf.hexd


def system(rng, kind=None):
    """F(x) = c + L x + x'Qx (and a root it may have), initial guess"""
    k = kind or rng.choice(['lin', 'lin', 'quad', 'quad', 'sqrt', 'double', 'noroot', 'swap', 'far', 'singular', 'atroot'])
    n = rng.choice([1, 1, 2, 2, 3, 4, 4, 6])
    u = rng.uniform

    def mat(dom):
        return [[u(-1, 1) + (dom * rng.choice([-1, 1]) if i == j else 0) for j in range(n)] for i in range(n)]
    if k == 'lin':
        L = mat(rng.choice([0, 1, 2]))
        return rk.lin(n, L, c=[u(-3, 3) for _ in range(n)]), [u(-3, 3) for _ in range(n)]
    if k == 'quad':
        return rk.lin(n, mat(1.5), c=[u(-1, 1) for _ in range(n)], Q=[u(-.4, .4) for _ in range(n ** 3)]), \
            [u(-1, 1) for _ in range(n)]
    if k == 'sqrt':    # x^2 - a componentwise, coupled a little
        q = {(i, i, i): 1.0 for i in range(n)}
        return rk.lin(n, [[0 if i == j else u(-.1, .1) for j in range(n)] for i in range(n)],
                      c=[-u(0.1, 30) for _ in range(n)], Q=rk.qflat(n, q)), [u(0.2, 9) for _ in range(n)]
    if k == 'double':  # double root: linear convergence
        return rk.lin(1, [[-2.0]], c=[1.0], Q=[1.0]), [u(-3, 4)]
    if k == 'noroot':
        return rk.lin(1, [[u(-.1, .1)]], c=[u(0.5, 2)], Q=[1.0]), [u(-3, 3)]
    if k == 'swap':    # zero diagonal
        return rk.lin(2, [[0, u(1, 2)], [u(-2, -1), 0]], c=[u(-1, 1), u(-1, 1)],
                      Q=rk.qflat(2, {(0, 1, 1): u(-.2, .2)})), [u(-1, 1), u(-1, 1)]
    if k == 'far':
        q = {(i, i, i): u(0.5, 2) for i in range(n)}
        return rk.lin(n, mat(1), c=[-u(1, 100) for _ in range(n)], Q=rk.qflat(n, q)), [u(-100, 100) for _ in range(n)]
    if k == 'singular':
        n = 2
        return rk.lin(2, [[1, 1], [1, 1]], c=[u(-1, 1), u(-1, 1)],
                      Q=rk.qflat(2, {(0, 0, 0): rng.choice([0.0, 0.3])})), [rng.choice([0.0, u(-1, 1)]), u(-1, 1)]
    # the initial guess is a root
    x = [rng.choice([0.0, 1.0, -0.5]) for _ in range(n)]
    L = [[float(rng.randint(-3, 3) + (5 if i == j else 0)) for j in range(n)] for i in range(n)]
    return rk.lin(n, L, c=[-sum(L[i][j] * x[j] for j in range(n)) for i in range(n)]), x


def scenario(rng, what):
    p, x0 = system(rng)
    s = dict(p, what=what, y0=x0)
    s['ndx'] = rng.choice([1e-4, 1e-6, 1e-8, 1e-10, 1e-12, 0.0 if rng.random() < 0.2 else 1e-9])
    s['ntol'] = rng.choice([1e-4, 1e-6, 1e-8, 1e-10, 1e-12])
    s['nmaxit'] = rng.choice([50, 100, 30, rng.randint(1, 12), 1, 2, 50, 100, 280])
    s['nrefresh'] = rng.choice([0, 0, 1, 1, 2, 3, 4, 10]) if what == 'newton' else 10
    if rng.random() < 0.35:
        s['maxstep'] = 10 ** rng.uniform(-3, 1)
        if rng.random() < 0.15:
            s['maxstep'] = s['ndx'] * rng.choice([0.1, 0.9, 1.5]) or 1e-3
    elif rng.random() < 0.2:
        s['maxstep'] = 0.0
    s['limit'] = int(what == 'newton' and rng.random() < 0.25)
    s['precond'] = int(what == 'newton' and rng.random() < 0.25)
    s['timeint'] = int(rng.random() < 0.2)
    s['quiet'] = int(rng.random() < 0.75)
    s['dirty'] = int(rng.random() < 0.3)
    s['lambda'] = int(rng.random() < 0.4)
    s['t'] = rng.choice([0.0, 1.0, -2.5]) if any(p['d']) else 0.0
    if rng.random() < 0.2:    # failures of the function or the Jacobian
        w = rng.choice(['f', 'f', 'j']) if what == 'newton' else 'f'
        kind = rng.choice(['n', 'i', 'm', 'n', 's'])
        val = rng.choice([1e160, 0.0, -1.0, 1e-3]) if kind == 's' else 0
        if rng.random() < 0.7:
            a = rng.randint(1, 6)
            s['faults'] = '%s:n:%d:%d:0:%d:%s:%r' % (w, a, a + rng.choice([0, 0, 1, 1000]), rng.choice([-1, 0]), kind, val)
        else:
            s['faults'] = '%s:%s:%r:0:0:-1:%s:%r' % (w, rng.choice('gl'), rng.uniform(-2, 2), kind, val)
    s['budget'] = 20000
    return s


KEYS = ['what', 'n', 'c', 'd', 'L', 'Q', 'y0', 't', 'ntol', 'ndx', 'nmaxit', 'maxstep', 'nrefresh', 'precond', 'limit',
        'timeint', 'quiet', 'dirty', 'lambda', 'faults', 'h', 'budget', 'code', 'text']


def line(i, s):
    return vf.kvline(i, {k: s[k] for k in KEYS if k in s and s[k] != []})


def events(r):
    return [e for e in r.get('ev', []) if e['k'] == 'f'], [e for e in r.get('ev', []) if e['k'] == 'j']


def trace(i, s, r):
    f, j = events(r)
    t = dict(id=i, what=s['what'], x0=[H(x) for x in s['y0']], f=[dict(y=e['y'], r=e['r']) for e in f],
             j=[dict(y=e['y'], r=e['r']) for e in j], h=H(s.get('h', 0.0)),
             o=dict(refresh=s.get('nrefresh', 10) > 0, limit=bool(s.get('limit')), maxstep=H(s.get('maxstep', -1.0)),
                    ndx=H(s.get('ndx', 1e-4)), ntol=H(s.get('ntol', 1e-4)), maxit=s.get('nmaxit', 5000)),
             line=line(i, s))
    t['res'] = {k: v for k, v in r.items() if k != 'ev'}
    return t


def combined(rng, k):
    """Newton: every combination of the options, k = 0..31."""
    s = scenario(rng, 'newton')
    p, x0 = system(rng, rng.choice(['quad', 'sqrt', 'swap']))
    for x in ('faults', 'maxstep'):
        s.pop(x, None)
    s.update(p, y0=x0, nmaxit=30, ndx=1e-9, ntol=1e-9, nrefresh=(k & 1) * rng.choice([1, 2, 7]), precond=k >> 1 & 1,
             timeint=k >> 2 & 1, limit=k >> 3 & 1, quiet=k >> 4 & 1)
    return s


def roots(rep, prop):
    rng = random.Random(vf.SEED * 77 + int(prop[1:]))
    what = 'newton' if prop == 'C15' else 'broyden'
    n = 6000 if T else 1000
    sc = {'n%d' % k: scenario(rng, what) for k in range(n)}
    if what == 'newton':
        sc.update({'o%d' % k: combined(rng, k % 32) for k in range(96)})
    exe = vf.drivers(['newton_driver'])['newton_driver']
    res = vf.drive(exe, [line(i, s) for i, s in sc.items()])
    traces = [trace(i, s, res[i]) for i, s in sc.items()]
    vf.validate(rep, 'NewtonTrace', traces, prop)
    rep.cov['iterations'] = sum(len(t['f']) for t in traces)
    rep.cov['statuses'] = {str(c): sum(1 for t in traces if t['res'].get('st', {}).get('conv') == c) for c in range(5)}
    rep.cov['samples'] = [traces[0]['line'], traces[-1]['line']]


def exactjac(p, y):
    n = p['n']
    J = [[p['L'][i * n + j] + (sum((p['Q'][(i * n + j) * n + k] + p['Q'][(i * n + k) * n + j]) * y[k] for k in range(n))
                               if p['Q'] else 0.0) for j in range(n)] for i in range(n)]
    mag = max(abs(p['c'][i]) + sum(abs(p['L'][i * n + j] * (abs(y[j]) + 1)) for j in range(n)) +
              (sum(abs(p['Q'][(i * n + j) * n + k]) * (abs(y[j]) + 1) * (abs(y[k]) + 1) for j in range(n) for k in range(n))
               if p['Q'] else 0.0) for i in range(n))
    return J, mag


def jacobians(rep, prop):
    rng = random.Random(vf.SEED * 77 + 19)
    sc = {}
    for k in range(1500 if T else 350):
        p, y0 = system(rng)
        s = dict(p, what='jac', y0=y0, h=rng.choice([1e-2, 1e-3, 1e-4, 1e-6, 2.0 ** -10, 0.5]),
                 **{'lambda': int(rng.random() < 0.4)})
        z = rng.random()
        if z < 0.1:      # F that is not defined at some of the points
            j = rng.randrange(p['n'])
            s['faults'] = rng.choice(['f:%s:%r:0:%d:%d:%s' % (rng.choice('gl'), y0[j] + rng.choice([.5, -.5]) * s['h'], j,
                                                             rng.choice([-1, 0]), rng.choice('nim')),
                                      'f:n:%d:%d:0:%d:%s' % ((rng.randint(1, 2 * p['n']),) * 2 + (rng.choice([-1, 0]),
                                                             rng.choice('nim')))])
        elif z < 0.3:    # F that is not a polynomial: jumps and kinks
            s['faults'] = 'f:%s:%r:0:%d:%d:s:%r' % (rng.choice('gl'), y0[0] + rng.choice([0, .3, -.3]) * s['h'],
                                                   rng.randrange(p['n']), rng.choice([-1, 0]), rng.uniform(0.5, 2))
        sc['j%d' % k] = s
    for k in range(600 if T else 150):
        p, y0 = system(rng, rng.choice(['lin', 'quad', 'sqrt', 'far']))
        s = dict(p, what='verify', y0=y0, **{'lambda': int(rng.random() < 0.4)})
        J, mag = exactjac(p, y0)
        if rng.random() < 0.6:
            big = max(abs(x) for r in J for x in r) + 1
            s['faults'] = 'j:n:1:1000:0:%d:a:%r' % (rng.choice([-1, rng.randrange(p['n'])]),
                                                   rng.choice([-1, 1]) * big * 10 ** rng.uniform(-1, 2))
        else:
            # a constant function: both Jacobians are exactly zero
            s['L'], s['Q'] = [0.0] * p['n'] ** 2, []
        sc['v%d' % k] = s
    exe = vf.drivers(['newton_driver'])['newton_driver']
    res = vf.drive(exe, [line(i, s) for i, s in sc.items()])
    traces = []
    for i, s in sc.items():
        t = trace(i, s, res[i])
        J, mag = exactjac(s, s['y0'])
        t['quad'] = 'faults' not in s
        t['exact'] = [[H(x) for x in r] for r in J]
        t['tol'] = H(32 * 2.2e-16 * mag * (1 + 1 / s.get('h', 1e-4)))
        t['right'] = s['what'] == 'verify' and 'faults' not in s
        t['wrong'] = s['what'] == 'verify' and 'faults' in s
        traces.append(t)
    vf.validate(rep, 'NewtonTrace', traces, prop)
    rep.cov['samples'] = [traces[0]['line'], traces[-1]['line']]


# ------------------------------------------------------------------ C28
def parse(r):
    """reports among the lines written: [k, max, nums, x]"""
    out = []
    for w in ('cout', 'cerr'):
        text = '\n'.join(r.get(w, []))
        for m in re.finditer(r'(?:Newton|Broyden):\s+(\d+)/(\d+)((?:\s+[^\s:/(]+)*)(?:/\S+)?\s+x\s*:\s*\(([^)]*)\)', text):
            f = lambda v: [rk.token(x.replace('inf', 'Infinity')) for x in v.split()]
            out.append(dict(k=int(m[1]), max=int(m[2]), nums=f(m[3]), x=f(m[4])))
    return out


def reports(rep, prop):
    rng = random.Random(vf.SEED * 77 + 28)
    sc = {}
    for k in range(2000 if T else 400):
        s = scenario(rng, ('newton', 'broyden')[k % 2]) if k >= 32 else combined(rng, k)
        for q in (0, 1):
            sc['%s%d' % ('wq'[q], k)] = dict(s, quiet=q, text=1, nmaxit=s['nmaxit'])
    exe = vf.drivers(['newton_driver'])['newton_driver']
    res = vf.drive(exe, [line(i, s) for i, s in sc.items()])
    traces = []
    for i, s in sc.items():
        if i[0] != 'w':
            continue
        t = trace(i, s, res[i])
        q = res['q' + i[1:]]
        t.update(what='reports', of=s['what'], text=parse(res[i]), quiettext=len(parse(q)),
                 quiet={k: v for k, v in q.items() if k in ('end', 'x', 'st')})
        t['res'] = {k: v for k, v in t['res'].items() if k in ('end', 'x', 'st')}
        traces.append(t)
    vf.validate(rep, 'NewtonTrace', traces, prop)
    rep.cov['reports'] = sum(len(t['text']) for t in traces)
    rep.cov['samples'] = [traces[0]['line'], traces[-1]['line']]


def check(prop):
    rep = vf.Report(prop)
    if prop == 'C19':
        jacobians(rep, prop)
    elif prop == 'C28':
        reports(rep, prop)
    else:
        roots(rep, prop)
    return rep.finish()
