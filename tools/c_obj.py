"""C10-C14, C20, C22, C23: objects and functions around the integrators."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import random
import vf

T = vf.TIER == 'thorough'
ERKC = {100: 'EXPLICIT_EULER', 110: 'RUNGE_KUTTA_4', 120: 'BOGACKI_SHAMPINE_32', 130: 'CASH_KARP_54',
        131: 'DORMAND_PRINCE_54', 132: 'FEHLBERG_54'}
IRKC = {200: 'IMPLICIT_EULER', 210: 'RADAU_IIA_32', 211: 'RADAU_IIA_53', 212: 'RADAU_IIA_95',
        213: 'RADAU_IIA_137', 220: 'LOBATTO_IIIA_43', 221: 'LOBATTO_IIIA_85', 222: 'LOBATTO_IIIA_127',
        230: 'LOBATTO_IIIC_43', 231: 'LOBATTO_IIIC_64', 232: 'LOBATTO_IIIC_85', 233: 'LOBATTO_IIIC_127',
        240: 'GAUSS_LEGENDRE_42', 241: 'GAUSS_LEGENDRE_63', 242: 'GAUSS_LEGENDRE_105',
        243: 'GAUSS_LEGENDRE_147'}
H = vf.hexd


def go(exe, scn):
    """scn: {id: dict}; returns {id: (line, result)}"""
    lines = {i: vf.kvline(i, d) for i, d in scn.items()}
    res = vf.drive(exe, lines.values())
    return {i: (lines[i], res[i]) for i in scn}


# ------------------------------------------------------------------ C10
def cyclic(rep):
    vf.model(rep, 'MCCyclic', cfg='MCCyclicT.cfg' if T else 'MCCyclic.cfg')
    n = 3000 if T else 420
    r = vf.tlc('CyclicGen', workers=1, extra=('-simulate', 'num=%d' % n, '-depth', '40', '-seed', str(vf.SEED)))
    gen = [l.strip('"').split('|') for l in r.prints]
    if len(gen) < n // 2:
        raise vf.CheckError('no behaviours generated: ' + r.out[-800:])
    rep.cov['generated_behaviours'] = len(gen)
    scn = {}
    for k, g in enumerate(gen):
        scn['cb%d' % k] = dict(what='cyclic', elem=['int', 'vec', 'str'][k % 3], p0=int(g[1]), p1=int(g[2]), ops=g[3])
    # long histories on larger periods
    rng = random.Random(vf.SEED * 31 + 10)
    for k in range(60 if T else 24):
        p = rng.choice([1, 2, 3, 5, 7, 8, 13])
        ops, v, size = [], 1, 0
        for _ in range(rng.choice([30, 60, 90])):
            z = rng.random()
            if z < 0.75 or size == 0:
                ops.append('p:0:%d' % v)
                size = min(p, size + 1)
            elif z < 0.9:
                ops.append('%s:0:%d:%d' % (rng.choice('wi'), rng.randrange(size), v))
            else:
                ops.append('%s:1:0' % rng.choice('ac'))
            v += 1
        scn['cl%d' % k] = dict(what='cyclic', elem=['int', 'vec', 'str'][k % 3], p0=p, p1=1, ops=';'.join(ops))
    exe = vf.drivers(['obj_driver'])['obj_driver']
    traces = []
    for i, (l, r) in go(exe, scn).items():
        t = dict(id=i, p=[scn[i]['p0'], scn[i]['p1']], end=r['end'], line=l)
        if r['end'] == 'ok':
            t['log'] = r['log']
            t['ops'] = []
            for o in scn[i]['ops'].split(';'):
                w = o.split(':') + ['0', '0']
                t['ops'].append(dict(op=w[0], x=int(w[1]), y=int(w[2]), z=int(w[3])))
        traces.append(t)
    vf.validate(rep, 'CyclicTrace', traces, 'C10')
    rep.cov['samples'] = [traces[0]['line'], traces[-1]['line']]


# ------------------------------------------------------------------ C11
def merge(rep):
    rng = random.Random(vf.SEED * 31 + 11)
    scn = {}

    def sol(k, npts):
        d = {}
        dim = rng.randint(1, 3)

        def rows(m, w):
            return '_'.join('.'.join(str(rng.randint(-99, 99)) for _ in range(w)) for _ in range(m)) or '-'

        def nums(m):
            return '_'.join(H(rng.choice([rng.uniform(-9, 9), rng.uniform(0, 1), 1e-300, 0.1])) for _ in range(m)) or '-'
        # integrators fill stages etc. for every point, but a solution may hold fewer
        full = rng.random() < 0.6
        sub = (lambda: npts) if full else (lambda: rng.randint(0, npts))
        d['st'] = rng.choice([0, 0, 1, 2, 4, 8, 16, 3, 5, 6, 12, 31])
        d['T'] = nums(npts)
        d['Y'] = rows(sub(), dim)
        d['K'] = rows(sub(), dim * rng.randint(1, 4))
        d['E'] = rows(sub(), dim)
        d['N'] = nums(sub())
        big = rng.random() < 0.2
        d['C'] = '_'.join(str(rng.choice([0, 1, rng.randint(0, 10 ** 4), rng.randint(0, 10 ** 9 if big else 99)])) for _ in range(9))
        d['el'] = rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, 1e6)])
        d['af'] = rng.choice([0.0, 1.0, rng.random(), rng.random()])
        return {k + x: v for x, v in d.items()}
    for i in range(600 if T else 200):
        na, nb = rng.choice([(0, 0), (0, 3), (3, 0), (1, 1), (1, 9), (7, 2), (rng.randint(0, 30), rng.randint(0, 30))])
        s = dict(what='merge')
        s.update(sol('a', na))
        s.update(sol('b', nb))
        scn['m%d' % i] = s
    exe = vf.drivers(['obj_driver'])['obj_driver']
    traces = [dict(r, what='merge', line=l) for i, (l, r) in go(exe, scn).items()]
    vf.validate(rep, 'ApiTrace', traces, 'C11')
    rep.cov['samples'] = [traces[0]['line']]


# ------------------------------------------------------------------ C12
def registry(rep):
    rng = random.Random(vf.SEED * 31 + 12)
    every = []
    for f, tab in (('e', ERKC), ('i', IRKC)):
        every += ['%s:a' % f]
        for c, n in tab.items():
            every += ['%s:n:%s' % (f, n), '%s:c:%d' % (f, c), '%s:k:%d' % (f, c)]
    unknown = []
    for f in 'ei':
        for n in ['NO_SUCH_METHOD', 'RADAU', 'RADAU_IIA_531', 'radau_iia_53', '', 'RADAU_IIA_5', 'EULER',
                  'DORMAND_PRINCE_54x', 'RUNGE_KUTTA_4' if f == 'i' else 'RADAU_IIA_53', 'UNKNOWN', '0', '100']:
            unknown.append('%s:n:%s' % (f, n))
        for c in [0, -1, 1, 99, 101, 199, 201, 121, 111, 133, 214, 223, 234, 244, 300, 1000, 100 if f == 'i' else 211,
                  2147483647, -2147483648]:
            unknown.append('%s:c:%d' % (f, c))
            unknown.append('%s:k:%d' % (f, c))
    scn = {'all': dict(q=every), 'allrev': dict(q=every[::-1]), 'unk': dict(q=unknown),
           'mix': dict(q=[x for p in itertools.zip_longest(every, unknown) for x in p if x])}
    for k in range(60 if T else 16):
        scn['r%d' % k] = dict(q=[rng.choice(unknown if rng.random() < 0.4 else every) for _ in range(120)])
    # every single unknown query, followed by everything
    for k, u in enumerate(unknown):
        scn['u%d' % k] = dict(q=[u, u] + every)
    for k in range(12 if T else 4):
        scn['t%d' % k] = dict(q=rng.sample(every + unknown, 60), threads=8, rep=6)
    for s in scn.values():
        s['what'] = 'registry'
        s['q'] = ','.join(s['q'])
    fine = {}
    for k in range(80 if T else 16):
        fine['g%d' % k] = dict(q=','.join(rng.sample(every + unknown, 12)), threads=rng.choice([2, 3]), rep=2, what='registry',
                               fine=rng.choice([1, 2, 4, 10, 40]), fseed=rng.randint(1, 10**6))
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(vf.drivers, ['coef_driver']), ex.submit(vf.drivers, ['coef_driver'], vf.FINE)
        exe, exef = a.result()['coef_driver'], b.result()['coef_driver']

    def q(x):
        kind = dict(name='n', code='c', all='a', coef='k')[x['q']]
        o = dict(fam=x['fam'], kind=kind)
        if kind == 'n':
            o.update(name=x['arg'], code=x['code'])
        elif kind == 'a':
            o['names'] = x['names']
        else:
            o.update(code=x['arg'], name=x['name'])
        return o
    traces = []
    for i, (l, r) in list(go(exe, scn).items()) + list(go(exef, fine).items()):
        logs = r['logs'] if 'logs' in r else [r.get('log', [])]
        for k, lg in enumerate(logs):
            traces.append(dict(id=i + ('' if len(logs) == 1 else '.%d' % k), what='registry', end=r['end'],
                               q=[q(x) for x in lg], line=l))
    vf.validate(rep, 'ApiTrace', traces, 'C12')
    rep.cov['samples'] = [scn['mix']['q'][:400]]


# ------------------------------------------------------------------ C13 / C14
def coefficients(rep, prop):
    rng = random.Random(vf.SEED * 31 + 13)
    exe = vf.drivers(['coef_driver'])['coef_driver']
    impl = [c for c in IRKC if c not in (221, 233, 241, 242)]
    ms = [('erk', m) for m in ERKC] + [('irk', m) for m in impl]
    traces = []
    if prop == 'C13':
        scn = {'%s%d' % f: dict(what='coef', fam=f[0], method=f[1]) for f in ms}
        for i, (l, r) in go(exe, scn).items():
            fp = ''
            if r['end'] == 'ok':
                fp = 'b2 %s gamma %.10f' % (' '.join('%.10f' % float.fromhex(x) if 'x' in x else x for x in r['k']['b2']),
                                            float.fromhex(r['k']['gamma']))
            traces.append(dict(id=i, what='coef', fam=scn[i]['fam'], method=scn[i]['method'], res=r, fp=fp, line=l))
        vf.validate(rep, 'CoefTrace', traces, prop, env={'DEEP': '1' if T else '0'})
        rep.cov['samples'] = [t['id'] for t in traces]
        return
    dense = (210, 211, 212, 213, 232)
    nodes = go(exe, {'n%d' % m: dict(what='coef', fam='irk', method=m) for m in impl})
    scn = {}
    for m in impl:
        c = nodes['n%d' % m][1]['k']['c']
        th = ['0', '1'] + list(c) + [H(rng.uniform(0, 1)) for _ in range(24 if T else 6)] + \
             [H(x) for x in (1e-9, 0.999999, 1.25, -0.25, 2.0)]
        scn['d%d' % m] = dict(what='coef', fam='irk', method=m, theta=','.join(th))
    for k in range(800 if T else 160):
        s = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
        z = rng.random()
        if z < 0.4:     # random distinct nodes in [0, 1]
            while True:
                c = [rng.random() for _ in range(s)]
                if all(abs(a - b) > 0.04 for a, b in itertools.combinations(c, 2)):
                    break
            if rng.random() < 0.5:
                c.sort()
        elif z < 0.6:   # equidistant, with or without the ends
            c = [i / max(1, s - 1) for i in range(s)] if rng.random() < 0.5 else [(i + 1) / (s + 1) for i in range(s)]
            if rng.random() < 0.3:
                rng.shuffle(c)
        elif z < 0.8:   # outside [0, 1], negative
            while True:
                c = [rng.uniform(-2, 2) for _ in range(s)]
                if all(abs(a - b) > 0.1 for a, b in itertools.combinations(c, 2)):
                    break
        else:
            c = rng.sample([x / 8 for x in range(-8, 17)], s)
        th = [0.0, 1.0] + c[:2] + [rng.uniform(0, 1), rng.uniform(-1, 2)]
        scn['i%d' % k] = dict(what='interp', nodes=[H(x) for x in c], theta=','.join(H(x) for x in th))
    for i, (l, r) in go(exe, scn).items():
        s = scn[i]
        t = dict(id=i, what=s['what'], fam='irk', method=s.get('method', 0), theta=s['theta'].split(','),
                 nodes=s.get('nodes', []), dense=s.get('method') in dense, res=r, line=l)
        traces.append(t)
    vf.validate(rep, 'CoefTrace', traces, prop, env={'DEEP': '0'})
    rep.cov['samples'] = [traces[0]['line'][:300], traces[-1]['line']]


# ------------------------------------------------------------------ C20
def expansion(rep):
    rng = random.Random(vf.SEED * 31 + 20)

    def lst(n):
        return '_'.join('.'.join(str(rng.randint(-1, 9)) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))) for _ in range(n)) \
            if n else '-'
    scn = {}
    for i, (a, b, c) in enumerate(itertools.product([0, 1, 2, 3], repeat=3)):
        scn['s%d' % i] = dict(what='expand', a=lst(a), b=lst(b), c=lst(c))
    for i in range(400 if T else 120):
        scn['x%d' % i] = dict(what='expand', a=lst(rng.randint(0, 6)), b=lst(rng.randint(0, 6)), c=lst(rng.randint(0, 4)))
    exe = vf.drivers(['coef_driver'])['coef_driver']
    # (a list with one empty element is written like an absent one)
    traces = [dict(r, what='expand', line=l) for i, (l, r) in go(exe, scn).items()]
    vf.validate(rep, 'ApiTrace', traces, 'C20')
    rep.cov['samples'] = [traces[-1]['line']]


# ------------------------------------------------------------------ C22
def timer(rep):
    rng = random.Random(vf.SEED * 31 + 22)
    scn = {}
    for i in range(600 if T else 200):
        t0 = rng.choice([0, 999999, 10 ** 6, rng.randint(0, 10 ** 9), 1700000000 * 10 ** 6 + rng.randint(0, 10 ** 6)])
        now = t0
        ops = []
        for _ in range(rng.randint(4, 30)):
            z = rng.random()
            if z < 0.35:
                d = rng.choice([0, 1, 999, 1000, 999999, 10 ** 6, 1000001, rng.randint(0, 10 ** 7),
                                rng.randint(0, 10 ** 11), int(10 ** rng.uniform(11, 15))])
                now += d
                ops.append('a:%d' % d)
            elif z < 0.45:
                ops.append('t')
            elif z < 0.7:
                ops.append(rng.choice(['c', 'c:msg', 'c:two~words', 'c:msg:post', 'c::post', 'c:%s' % ('x' * 60)]))
            elif z < 0.76:
                ops.append('s')
            elif z < 0.84:
                ops.append('e')
            elif z < 0.88:
                u = rng.choice([now, t0, rng.randint(t0, now)])
                ops.append('x:%d:%d' % (u // 10 ** 6, u % 10 ** 6))
            elif z < 0.95:
                ops.append('O:%d' % rng.choice([1, 2]))
            else:
                ops.append('D')
        ops += ['c', 'e']
        scn['t%d' % i] = dict(what='timer', t0=t0, out=rng.choice([0, 1]), ops=';'.join(ops))
    exe = vf.drivers(['obj_driver'])['obj_driver']
    traces = []
    for i, (l, r) in go(exe, scn).items():
        s = scn[i]
        t = dict(id=i, what='timer', end=r['end'], t0=str(s['t0']), out=s['out'], ops=[], log=[], line=l)
        if r['end'] == 'ok':
            for o, g in zip(s['ops'].split(';'), r['log']):
                w = o.split(':')
                op = dict(op=w[0], us='0', k=0, at='0')
                if w[0] == 'a':
                    op['us'] = w[1]
                if w[0] == 'O':
                    op['k'] = int(w[1])
                if w[0] == 'x':
                    op['at'] = str(int(w[1]) * 10 ** 6 + int(w[2]))
                t['ops'].append(op)
                txt = ' '.join(g['o1'] + g['o2'])
                parts = [x.replace('~', ' ') for x in w[1:] if x] if w[0] == 'c' else []
                import re
                nums = re.findall(r'(?<![\w.])[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', txt)
                unit = lambda u: re.findall(r'(?<![\w.])([-+]?\d+\.?\d*(?:[eE][-+]?\d+)?) *%s\b' % u, txt)
                where = [txt.find(p) for p in parts]
                k = txt.find(' elapsed')
                t['log'].append(dict(millis=unit('ms'), secs=unit('s'),
                                     order=len(parts) < 2 or 0 <= where[0] < k < where[1],
                                     ms=g.get('ms', '0'), o1=g['o1'], o2=g['o2'], std=g['std'],
                                     hasmsg=all(p in txt for p in parts), nums=nums))
        traces.append(t)
    vf.validate(rep, 'ApiTrace', traces, 'C22')
    rep.cov['samples'] = [traces[0]['line']]


# ------------------------------------------------------------------ C23
def validation(rep):
    rng = random.Random(vf.SEED * 31 + 23)
    scn = {}

    def shape(fam, nb, nc, nr, nl, at=None, av=1.0, b2=None):
        d = dict(what='shape', fam=fam, nb=nb, nc=nc, nr=nr, ncol=nl)
        if at and at[0] < nr and at[1] < nl:
            d.update(ai=at[0], aj=at[1], av=av)
        if b2 is not None:
            d['b2'] = b2
        scn['s%d' % len(scn)] = d
    for fam in ('erk', 'irk'):
        for q in itertools.product(range(4), repeat=4):
            shape(fam, *q)
        for n in (1, 2, 3, 4, 7):
            for i in range(n):
                for j in range(n):
                    for av in ((1.0, -1.0, 1e-3, 1e-14, 1e-300) if n < 4 or T else (rng.choice([1.0, -0.5, 1e-12]),)):
                        shape(fam, n, n, n, n, (i, j), av)
        for n in (5, 6, 9):
            for k in range(4):
                d = [n] * 4
                d[k] += rng.choice([-1, 1])
                shape(fam, *d)
            shape(fam, n, n, n, n)
            shape(fam, n, n, n * n, 1)
            shape(fam, n, n, 1, n * n)
        codes = list(range(-3, 400)) + list(range(400, 1200, 37)) + [10 ** 6, 2147483647, -2147483648]
        for c in codes:
            scn['m%d' % len(scn)] = dict(what='coef', fam=fam, method=c)
        for nn in (0, 1):
            scn['o%d' % len(scn)] = dict(what='opts', fam=fam, newton=nn)
            vary = dict(internal=[0, 1, 7], rtol=[0.0, 1e-9, -1.0], atol=[0.0, 1.0], maxdt=[1.0, -1.0], maxsteps=[0, 10],
                        progress=[1], timeint=[1], adaptive=[0], nmaxit=[0, 1], ntol=[0.0], verbose=[1], extrapolate=[1],
                        usenewton=[0])
            for k, vs in vary.items():
                for v in vs:
                    scn['o%d' % len(scn)] = dict(what='opts', fam=fam, newton=nn, **{k: v})
            for _ in range(60 if T else 20):
                scn['o%d' % len(scn)] = dict(what='opts', fam=fam, newton=nn,
                                             **{k: rng.choice(v) for k, v in vary.items() if rng.random() < 0.5})
    exe = vf.drivers(['coef_driver'])['coef_driver']
    res = go(exe, scn)
    qs, bad = [], []
    for i, (l, r) in res.items():
        s = scn[i]
        if r['end'] != 'ok':
            bad.append(dict(id=i, what='valid', end=r['end'], q=[], line=l))
            continue
        o = dict(kind=dict(shape='shape', coef='method', opts='opts')[s['what']], fam=s['fam'], nb=s.get('nb', 0),
                 nc=s.get('nc', 0), nr=s.get('nr', 0), ncol=s.get('ncol', 0), ai=s.get('ai', 0), aj=s.get('aj', 0),
                 nonzero='ai' in s, code=s.get('method', 0), newton=bool(s.get('newton', 0)), valid=r['valid'])
        qs.append((o, l))
    traces = [dict(id='v%d' % k, what='valid', end='ok', q=[o for o, _ in qs[k:k + 60]], line=qs[k][1])
              for k in range(0, len(qs), 60)] + bad
    vf.validate(rep, 'ApiTrace', traces, 'C23')
    rep.cov['calls'] = len(qs)
    rep.cov['samples'] = [qs[0][1], qs[-1][1]]


def check(prop):
    rep = vf.Report(prop)
    f = dict(C10=cyclic, C11=merge, C12=registry, C20=expansion, C22=timer, C23=validation)
    if prop in f:
        f[prop](rep)
    else:
        coefficients(rep, prop)
    return rep.finish()
