"""C25-C27: defaults, printed forms, adapters (InterfaceTrace.tla)."""
import random
import re
import vf
import rk
from c_obj import IRKC, go, H

T = vf.TIER == 'thorough'
NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)'


def tok(w):
    return rk.token(w.replace('inf', 'Infinity'))


def shot(s):
    """keys of a Runge-Kutta scenario for the driver"""
    return {k: s[k] for k in rk.KEYS if k in s and s[k] is not None and s[k] != []}


# ------------------------------------------------------------------ C25
def defaults():
    rng = random.Random(vf.SEED * 31 + 25)
    scn = {}
    for of in ('erk', 'erk2', 'irk', 'irk2', 'newton', 'output', 'status', 'erkout', 'irkout'):
        scn['d' + of] = dict(what='defaults', of=of)
    for k in range(200 if T else 48):
        fam = 'ei'[k % 2]
        call = fam + str((k // 2) % 3)
        long = {'erk': 'erk', 'irk': 'irk'}[fam + 'rk']
        s = rk.scenario(rng, long, adaptive=call[1] == '0' or None,
                        kinds=['decay', 'osc', 'logistic', 'lv', 'time', 'lin4'] + (['stiff', 'robertson'] if fam == 'i' else []))
        d = shot(s)
        for x in ('ntol', 'ndx', 'nmaxit', 'nrefresh', 'fam', 'method', 'dt'):
            d.pop(x, None)
        if not s['adaptive'] or call[1] == '2' and s['method'] not in rk.ERK_ADAPT + rk.IRK_ADAPT:     # one million steps per unit of time
            d['t1'] = s['t0'] + rng.uniform(3, 60) * 1e-6
        if call[1] == '2':
            d['method'] = s['method']
        d.update(what='pair', call=call)
        scn['p%d' % k] = d
    from c_newton import system
    for k in range(120 if T else 40):
        p, x0 = system(rng, rng.choice(['lin', 'quad', 'sqrt', 'double', 'far', 'swap']))
        d = {x: p[x] for x in ('n', 'c', 'd', 'L', 'Q') if p[x] != []}
        scn['n%d' % k] = dict(d, what='pair', call='nb'[k % 2], y0=x0, t0=0.0, budget=100000)
    return scn


# ------------------------------------------------------------------ C26
def prints():
    rng = random.Random(vf.SEED * 31 + 26)
    scn = {}

    def put(**d):
        scn['q%d' % len(scn)] = dict(d, what='print')

    def num():
        return rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-1, 1), rng.uniform(-1000, 1000), 10 ** rng.uniform(-12, 12),
                           -10 ** rng.uniform(-12, 12), 1 / 3, -2 / 3, 123456.7, 1e-7])
    for m in IRKC:
        put(kind='coeffs', method=m)
    for k in range(400 if T else 120):
        n = rng.choice([1, 1, 2, 3, 4, 5, 7])
        d = dict(kind='coeffs', name=rng.choice(['X', 'MY_METHOD', 'RADAU_IIA_53', 'a-b', 'y' * 40]), b=[num() for _ in range(n)],
                 cc=[num() for _ in range(n)], A=[num() for _ in range(n * n)])
        if rng.random() < 0.6:
            d['b2'] = [num() for _ in range(n)]
        put(**d)
    for k in range(400 if T else 120):
        n = rng.choice([0, 1, 2, 3, 5, 9])
        l = [[rng.randint(-12, 99) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))] for _ in range(n)]
        if l == [[]]:
            l = [[1]]
        put(kind='list', list='_'.join('.'.join(map(str, e)) for e in l) if l else '-', value=l)
    for k in range(400 if T else 120):
        sc = 10 ** rng.uniform(-3, 5)
        parts = [rng.choice([0.0, rng.random(), rng.random()]) * sc for _ in range(6)]
        if k % 12 == 0:
            parts = [0.0] * 6
        put(kind='timing', parts=parts, name=rng.choice(['X', 'RADAU_IIA_53', 'LOBATTO_IIIC_85']))
    for c in list(range(-2, 8)) + [100, 128, -1000000]:
        put(kind='status', code=c)
    return scn


def parse_print(s, p):
    text = p['text']
    o = dict(kind=s['kind'])
    if s['kind'] == 'coeffs':
        o.update({k: p[k] for k in ('name', 'A', 'b', 'c', 'b2')})
        o['head'] = text[0].strip() if text else ''
        o['rows'], o['other'] = [], 0
        for l in text[1:]:
            if '|' in l:
                a, b = l.split('|', 1)
                o['rows'].append(dict(l=[tok(x) for x in a.split()], r=[tok(x) for x in b.split()]))
            elif l.strip('-+ ='):
                o['other'] += 1
    elif s['kind'] == 'list':
        o['list'], o['back'], o['ok'] = s['value'], [], True
        stack = None
        depth = 0
        for w in re.findall(r'[{}]|-?\d+|[^\s,]', ' '.join(text)):
            if w == '{':
                depth += 1
                if depth == 2:
                    stack = []
            elif w == '}':
                if depth == 2:
                    o['back'].append(stack)
                    stack = None
                depth -= 1
            elif stack is not None and re.fullmatch(r'-?\d+', w):
                stack.append(int(w))
            else:
                o['ok'] = False
        o['ok'] = o['ok'] and depth == 0
    elif s['kind'] == 'timing':
        o['parts'] = [H(x) for x in s['parts']]
        o['heads'], o['unit'], o['rows'] = 0, '', []
        for l in text:
            m = re.search(r'\(\s*(\w+)\s*\|\s*%\s*\)', l)
            if m:
                o['heads'] += s['name'] in l
                o['unit'] = m[1]
                continue
            m = re.search(r'(%s)\s*\|\s*(%s)\s*%%?\s*$' % (NUM, NUM.replace('nan', '-?nan')), l)
            if m:
                o['rows'].append(dict(v=tok(m[1]), p=tok(m[2])))
    else:
        o.update(code=s['code'], text=' '.join(text).strip())
    return o


# ------------------------------------------------------------------ C27
def adapters():
    rng = random.Random(vf.SEED * 31 + 27)
    scn = {}
    for k in range(300 if T else 80):
        p, y0, _ = rk.problem(rng, False)
        n = p['n']
        ops = []
        ts = [0.0, rng.uniform(-9, 9), rng.uniform(-9, 9)]
        y, kinds = [rng.uniform(-3, 3) for _ in range(n)], rng.choice(['cnfjFJ', 'fj', 'FJ', 'cn', 'ffJ', 'jjF'])
        for _ in range(rng.randint(6, 20)):
            # related points: the same, one component changed, permuted, negated
            w, y, j = rng.random(), list(y), rng.randrange(n)
            if w < 0.25: y[j] = rng.uniform(-3, 3)
            elif w < 0.35: rng.shuffle(y)
            elif w < 0.45: y = y[1:] + y[:1]
            elif w < 0.6: y[j] = -y[j]
            elif w < 0.65: y = [-v for v in y]
            elif w < 0.7: y[j] += 1e-9
            elif w < 0.85: y = [rng.uniform(-3, 3) for _ in range(n)]
            ops.append('%s:%s:%s' % (rng.choice(kinds), H(rng.choice(ts)), '_'.join(map(H, y))))
            if rng.random() < 0.3:       # the matrix passed has another size before
                ops[-1] += ':%d:%d' % rng.choice([(0, 0), (0, 0), (n + 1, n + 1), (1, n), (n, 1), (2, 3), (n * n, 1)])
        d = {x: p[x] for x in ('n', 'c', 'd', 'L', 'Q') if p[x] != []}
        scn['a%d' % k] = dict(d, what='adapt', ops=';'.join(ops))
    for k in range(96 if T else 36):
        s = rk.scenario(rng, ('erk', 'irk')[k % 2])
        d = shot(s)
        d.update(what='through', fam=s['fam'])
        d['maxsteps'] = 30
        scn['t%d' % k] = d
    return scn


def check(prop):
    rep = vf.Report(prop)
    scn = dict(C25=defaults, C26=prints, C27=adapters)[prop]()
    exe = vf.drivers(['api_driver'])['api_driver']
    traces = []
    for i, (l, r) in go(exe, {i: {k: v for k, v in d.items() if k != 'value'} for i, d in scn.items()}).items():
        s = scn[i]
        t = dict(r, id=i, what=s['what'], line=l)
        if r['end'] == 'ok' and s['what'] == 'print':
            t['p'] = parse_print(s, r['p'])
        traces.append(t)
    vf.validate(rep, 'InterfaceTrace', traces, prop)
    rep.cov['samples'] = [t['line'][:300] for t in traces[:2] + traces[-2:]]
    return rep.finish()
