"""C32, C33: what integrations say, and the time they report (RunLog.tla)."""
import random
import re
import vf
import rk
import c_ms
import c_rk

T = vf.TIER == 'thorough'
H = vf.hexd
NUM = r'([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))'
REASONS = [('steps', 'Maximum number of attempts exceeded'), ('small', 'step size became too small'),
           ('nonfinite', 'no longer finite'), ('newton', 'failed for constant time step'),
           ('startup', 'Start-up of multistep method failed'), ('bdf', 'Newton iteration failed on BDF'),
           ('order', 'have an order from 1 to 5'), ('order', 'methods over order 6 do not exist'),
           ('order', 'order <= 0 does not make sense')]
ROWS = ['Total time', 'Vector setup', 'Stages update', 'Solution update', 'Store solution', 'Error estimate',
        'Calculate optimal step']


def messages(r):
    """the messages, each with the stream it was written to"""
    o = dict(ann=[], meth=[], red=[], why=[], warn=[], tab=[], rows=[], other=[])
    for w in ('cerr', 'cout'):
        for l in r[w]:
            m = re.search(r'Integrating over interval \[ *%s *, *%s *\]' % (NUM, NUM), l)
            if m:
                o['ann'].append(dict(a=rk.token(m[1]), b=rk.token(m[2]), w=w))
                continue
            m = re.search(r'Method = (\S+)', l)
            if m:
                o['meth'].append(dict(name=m[1], w=w))
                continue
            m = re.search(r'Initial dt \(%s\) too large for interval! Reducing to %s' % (NUM, NUM), l)
            if m:
                o['red'].append(dict(a=rk.token(m[1]), b=rk.token(m[2]), w=w))
                continue
            m = re.search(r'(\S+) done solving, timings \((ms| s) \| %\)', l)
            if m:
                o['tab'].append(dict(name=m[1], unit=m[2].strip(), w=w))
                continue
            k = [i for i, t in enumerate(ROWS) if t + ':' in l]
            m = re.search(r':\s+%s \| %s' % (NUM, NUM), l)
            if k and m:
                o['rows'].append(dict(k=k[0] + 1, v=rk.token(m[1]), p=rk.token(m[2])))
                continue
            if 'Cannot have adaptive time step' in l:
                o['warn'].append(w)
                continue
            y = [n for n, t in REASONS if t in l]
            if y:
                o['why'].append(dict(r=y[0], w=w))
            elif 'Rehuel:' in l and not re.search(r'Rehuel:\s+(step\s+t\s+dt\s+err|\d+ )', l):
                o['other'].append(l[:80])
    return o


def scenarios(prop, rng):
    q = 8 if T else 1
    sc = {}

    def add(pre, s):
        sc['%s%d' % (pre, len(sc))] = s
    for fam in ('erk', 'irk'):
        if prop == 'C32':
            for s in c_rk.special(rng, fam):
                add(fam[0], s)
            for s in c_rk.simple(rng, fam):
                add(fam[0], s)
        for s in c_rk.failing(rng, fam, (96 if prop == 'C32' or fam == 'irk' else 40) * q):
            add(fam[0], s)
        for s in c_rk.cycle(rng, fam, (90 if prop == 'C32' or fam == 'irk' else 40) * q):
            add(fam[0], s)
        for s in c_rk.spikes(rng, fam, 30 * q):
            add(fam[0], s)
        if prop == 'C33':
            for s in c_rk.simple(rng, fam):
                add(fam[0], s)
    for s in sc.values():
        s['what'] = s['fam']
        if s.get('maxsteps', -1) < 0 and not s.get('simple') and rng.random() < 0.4:
            s['maxsteps'] = 3000       # out of reach
        s.pop('expect', None)
        if prop == 'C33':
            s['timeint'] = int(rng.random() < 0.8)
    if prop == 'C32':
        for what in ('ab', 'bdf'):
            for k in range(60 * q):
                add('m', c_ms.scenario(rng, what))
            for k in range(12):
                add('m', c_ms.invalid(rng, what))
    for s in sc.values():
        if prop == 'C33' or rng.random() < 0.5:
            s['clk'] = rng.choice([0, 999999, 10 ** 6, rng.randint(0, 10 ** 9), 1700000000 * 10 ** 6 + rng.randint(0, 10 ** 6)])
            z = rng.random()
            s['clkf'] = 0 if z < 0.2 else rng.choice([1, 7, 150, 999, 1000, 12345, 250000, 3000000])
            s['clkj'] = 0 if z > 0.8 else rng.choice([1, 3, 40, 999, 1000, 54321, 10 ** 6, 7000000])
        if rng.random() < (0.1 if prop == 'C32' else 0.3):
            s['toggles'] = rng.choice(['S', 'N', 'SN', 'NS'])
            if prop == 'C33' and rng.random() < 0.5:    # writing takes time, too
                s['clko'] = rng.choice([1, 20, 999, 50000])
    return sc


def check(prop):
    rep = vf.Report(prop)
    rng = random.Random(vf.SEED * 977 + int(prop[1:]))
    sc = scenarios(prop, rng)
    exe = vf.drivers(['log_driver'])['log_driver']
    keys = rk.KEYS + ['what', 'order', 'clk', 'clkf', 'clkj', 'clko']
    lines = {i: vf.kvline(i, {k: s[k] for k in keys if k in s and s[k] is not None and s[k] != []}) for i, s in sc.items()}
    res = vf.drive(exe, list(lines.values()))
    traces, st = [], {}
    for i, s in sc.items():
        r = dict(res[i])
        m = {}
        if r['end'] == 'ok':
            m = messages(r)
            r['lines'] = len([l for l in r['file'] if l])
            for k in ('cerr', 'cout', 'file'):
                r.pop(k)
            r.setdefault('nrej', 0), r.setdefault('nsucc', 0)
            key = '%s %s %s' % (s['what'], r['status'], '/'.join(x['r'] for x in m['why']))
            st[key] = st.get(key, 0) + 1
        simple = bool(s.get('simple'))
        c = dict(what=s['what'], method=s.get('method', 0), order=s.get('order', 0), t0=H(s['t0']), t1=H(s['t1']),
                 dt=H(s['dt']), maxsteps=s.get('maxsteps', -1), adaptive=bool(s.get('adaptive', True)),
                 timeint=bool(s.get('timeint', 0)) and not simple,
                 maxdt=H(0 if simple or s['what'] in ('ab', 'bdf') else s.get('maxdt', 0)), clkf=str(s.get('clkf', 0)), clkj=str(s.get('clkj', 0)),
                 clko=str(s.get('clko', 0)))
        traces.append(dict(id=i, cfg=c, res=r, msg=m, line=lines[i]))
    random.Random(1).shuffle(traces)
    vf.validate(rep, 'RunLog', traces, prop)
    rep.cov['runs by kind, status and reason'] = st
    rep.cov['samples'] = [t['line'][:300] for t in traces[:3]]
    return rep.finish()
