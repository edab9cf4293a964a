"""C21: results are a function of the problem and the numerical options (Purity*.tla)."""
import os, random, tempfile
from concurrent.futures import ThreadPoolExecutor
import vf
import rk, c_ms, c_newton, c_rk

T = vf.TIER == 'thorough'
KEYS = sorted(set(rk.KEYS + c_ms.KEYS + c_newton.KEYS + ['what', 'method', 'order', 'maxstep', 'precond', 'limit']))


def pool(rng, n):
    """concrete calls, by kind"""
    p = {}

    def add(kind, s, what):
        s = {k: v for k, v in s.items() if k in KEYS and k not in ('quiet', 'dirty', 'lambda', 'timeint', 'toggles', 'progress')}
        s.update(what=what, budget=60000)
        p.setdefault(kind, []).append(s)
    for fam in ('erk', 'irk'):
        for m in (rk.ERK if fam == 'erk' else rk.IRK):
            for a in (True, False):
                for _ in range(n):
                    s = rk.scenario(rng, fam, method=m, adaptive=a, maxpts=14)
                    if rng.random() < 0.25:
                        s['faults'] = 'f:n:%d:%d:0:-1:%s' % ((lambda x: (x, x + rng.choice([0, 1, 100000])))(rng.randint(2, 60)) +
                                                           (rng.choice('nim'),))
                    if rng.random() < 0.3:
                        s['oint'] = rng.choice([2, 3])
                    add('%s%d' % (fam, m), s, fam)
    for what in ('ab', 'bdf'):
        for _ in range(6 * n):
            s = c_ms.scenario(rng, what)
            s.pop('faults', None)
            add(what, s, what)
    for what in ('newton', 'broyden'):
        for _ in range(6 * n):
            add(what, c_newton.scenario(rng, what), what)
    for _ in range(6):
        s = c_newton.scenario(rng, 'newton')
        s['h'] = 10.0 ** -rng.randint(3, 7)
        add('jacobian', s, 'jacobian')
        add('merge', dict(y0=[rng.uniform(0, 9) for _ in range(rng.randint(2, 9))]), 'merge')
    for m in rk.ERK + rk.IRK + [0, 7, 199, 221, 300]:
        add('coef', dict(method=m), 'coef')
    for m in [210, 211, 212, 213, 232] * 2:
        add('proj', dict(method=m, y0=[round(rng.uniform(0, 1), 3) for _ in range(8)]), 'proj')
    for k in range(6):
        add('expand', dict(method=k, y0=[x / (k + 2.0) for x in range(1, k + 3)]), 'expand')
    return p


def variant(rng, what):
    v = ''
    if what in ('erk', 'irk'):
        v = rng.choice(['', '', 'o', 's', 'x']) + rng.choice(['', 'P', 'Q']) + rng.choice(['', 'T'])
        if what == 'irk' and rng.random() < 0.2:
            v += 'N'
    elif what in ('newton', 'broyden'):
        v = rng.choice(['', 'P']) + rng.choice(['', 'T'])
    return v


def check(prop):
    rep = vf.Report(prop)
    rng = random.Random(vf.SEED * 1177 + 21)
    vf.model(rep, 'MCPurity', cfg='MCPurity_own.cfg')
    for leak in ('static', 'thread'):   # the property tells these apart
        r = vf.tlc('MCPurity', cfg='MCPurity_%s.cfg' % leak)
        if not r.invariant:
            raise vf.CheckError('Purity does not notice memory kept ' + leak)
    r = vf.tlc('PurityGen', workers=1, extra=('-simulate', 'num=%d' % (400 if T else 90), '-depth', '60', '-seed', str(vf.SEED)))
    gen = [l.strip('"').split('|')[1:] for l in r.prints]
    if len(gen) < 40:
        raise vf.CheckError('no behaviours generated: ' + r.out[-800:])
    p = pool(rng, 4 if T else 2)
    jobs, of = {}, {}
    for kind, l in p.items():
        for k, s in enumerate(l):
            jobs['%s_%d' % (kind, k)] = s
            of.setdefault(kind, []).append('%s_%d' % (kind, k))
    kinds = sorted(of)
    fams = {'erk': [k for k in kinds if k.startswith('erk')], 'irk': [k for k in kinds if k.startswith('irk')],
            'ms': ['ab', 'bdf'], 'root': ['newton', 'broyden', 'jacobian'], 'all': kinds}

    def choose(n):
        """n calls that are likely to share what they should not"""
        z = rng.random()
        if z < 0.35:
            ks = [rng.choice(kinds)]
        elif z < 0.75:
            ks = fams[rng.choice(['erk', 'irk', 'irk', 'ms', 'root'])]
        else:
            ks = kinds
        return [rng.choice(of[rng.choice(ks)]) for _ in range(n)]

    def var(j):
        v = variant(rng, jobs[j]['what'])
        return j + (':' + v if v else '')
    hist = {}
    for k, g in enumerate(gen):
        c = choose(6)
        th = [','.join(var(c[int(x) - 1]) for x in t.split(',')) for t in g[:3] if t]
        idx = [i for i, t in enumerate(g[:3]) if t]
        sched = [str(idx.index(int(x))) for x in g[3].split(',') if int(x) in idx]
        if len(th) < 2 or not sched:
            continue
        hist['t%d' % k] = dict(threads=';'.join(th), sched=','.join(sched))
    for k in range(200 if T else 40):      # one after another
        c = choose(rng.choice([2, 3, 6]))
        seq = [var(rng.choice(c)) for _ in range(12)]
        hist['s%d' % k] = dict(threads=','.join(seq), scribble=rng.choice([0, 85, 255, 127]), mute=int(rng.random() < 0.2))
    for k in range(120 if T else 24):      # at the same time
        c = choose(8)
        th = [','.join(var(rng.choice(c)) for _ in range(10)) for _ in range(6)]
        hist['f%d' % k] = dict(threads=';'.join(th))
    fine = {}
    for k in range(160 if T else 40):      # interleaved at function entries
        c = choose(rng.choice([2, 3, 5]))
        th = [','.join(var(rng.choice(c)) for _ in range(rng.choice([1, 2, 4]))) for _ in range(rng.choice([2, 3]))]
        fine['g%d' % k] = dict(threads=';'.join(th), fine=rng.choice([7, 40, 300, 2500]), fseed=rng.randint(1, 10**6))
    few = [j for k in ('coef', 'expand', 'proj', 'proj', 'newton', 'broyden', 'jacobian', 'merge') for j in of[k]]
    for k in range(100 if T else 25):      # short calls, at almost every one
        th = [','.join(rng.choice(few) for _ in range(3)) for _ in range(3)]
        fine['h%d' % k] = dict(threads=';'.join(th), fine=rng.choice([2, 5, 20]), fseed=rng.randint(1, 10**6))
    for k in range(60 if T else 15):       # so short that only every entry will do
        th = [','.join(rng.choice(of['proj'] + of['expand']) for _ in range(3)) for _ in range(3)]
        fine['p%d' % k] = dict(threads=';'.join(th), fine=rng.choice([1, 2, 4]), fseed=rng.randint(1, 10**6))
    shared = {}
    for k in range(96 if T else 16):       # at the same time, watching the memory they use
        c = [rng.choice(of[rng.choice(kinds)])] * 2 if rng.random() < 0.2 else choose(rng.choice([1, 2, 4]))
        if k < len(kinds) // 4:            # every kind of call against itself
            c = [j for q in kinds[4 * k:4 * k + 4] for j in of[q][:2]]
        th = [','.join(rng.sample([var(j) for j in c], len(c)) + [var(rng.choice(c)) for _ in range(4)]) for _ in range(4)]
        shared['r%d' % k] = dict(threads=';'.join(th), collect=1, mute=1)
    for h in list(hist.values()) + list(fine.values()) + list(shared.values()):
        h['cpu'], h['wall'] = 120, 120
    with tempfile.NamedTemporaryFile('w', prefix='vf-', suffix='.jobs', delete=False) as f:
        for j, s in jobs.items():
            f.write(vf.kvline(j, {k: v for k, v in s.items() if v is not None and v != []}) + '\n')
    try:
        with ThreadPoolExecutor(4) as ex:
            fut = {tag: ex.submit(vf.drivers, ['det_driver'], defs=defs)
                   for tag, defs in (('', ()), ('ndebug', ('-DNDEBUG',)), ('fine', vf.FINE), ('tsan', ('-fsanitize=thread', '-g1')))}
            exe = {tag: f.result()['det_driver'] for tag, f in fut.items()}
        env = dict(DET_JOBS=f.name)
        base = vf.drive(exe[''], [vf.kvline('b' + j, dict(threads=j)) for j in jobs], env=env)
        runs = {}
        lines = {i: vf.kvline(i, h) for i, h in hist.items()}
        runs[''] = vf.drive(exe[''], lines.values(), env=dict(env, MALLOC_PERTURB_='165'))
        lines.update({i: vf.kvline(i, h) for i, h in fine.items()})
        runs['fine'] = vf.drive(exe['fine'], [lines[i] for i in fine], env=env)
        tenv = dict(env, TSAN_OPTIONS='exitcode=0 log_path=/dev/null report_signal_unsafe=0 history_size=4')
        rs = vf.drive(exe['tsan'], [vf.kvline('z', dict(threads='selftest'))], env=tenv)
        watched = rs['z'].get('n', 0) > 0
        if watched:
            lines.update({i: vf.kvline(i, h) for i, h in shared.items()})
            rs = vf.drive(exe['tsan'], [lines[i] for i in shared], env=tenv)
            runs['tsan'] = {i: r for i, r in rs.items() if r['end'] == 'ok'}
        lines2 = {'n' + j: vf.kvline('n' + j, dict(threads=var(j))) for j in jobs}
        for i in list(hist)[::6]:
            lines2['n' + i] = vf.kvline('n' + i, hist[i])
        runs['ndebug'] = vf.drive(exe['ndebug'], lines2.values(), env=dict(env, MALLOC_PERTURB_='90'))
    finally:
        os.unlink(f.name)
    traces = []
    for tag, rs in runs.items():
        for i, r in rs.items():
            if tag == 'tsan':     # (the results are those of another compiler setting)
                traces.append(dict(id=i, end=r['end'], ev=[], races=r['races'], line=lines[i]))
                continue
            used = [x.split(':')[0] for t in (lines.get(i) or lines2[i]).split(' threads=')[1].split(' ')[0].split(';')
                    for x in t.split(',')]
            ev = []
            for j in sorted(set(used)):
                b = base['b' + j]
                if b['end'] != 'ok':      # the call alone does not return
                    ev.append(dict(job=j, var='', end=b['end'], sum='', traj='', file=''))
                else:
                    ev += b['ev']
            traces.append(dict(id=i, end=r['end'], ev=ev + r.get('ev', []), races=[], line=lines.get(i) or lines2[i]))
    vf.validate(rep, 'PurityTrace', traces, prop)
    rep.cov['calls'] = sum(len(t['ev']) for t in traces)
    rep.cov['jobs'] = len(jobs)
    rep.cov['sessions'] = dict(interleaved=sum(i[0] == 't' for i in hist), sequential=sum(i[0] == 's' for i in hist),
                               concurrent=sum(i[0] == 'f' for i in hist), interleaved_at_function_entries=len(fine),
                               without_assertions=len(lines2), with_memory_watched=len(runs.get('tsan', ())))
    rep.cov['samples'] = [traces[0]['line'], traces[-1]['line']]
    return rep.finish()
