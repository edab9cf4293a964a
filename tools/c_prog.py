"""C29: the stability region program (StabilityTrace.tla)."""
import os
import random
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import vf
import rk
from c_obj import go

T = vf.TIER == 'thorough'


def tok(w):
    return rk.token(w.replace('inf', 'Infinity'))


def numbers(path):
    """[(block, line in the block, fields)] of the rows with numbers"""
    rows, b, l = [], 0, 0
    try:
        f = open(path)
    except OSError:
        return []
    with f:
        for line in f:
            w = line.split()
            if not w:
                b, l = b + 1, 0
                continue
            try:
                [float(x) for x in w]
            except ValueError:
                continue
            rows.append((b, l, w))
            l += 1
    return rows


def one(exe, name, seed):
    """Runs the program in a directory of its own."""
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix='vf-stab-')
    try:
        r = subprocess.run([exe, name] if name is not None else [exe], cwd=d, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, env=vf.ENV, timeout=300)
        out, counts = [], []
        for f, suffix in (('region', 'region'), ('embed', 'embedded_region'), ('limit', 'limit')):
            rows = numbers(os.path.join(d, 'stability_%s_%s.dat' % (name, suffix)))
            counts.append(sum(len(x[2]) == 3 for x in rows))
            rows = [x for x in rows if len(x[2]) == 3]
            pick = rows
            if f != 'limit':
                # everywhere, and more of what lies near the origin
                near = [x for x in rows if abs(float(x[2][0])) < 10 and abs(float(x[2][1])) < 10]
                k = 900 if T else 14
                pick = rows[:1] + rows[-1:] + rng.sample(rows, min(k, len(rows))) + rng.sample(near, min(k, len(near)))
            for b, l, w in pick:
                out.append(dict(file=f, w=[b, l], x=tok(w[0]), y=tok(w[1]) if f != 'limit' else '0',
                                v=tok(w[2]) if f != 'limit' else tok(w[1]), e=tok(w[2])))
        return r.returncode, counts, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stability():
    exes = vf.drivers(['stab_driver', 'coef_driver'])
    scn = {'%s%d' % f: dict(what='coef', fam=f[0], method=f[1]) for f in
           [('erk', m) for m in rk.ERK] + [('irk', m) for m in rk.IRK]}
    co = {i: r['k'] for i, (l, r) in go(exes['coef_driver'], scn).items()}
    jobs = [(i, co[i]['name'], True) for i in scn]
    jobs += [('none', None, False), ('unknown', 'NO_SUCH_METHOD', False), ('lower', 'radau_iia_53', False),
             ('prefix', 'RADAU_IIA', False), ('empty', '', False)]
    traces = []
    with ThreadPoolExecutor(vf.JOBS) as ex:
        res = ex.map(lambda k: one(exes['stab_driver'], jobs[k][1], vf.SEED * 1000 + k), range(len(jobs)))
        for (i, name, known), (code, counts, rows) in zip(jobs, res):
            k = co.get(i, dict(b2=[], gamma='0'))
            traces.append(dict(id=i, known=known, fam=scn[i]['fam'] if known else '', method=scn[i]['method'] if known else 0,
                               b2=k['b2'], gamma=k['gamma'], code=code, counts=counts, rows=rows,
                               line='stability_region ' + str(name)))
    return traces


def check(prop):
    rep = vf.Report(prop)
    traces = stability()
    vf.validate(rep, 'StabilityTrace', traces, prop)
    rep.cov['samples'] = [str(dict(t, rows=t['rows'][:2]))[:400] for t in traces[:2] + traces[-2:]]
    return rep.finish()
