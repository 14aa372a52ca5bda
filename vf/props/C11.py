"""Access order, repetition and caching (specs/Access.tla, AccessMC.tla, AccessTrace.tla)."""
import random

from vf import access, tree
from vf.access import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return dict(tree.setup_schemas(scratch, rng, tier, pcm=0.15), **access.setup_docs(scratch))


def MC(tier):
    n, deep = ('4', '5') if tier == 'quick' else ('5', '7')
    return [dict(module='AccessMC', cfg='AccessMC.cfg', name='hist', env=dict(STEPS=n, MAXOBJ='7', EXPORT='1'), export=True, workers=3, timeout=1500),
            dict(module='AccessMC', cfg='AccessView.cfg', name='deep', env=dict(STEPS=deep, MAXOBJ='6', EXPORT='0'), workers=3, timeout=1500)]


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    ex = exported['hist']
    m = 6000 if tier == 'quick' else 80000
    for x in rng.sample(ex, min(m, len(ex))):
        cs.append(dict(kind='model', doc=x['doc'], ops=x['ops'], io=rng.choice(['shim', 'bytesio', 'file'])))
    for _ in range(2500 if tier == 'quick' else 40000):
        k = rng.randint(1, len(ss))
        cs.append(dict(kind='random', sc=k, seed=rng.randrange(1 << 30), n=rng.choice([6, 15, 30]), hdr=rng.randint(0, 1),
                       s=rng.choice([0, 0, 3]), io=rng.choice(['shim', 'shim', 'bytesio', 'file']), poke=int(rng.random() < 0.4)))
    for _ in range(1500 if tier == 'quick' else 25000):
        k = rng.randint(1, len(ss))
        b = tree.render(tree.rand_doc(rng, ss[k - 1], p_unk=rng.choice([0, 0.2, 0.6]), budget=rng.choice([3, 6, 12])))
        for m in tree.mutants(rng, b, 1):
            cs.append(dict(kind='damaged', sc=k, d=list(m), n=25, seed=rng.randrange(1 << 30), io=rng.choice(['bytesio', 'shim'])))
    for k in range(10 if tier == 'quick' else 60):
        cs.append(dict(kind='random', sc=rng.randint(1, len(ss)), seed=rng.randrange(1 << 30), n=rng.choice([3, 6]), hdr=rng.randint(0, 1),
                       s=rng.choice([0, 3]), io=rng.choice(['shim', 'bytesio', 'file']), poke=0, huge=1))
    return cs


def observe(c, reads=('value', 'gc')):
    s = access.Session(reads)
    if c['kind'] == 'model':
        d = access.docs()[c['doc'] - 1]
        s.open(s.src(d['d'], c['io']), d['sc'], d['s'], d['hdr'])
        for e in c['ops']:
            if s.do(e)['failed']:
                break
        return s.finish()
    rng = random.Random(c['seed'])
    if c['kind'] == 'damaged':
        return access.damaged(c['sc'], bytes(c['d']), rng, c['n'], c['io'])
    sc = tree.descs()[c['sc'] - 1]
    t = tree.huge_doc(rng, sc) if c.get('huge') else tree.rand_doc(rng, sc, budget=rng.choice([3, 6, 10]), p_unk=rng.choice([0, 0.3]))
    s.open(s.src([9] * c['s'] + list(tree.render(t)), c['io']), c['sc'], c['s'], c['hdr'])
    ps = access.pokes(rng, sc, t, c['s']) if c['poke'] else []
    poked = False
    for _ in range(c['n']):
        if ps and rng.random() < 0.12:
            s.poke(1, *rng.choice(ps))
            poked = True
        if rng.random() < 0.1:               # the position of the stream is nobody's business
            s.srcs[0].seek(rng.randint(0, 20))
        if s.do(s.random_op(rng, dump=not poked))['failed']:
            break
    return s.finish()
