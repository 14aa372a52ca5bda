"""Laziness: the bytes each access reads (specs/Access.tla: the `may' sets)."""
import random

from vf import access, tree
from vf.access import TRACE  # noqa: F401
from vf.props.C11 import setup  # noqa: F401


def MC(tier):
    n = '3' if tier == 'quick' else '4'
    return [dict(module='AccessMC', cfg='AccessMC.cfg', name='hist', env=dict(STEPS=n, MAXOBJ='7', EXPORT='1'), export=True, workers=3, timeout=1500)]


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    ex = exported['hist']
    for x in rng.sample(ex, min(2000 if tier == 'quick' else 30000, len(ex))):
        cs.append(dict(kind='model', doc=x['doc'], ops=x['ops'], io=rng.choice(['shim', 'bytesio', 'file'])))
    for _ in range(3000 if tier == 'quick' else 50000):
        k = rng.randint(1, len(ss))
        cs.append(dict(kind=rng.choice(['random', 'walk', 'walk']), sc=k, seed=rng.randrange(1 << 30), n=rng.choice([4, 8, 20]), hdr=rng.randint(0, 1),
                       s=rng.choice([0, 0, 3]), io=rng.choice(['shim', 'shim', 'bytesio', 'file'])))
    return cs


def observe(c):
    s = access.Session(None)
    if c['kind'] == 'model':
        d = access.docs()[c['doc'] - 1]
        s.open(s.src(d['d'], c['io']), d['sc'], d['s'], d['hdr'])
        for e in c['ops']:
            if s.do(e)['failed']:
                break
        return s.finish()
    rng = random.Random(c['seed'])
    sc = tree.descs()[c['sc'] - 1]
    t = tree.rand_doc(rng, sc, budget=rng.choice([4, 8, 14]), p_unk=rng.choice([0, 0.3]), big=rng.choice([0, 0, 0.02]))
    s.open(s.src([9] * c['s'] + list(tree.render(t)), c['io']), c['sc'], c['s'], c['hdr'])
    if c['kind'] == 'walk':                  # walk the structure (all of it, or the top level), then ask for single values
        s.do(dict(op='iter', o=1, flat=rng.randint(0, 1)))
        while True:
            e = s.do(dict(op='next', it=1))
            if e['failed'] or not e['r']:
                break
        for _ in range(c['n']):
            o = rng.randint(1, len(s.objs))
            if o > 1 and s.do(rng.choice([dict(op='value', o=o), dict(op='raw', o=o, hd=rng.randint(0, 1)), dict(op='size', o=o)]))['failed']:
                break
        return s.finish()
    for _ in range(c['n']):
        if s.do(s.random_op(rng))['failed']:
            break
    return s.finish()
