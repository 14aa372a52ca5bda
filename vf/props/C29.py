"""Equality (specs/Equal.tla, EqualMC.tla, EqualTrace.tla)."""
from vf import equal, tree
from vf.equal import TRACE, setup  # noqa: F401


def MC(tier):
    return [dict(module='EqualMC', cfg='EqualMC.cfg', name='edits', env=dict(STEPS='1' if tier == 'quick' else '3', EXPORT='1'), export=True, workers=3, timeout=1500)]


def cases(tier, rng, exported):
    q, n = tier == 'quick', len(tree.descs())
    ex = exported['edits']
    cs = [dict(kind='model', doc=x['doc'], d=x['d'], sc=x['sc'], most=100, seed=rng.randrange(1 << 30))
          for x in rng.sample(ex, min(len(ex), 1500 if q else 20000))]
    plain = [k + 1 for k, s in enumerate(tree.descs()) if 'of' not in s]
    for _ in range(2000 if q else 60000):
        cs.append(dict(kind='random', sc=rng.choice(plain), most=120, seed=rng.randrange(1 << 30)))
    return cs


def observe(c):
    return (equal.model if c['kind'] == 'model' else equal.history)(c)
