"""The search path, and listings (specs/Registry.tla, RegistryMC.tla, RegistryTrace.tla)."""
import random

from vf import registry, tree
from vf.registry import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, n=1)


def MC(tier):
    q = tier == 'quick'
    return [dict(module='RegistryMC', cfg='RegistryMC.cfg', name='hist', env=dict(STEPS='3', EXPORT='1'), export=True, workers=3, timeout=1500),
            dict(module='RegistryMC', cfg='RegistryView.cfg', name='deep', env=dict(STEPS='4' if q else '6', EXPORT='0'), workers=3, timeout=3000)]


def cases(tier, rng, exported):
    q = tier == 'quick'
    ex = [h for h in exported['hist'] if any(e['op'] == 'load' and e['bare'] for e in h)]
    cs = [dict(kind='model', hist=h) for h in rng.sample(ex, min(1500 if q else 20000, len(ex)))]
    for _ in range(1500 if q else 20000):
        cs.append(dict(kind='random', seed=rng.randrange(1 << 30), n=rng.choice([4, 8, 16])))
    for _ in range(24 if q else 300):
        cs.append(dict(kind='start', seed=rng.randrange(1 << 30), n=rng.choice([4, 8])))
    return cs


def observe(c):
    if c['kind'] == 'model':
        return registry.replay(c['hist'])
    if c['kind'] == 'start':
        return registry.starting(random.Random(c['seed']), c['n'])
    return registry.searching(random.Random(c['seed']), c['n'])
