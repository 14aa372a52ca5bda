"""What schema definitions mean (specs/SchemaDef.tla, SchemaMC.tla, SchemaTrace.tla)."""
import glob
import os
import random

from vf import schemadef, tree
from vf.schemadef import TRACE  # noqa: F401


def MC(tier):
    q = tier == 'quick'
    return [dict(module='SchemaMC', cfg='SchemaMC.cfg', name='defs', env=dict(STEPS='2', EXPORT='1'), export=True, workers=3, timeout=1500),
            dict(module='SchemaMC', cfg='SchemaView.cfg', name='deep', env=dict(STEPS='2' if q else '3', EXPORT='0'), workers=3, timeout=3000)]


HOW = ['parse', 'parse', 'file', 'class', 'stream', 'string', 'bytes']


def cases(tier, rng, exported):
    cs = []
    q = tier == 'quick'
    ex = exported['defs']
    for items in rng.sample(ex, min(6000 if q else 30000, len(ex))):
        cs.append(dict(kind='model', items=items, how=rng.choice(HOW), arg=rng.choice(['', '', 'My name'])))
    for _ in range(4000 if q else 60000):
        cs.append(dict(kind='random', seed=rng.randrange(1 << 30), n=rng.randint(1, 12), old=int(rng.random() < 0.2), how=rng.choice(HOW),
                       arg=rng.choice(['', '', 'My name', 'x']), fn=rng.choice(['schema.xml', 'a.b.xml', 'plain', 'X Y.xml', '.hidden'])))
    for _ in range(1500 if q else 20000):
        cs.append(dict(kind='equal', seed=rng.randrange(1 << 30), n=rng.randint(1, 6)))
    for f in sorted(glob.glob(os.path.join(tree.REPO, 'ebmlite', 'schemata', '*.xml'))):
        cs.append(dict(kind='shipped', file=f))
    return cs


def observe(c):
    if c['kind'] == 'model':
        return [schemadef.event(c['items'], how=c['how'], arg=c['arg'])[0]]
    if c['kind'] == 'shipped':
        items, old = schemadef.items_of(c['file'])
        return [schemadef.event(items, bool(old), how=h, fn='base.xml')[0] for h in ('file', 'parse')]
    rng = random.Random(c['seed'])
    if c['kind'] == 'random':
        items = schemadef.rand_items(rng, c['n'], bool(c['old']), bad=0.4)
        return [schemadef.event(items, bool(c['old']), c['how'], c['arg'], c['fn'])[0]]
    a = schemadef.rand_items(rng, c['n'], bad=0.02)
    out = [schemadef.eq_event(a, a)] + [schemadef.eq_event(a, schemadef.variant(rng, a)) for _ in range(3)]
    return [e for e in out if e]
