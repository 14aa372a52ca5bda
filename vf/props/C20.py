"""XML to EBML (specs/XmlMap.tla, XmlMC.tla, XmlTrace.tla)."""
from vf import tree, xmlmap
from vf.xmlmap import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def MC(tier):
    q = tier == 'quick'
    return [dict(module='XmlMC', cfg='XmlMC.cfg', name='xml', env=dict(BUDGET='3' if q else '4', EXPORT='1'), export=True, workers=6, timeout=2400, heap='4g')]


def cases(tier, rng, exported):
    q, cs, ss = tier == 'quick', [], tree.descs()
    ex = exported['xml']
    for x in rng.sample(ex, min(2500 if q else 40000, len(ex))):
        cs.append(dict(docs=[dict(sc=1, xs=x['xs'], doc=1, o=x['o'], seed=rng.randrange(1 << 30))]))
    for _ in range(2500 if q else 40000):
        docs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randint(1, len(ss))
            docs.append(xmlmap.rand_x2e(rng, k, ss[k - 1]))
        cs.append(dict(docs=docs))
    return cs


def observe(c):
    later = xmlmap.Later([d['sc'] for d in c['docs']])
    ev = [xmlmap.x2e(d) for d in c['docs']]
    return ev + [later.event()]
