"""EBML to XML and back (specs/XmlMap.tla, XmlMC.tla, XmlTrace.tla)."""
from vf import tree, xmlmap
from vf.xmlmap import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def MC(tier):
    q = tier == 'quick'
    return [dict(module='XmlMC', cfg='XmlMC.cfg', name='xml', env=dict(BUDGET='2' if q else '3', EXPORT='0'), workers=3, timeout=2400)] + tree.mc(tier)


OPTS = dict(offsets=1, sizes=1, types=1, ids=1, bin='base64', void='ignore', how='mem', headers=0, out='mem', part=-1)


def cases(tier, rng, exported):
    q, cs, ss = tier == 'quick', [], tree.descs()
    ex = exported['tree']
    for x in rng.sample(ex, min(600 if q else 20000, len(ex))):
        o = dict(OPTS, offsets=rng.randint(0, 1), sizes=rng.randint(0, 1), types=rng.randint(0, 1), bin=rng.choice(['base64', 'hex']),
                 how=rng.choice(['mem', 'stream']))
        cs.append(dict(docs=[dict(sc=1, b=x['d'], o=o, seed=rng.randrange(1 << 30))]))
    for _ in range(1800 if q else 40000):
        docs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randint(1, len(ss))
            docs.append(xmlmap.rand_rt(rng, k, ss[k - 1]))
        if len(docs) > 1 and rng.random() < 0.5:        # and the first one once more
            docs.append(dict(docs[0]))
        cs.append(dict(docs=docs))
    for k, b in tree.samples(6000 if q else 40000):
        b = tree.top_cut(b)
        for o in (OPTS, dict(OPTS, sizes=0, offsets=0, how='file', bin='hex')):
            cs.append(dict(docs=[dict(sc=k, b=list(b), o=o, seed=1)]))
    return cs


def observe(c):
    later = xmlmap.Later([d['sc'] for d in c['docs']])
    ev = [xmlmap.rt(d) for d in c['docs']]
    return ev + [later.event()]
