"""All views of a document agree (specs/TreeTrace.tla: ChkViews)."""
from vf import tree, views
from vf.tree import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def MC(tier):
    return tree.mc(tier)


ALL = ['index', 'picks', 'lens', 'flat', 'kids', 'dump', 'listing', 'xml', 'sub']


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    ex = exported['tree']
    m = 2500 if tier == 'quick' else 25000

    def order():
        return rng.choice([None, rng.sample(ALL, len(ALL))])
    for x in rng.sample(ex, min(m, len(ex))):
        cs.append(dict(kind='model', sc=1, d=x['d'], hdr=1, s=0, depths=[None, rng.randint(1, 3)], order=order(), opts=views.options(rng)))
    for _ in range(1500 if tier == 'quick' else 30000):
        k = rng.randint(1, len(ss))
        b = tree.render(tree.rand_doc(rng, ss[k - 1], p_unk=rng.choice([0, 0.3]), budget=rng.choice([4, 10, 30]), xml=True,
                                      big=rng.choice([0, 0, 0.02])))
        s = rng.choice([0, 0, 0, 5])
        cs.append(dict(kind='random', sc=k, d=[0] * s + list(b), hdr=rng.randint(0, 1), s=s,
                       depths=[None, -1, rng.randint(1, 6)], order=order(), opts=views.options(rng)))
    for _ in range(24 if tier == 'quick' else 300):
        k = rng.randint(1, len(ss))
        b = tree.render(tree.big_doc(rng, ss[k - 1], depths=(16, 17, 33, 34, 48)))
        cs.append(dict(kind='big', sc=k, d=list(b), hdr=1, s=0, depths=[None, rng.choice([15, 16, 31, 32, 33, 64])], order=order(), opts=views.options(rng)))
    return cs


def observe(c):
    b = bytes(c['d'])
    return [tree.doc_event(c['sc'], b, c['s']), views.observe(c['sc'], b, c['hdr'], c['depths'], c['order'], c['s'], opts=c.get('opts'))]
