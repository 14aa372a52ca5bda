"""A document cut at any byte (specs/TreeTrace.tla: CutOk; specs/TreeMC.tla: Prefix)."""
from vf import tree
from vf.tree import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier)


def MC(tier):
    return tree.mc(tier)


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    ex = exported['tree']
    m = 2500 if tier == 'quick' else 25000
    for x in rng.sample(ex, min(m, len(ex))):
        cs.append(dict(kind='model', sc=1, d=x['d'], s=0, mode='plain', io='bytesio'))
    for _ in range(500 if tier == 'quick' else 10000):
        k = rng.randint(1, len(ss))
        b = tree.render(tree.rand_doc(rng, ss[k - 1], p_unk=rng.choice([0, 0.2, 0.6]), budget=rng.choice([3, 6, 10]),
                                      wide=rng.choice([0, 0.3, 1]), big=rng.choice([0, 0, 0, 0.03])))
        st = rng.choice([0, 0, 0, 4])
        cs.append(dict(kind='random', sc=k, d=[1] * st + list(b), s=st, mode=rng.choice(['plain', 'siblings', 'late', 'len']),
                       io=rng.choice(['bytesio', 'bytesio', 'shim', 'file'])))
    for _ in range(12 if tier == 'quick' else 150):
        k = rng.choice([1, rng.randint(1, len(ss))])
        t = tree.unknown_doc(rng, ss[k - 1]) if rng.random() < 0.5 else tree.big_doc(rng, ss[k - 1], wide=False, depths=(8, 16, 33))
        cs.append(dict(kind='deep', sc=k, d=list(tree.render(t)), s=0, mode=rng.choice(['plain', 'siblings', 'late', 'len']), io='bytesio'))
    for n, b in tree.samples(6000):
        b = tree.top_cut(b)
        if b:
            cs.append(dict(kind='sample', sc=n, d=list(b), s=0, mode='plain', io='file'))
    return cs


def observe(c):
    b, s = bytes(c['d']), c['s']
    cuts = range(s, len(b) + 1)
    if len(cuts) > 120:
        cuts = list(cuts)[::len(cuts) // 120 + 1] + [len(b)]
    ev = []
    for k in cuts:
        nodes = tree.walk(tree.load(c['sc'], b[:k], s, 1, c['io']), c['mode'])
        ev.append(dict(cut=k, nodes=nodes))
    return [tree.doc_event(c['sc'], b, s), dict(op='cuts', mode=c['mode'], io=c['io'], cuts=ev)]
