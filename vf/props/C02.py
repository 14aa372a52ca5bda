"""Reported structure tiles the bytes (specs/EbmlTree.tla)."""
from vf import tree
from vf.tree import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def MC(tier):
    return tree.mc(tier)


def cases(tier, rng, exported):
    cs = []
    ss = tree.descs()
    ex = exported['tree']
    for x in rng.sample(ex, min(2000 if tier == 'quick' else 30000, len(ex))):
        cs.append(dict(kind='model', sc=1, d=x['d'], start=0, io=rng.choice(['bytesio', 'file', 'shim']),
                       mode=rng.choice(tree.MODES)))
    for _ in range(24 if tier == 'quick' else 300):
        n = rng.randint(1, len(ss))
        cs.append(dict(kind='big', sc=n, d=list(tree.render(tree.big_doc(rng, ss[n - 1]))), start=0, io='bytesio',
                       mode=rng.choice(tree.MODES)))
    for _ in range(10 if tier == 'quick' else 60):
        n = rng.randint(1, len(ss))
        cs.append(dict(kind='huge', sc=n, d=list(tree.render(tree.huge_doc(rng, ss[n - 1]))), start=0, io=rng.choice(['bytesio', 'file', 'shim']),
                       mode=rng.choice(tree.MODES)))
    for n, b in tree.samples(12000 if tier == 'quick' else 400000):
        b = tree.top_cut(b)
        if b:
            cs.append(dict(kind='sample', sc=n, d=list(b), start=0, io='file', mode='plain'))
    for k in range(1500 if tier == 'quick' else 30000):
        n = rng.randint(1, len(ss))
        t = tree.rand_doc(rng, ss[n - 1], p_unk=rng.choice([0, 0.2, 0.5]), big=rng.choice([0, 0, 0.02]), wide=rng.choice([0, 0.3, 1]),
                          budget=rng.choice([4, 10, 25]))
        b = tree.render(t)
        start = rng.choice([0, 0, 1, 3, 17, 130])
        b = bytes(rng.randint(0, 255) for _ in range(start)) + b
        cs.append(dict(kind='doc', sc=n, d=list(b), start=start, io=rng.choice(['bytesio', 'file', 'shim']),
                       mode=rng.choice(tree.MODES)))
    return cs


def observe(c):
    b = bytes(c['d'])
    keep = []
    ev = [tree.doc_event(c['sc'], b, c['start'])]
    doc = tree.load(c['sc'], b, c['start'], 1, c['io'])
    ev.append(dict(op='nodes', hdr=1, nodes=tree.walk(doc, c['mode'], keep)))
    ev.append(dict(op='raw', raw=[list(e.getRaw()) for e in keep], rawv=[list(e.getRawValue()) for e in reversed(keep)][::-1]))
    ev.append(tree.nodes_event(c['sc'], b, c['start'], 0, c['io']))
    return ev
