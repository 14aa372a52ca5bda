"""Containers of unknown size (specs/TreeMC.tla: UnknownEquiv; specs/EbmlTree.tla: UnkEnd)."""
from vf import tree
from vf.tree import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def MC(tier):
    return tree.mc(tier)


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    ex = [x for x in exported['tree'] if x['d'] != x['t']]
    if len(ex) > 25000:
        ex = rng.sample(ex, 25000)
    for x in ex:
        cs.append(dict(kind='model', sc=1, d=x['d'], t=x['t'], modes=rng.sample(tree.MODES, 2)))
    for _ in range(60 if tier == 'quick' else 1000):
        k = rng.choice([1, rng.randint(1, len(ss))])
        t = tree.unknown_doc(rng, ss[k - 1])
        cs.append(dict(kind='random', sc=k, d=list(tree.render(t)), t=list(tree.render(t, known=True)), modes=rng.sample(tree.MODES, 2)))
    n = 0
    while n < (1200 if tier == 'quick' else 25000):
        k = rng.randint(1, len(ss))
        b, t = tree.twin_of(rng, ss[k - 1], p_unk=rng.choice([0.4, 0.7, 1]), budget=rng.choice([4, 10, 25]), p_alien=rng.choice([0, 0.1]))
        if b == t:
            continue
        n += 1
        cs.append(dict(kind='random', sc=k, d=list(b), t=list(t), modes=rng.sample(tree.MODES, 3)))
    return cs


def observe(c):
    b, t = bytes(c['d']), bytes(c['t'])
    ev = [tree.doc_event(c['sc'], b)]
    for m in c['modes']:
        ev.append(tree.nodes_event(c['sc'], b, mode=m))
    ev.append(dict(op='twin', sc=c['sc'], d=c['t'], s=0, wf=1, nodes=tree.walk(tree.load(c['sc'], t), 'plain')))
    return ev
