"""Structured data round-trips through a schema (specs/EbmlTree.tla: Flat, Walk)."""
from vf import data, tree
from vf.tree import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    for k in range(3000 if tier == 'quick' else 60000):
        n = rng.randint(1, len(ss))
        cs.append(dict(kind='items', sc=n, hdr=rng.randint(0, 1), seed=rng.randint(0, 1 << 30),
                       items=data.rand_items(rng, ss[n - 1], rng.choice([3, 8, 14, 30]))))
    for k in range(6 if tier == 'quick' else 40):
        n = rng.randint(1, len(ss))
        x = data.huge_items(rng, ss[n - 1])
        if x is not None:
            cs.append(dict(kind='items', sc=n, hdr=rng.randint(0, 1), seed=rng.randint(0, 1 << 30), items=x))
    for k in range(24):
        cs.append(dict(kind='items', sc=k % len(ss) + 1, hdr=k % 2, seed=rng.randint(0, 1 << 30), items=[]))
    return cs


def observe(c):
    return [data.write_event(c['sc'], c['items'], c['hdr'], c['seed'])]
