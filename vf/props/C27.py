"""Arbitrary bytes (specs/TreeTrace.tla: AnyOk)."""
from vf import tree
from vf.tree import TRACE  # noqa: F401

CASE_TIMEOUT = 20


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier)


def MC(tier):
    return tree.mc(tier)


SAMPLE = [0, 1, 8, 16, 0x40, 0x80, 0x81, 0x82, 0x83, 0xA1, 0xEC, 0xFF, 0x8F]


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    q = tier == 'quick'
    modes = ['plain', 'plain', 'siblings', 'late', 'len']
    ex = exported['tree']
    for x in rng.sample(ex, min(1200 if q else 12000, len(ex))):
        for m in tree.mutants(rng, bytes(x['d']), 2):
            cs.append(dict(kind='mutant', sc=1, d=list(m), mode=rng.choice(modes)))
    for _ in range(2000 if q else 40000):      # bytes that mean something to the model's schema
        cs.append(dict(kind='soup', sc=1, d=[rng.choice(SAMPLE) for _ in range(rng.randint(1, 9))], mode=rng.choice(modes)))
    if not q:                                  # every string of up to 4 such bytes
        for n in range(1, 5):
            for k in range(len(SAMPLE) ** n):
                d = []
                for _ in range(n):
                    d.append(SAMPLE[k % len(SAMPLE)])
                    k //= len(SAMPLE)
                cs.append(dict(kind='all', sc=1, d=d, mode='plain'))
    for _ in range(1500 if q else 30000):
        k = rng.randint(1, len(ss))
        b = tree.render(tree.rand_doc(rng, ss[k - 1], p_unk=rng.choice([0, 0.2, 0.6]), budget=rng.choice([3, 6, 12]), big=rng.choice([0, 0, 0, 0.03])))
        for m in tree.mutants(rng, b, 2):
            cs.append(dict(kind='mutant', sc=k, d=list(m), mode=rng.choice(modes)))
    for _ in range(25 if q else 400):
        k = rng.choice([1, rng.randint(1, len(ss))])
        t = tree.unknown_doc(rng, ss[k - 1]) if rng.random() < 0.5 else tree.big_doc(rng, ss[k - 1], depths=(8, 16, 33))
        for m in tree.mutants(rng, tree.render(t), 2):
            cs.append(dict(kind='mutant', sc=k, d=list(m), mode=rng.choice(modes)))
    for _ in range(500 if q else 10000):
        k = rng.randint(1, len(ss))
        cs.append(dict(kind='noise', sc=k, d=[rng.randint(0, 255) for _ in range(rng.randint(0, 40))], mode=rng.choice(modes)))
    for n, b in tree.samples(3000 if q else 20000):
        for m in [b, b[:rng.randint(100, len(b))]] + list(tree.mutants(rng, b, 3)):
            cs.append(dict(kind='sample', sc=n, d=list(m), mode='plain'))
    return cs


def observe(c):
    b = bytes(c['d'])
    try:
        doc = tree.load(c['sc'], b)
    except Exception:
        # opening reads the first header (and its content, if it is the EBML header)
        return [tree.doc_event(c['sc'], b, wf=0), dict(op='open', ok=0)]
    return [tree.doc_event(c['sc'], b, wf=0), dict(op='any', mode=c['mode'], nodes=tree.walk(doc, c['mode']))]
