"""Element IDs (specs/Vint.tla)."""
from vf import codec, val
from vf.codec import observe, TRACE  # noqa: F401

R = dict(A=(0x81, 0xFE), B=(0x407F, 0x7FFE), C=(0x203FFF, 0x3FFFFE), D=(0x101FFFFF, 0x1FFFFFFE))


def MC(tier):
    return codec.mc('id', tier)


def near(rng, lo, hi):
    return rng.choice([lo, hi, lo + rng.randint(-3, 12), hi + rng.randint(-12, 3), rng.randint(lo, hi)])


def create(rng, kind):
    cls = rng.choice('ABCD')
    lo, hi = R[cls]
    c = dict(op='createId', cls=cls, lower=rng.randint(0, 1), hasMin=0, hasMax=0, hasCount=0, min=0x81, max=0x1FFFFFFE,
             count=1, exkind=rng.randint(0, 3))
    if rng.random() < 0.7:
        c.update(hasMin=1, min=max(0, near(rng, lo, hi)))
    if rng.random() < 0.6:
        base = max(c['min'], lo)
        c.update(hasMax=1, max=rng.choice([base + rng.randint(-3, 30), near(rng, lo, hi)]))
    if rng.random() < 0.8:
        c.update(hasCount=1, count=rng.choice([0, 1, 2, 5, 20, 40]))
    start = max(lo, c['min'])
    pool = [x for x in range(start - 4, start + 45)] + [hi - k for k in range(6)]
    pool = [x for x in pool if 0x81 <= x <= 0x1FFFFFFE]
    c['exclude'] = sorted(rng.sample(pool, rng.randint(0, min(20, len(pool))))) if pool else []
    c['inschema'] = kind
    return c


def cases(tier, rng, exported):
    cs = exported['id']
    schemas = [[], [0x81, 0x83, 0x4080], [0xEC, 0x4081, 0x407F, 0x7FFE, 0xFE]]
    for _ in range(12):
        s = []
        for lo, hi in R.values():
            s += [lo + k for k in range(rng.randint(0, 12)) if rng.random() < 0.5]
            s += [hi - k for k in range(6) if rng.random() < 0.3]
        schemas.append(sorted(set(s)))
    n = 4000 if tier == 'quick' else 60000
    for _ in range(n):
        cs.append(create(rng, rng.choice(schemas)))
        lo, hi = R[rng.choice('ABCD')]
        cs.append(dict(op='encId', v=val.mag(min(max(near(rng, lo, hi), lo), hi)), n=-1))
        cs.append(dict(op='validId', v=val.mag(rng.choice([near(rng, lo, hi), codec.rint(rng, 34)])), neg=int(rng.random() < 0.1)))
        cs.append(dict(op='decId', d=[rng.randint(0, 255)] + [rng.choice([0, 1, 127, 255, rng.randint(0, 255)]) for _ in range(4)]))
    for x in range(0, 0x8200, 1 if tier != 'quick' else 7):     # every number of classes A and B
        cs.append(dict(op='validId', v=val.mag(x), neg=0))
    return cs
