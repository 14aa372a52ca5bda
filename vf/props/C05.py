"""Integer payloads (specs/Scalar.tla)."""
from vf import codec, val
from vf.codec import observe, TRACE  # noqa: F401


def MC(tier):
    return codec.mc('int', tier)


def cases(tier, rng, exported):
    cs = exported['int']
    for _ in range(8000 if tier == 'quick' else 250000):
        v = val.intval(codec.rint(rng, 65) * rng.choice([1, 1, -1]))
        ln = rng.choice([-1, -1, 1, 2, 3, 4, 5, 6, 7, 8])
        cs.append(dict(op=rng.choice(['encInt', 'encUInt']), v=v, n=ln))
        cs.append(dict(op='encElem', ty=rng.choice(['int', 'uint']), v=v, n=ln))
        d = [rng.choice([0, 128, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 8))]
        cs.append(dict(op=rng.choice(['decInt', 'decUInt']), d=d))
        cs.append(dict(op='elem', ty=rng.choice(['int', 'uint']), d=d))
    return cs
