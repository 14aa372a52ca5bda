"""Floating-point and date payloads (specs/Scalar.tla)."""
from vf import codec, val
from vf.codec import observe, TRACE  # noqa: F401


def MC(tier):
    return codec.mc('float', tier)


def cases(tier, rng, exported):
    cs = exported['float']
    for _ in range(6000 if tier == 'quick' else 150000):
        v = val.floatval(codec.rfloat(rng))
        ln = rng.choice([-1, 4, 4, 8])
        cs.append(dict(op='encFloat', v=v, n=ln))
        cs.append(dict(op='encElem', ty='float', v=v, n=ln))
        d = [rng.choice([0, 127, 128, 255, rng.randint(0, 255)]) for _ in range(rng.choice([4, 4, 8, 8, 8, rng.randint(0, 12)]))]
        cs.append(dict(op=rng.choice(['decFloat', 'elem']), ty='float', d=d))
        d = [rng.choice([0, 127, 128, 255, rng.randint(0, 255)]) for _ in range(rng.choice([8, 8, 8, 8, rng.randint(0, 12)]))]
        cs.append(dict(op=rng.choice(['decDate', 'elem']), ty='date', d=d))
        v = val.dateval(codec.rdate(rng))
        cs.append(dict(op='encDate', v=v, n=rng.choice([-1, -1, 8])))
        cs.append(dict(op='encElem', ty='date', v=v, n=-1))
    return cs
