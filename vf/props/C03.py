"""Size descriptors (specs/Vint.tla)."""
from vf import codec, val
from vf.codec import observe, TRACE  # noqa: F401


def MC(tier):
    return codec.mc('size', tier)


def cases(tier, rng, exported):
    cs = exported['size']
    n = 12000 if tier == 'quick' else 300000
    for _ in range(n):
        k = rng.randint(0, 3)
        v = val.mag(min(codec.rint(rng, 57), 2**60))
        if k == 0:
            cs.append(dict(op='encSize', v=v, unk=0, neg=0, n=rng.choice([-1] + list(range(1, 9)))))
        elif k == 1:
            cs.append(dict(op='getLength', v=val.mag(codec.rint(rng, 55))))
        else:
            d = [rng.randint(1, 255)] + [rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(8)]
            cs.append(dict(op='decSize', d=d))
    for a in range(256):            # every 2-byte descriptor's first bytes, and every 1-byte one
        cs.append(dict(op='decSize', d=[128 + a % 128]))
        for b in range(64) if tier == 'quick' else range(256):
            cs.append(dict(op='decSize', d=[64 + a % 64, (b * 4 + a // 64) % 256]))
    return cs
