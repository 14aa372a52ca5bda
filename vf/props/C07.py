"""Text and binary payloads (specs/Scalar.tla)."""
from vf import codec
from vf.codec import observe, TRACE  # noqa: F401


def MC(tier):
    return codec.mc('text', tier)


def cases(tier, rng, exported):
    cs = exported['text']
    for _ in range(5000 if tier == 'quick' else 120000):
        t = codec.rtext(rng)
        ln = rng.choice([-1, -1, 0, 1, 2, 3, 5, 8, 13, 20, len(t)])
        cs.append(dict(op=rng.choice(['encStr', 'encUni']), v=t, n=ln))
        cs.append(dict(op='encElem', ty=rng.choice(['str', 'uni']), v=[3] + t, n=ln))
        b = [rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 14))]
        cs.append(dict(op='encBin', v=b, n=rng.choice([-1, 0, 1, 4, 13, 14, 20, len(b), len(b) - 1 if b else 0]), ba=rng.randint(0, 1)))
        cs.append(dict(op='encElem', ty='bin', v=[5] + b, n=rng.choice([-1, len(b), len(b) + 3])))
        # payloads: valid UTF-8 with NULs at random places, or noise
        d = list(''.join(map(chr, codec.rtext(rng))).encode('utf8'))
        for _k in range(rng.randint(0, 3)):
            d.insert(rng.randint(0, len(d)), rng.choice([0, 0, 0, 200, rng.randint(0, 255)]))
        cs.append(dict(op=rng.choice(['decStr', 'decUni']), d=d))
        cs.append(dict(op='elem', ty=rng.choice(['str', 'uni', 'bin', 'void', 'unknown']), d=d))
    for big in (126, 127, 128, 300):
        cs.append(dict(op='encUni', v=[65] * big, n=-1))
        cs.append(dict(op='encStr', v=[97] * big, n=big + 5))
        cs.append(dict(op='encBin', v=[7] * big, n=big + 1))
        cs.append(dict(op='elem', ty='uni', d=[66] * big + [0] * 9))
    return cs
