"""Encoding is faithful or refuses (specs/EbmlTree.tla: Flat; specs/TreeTrace.tla: ChkEncElem)."""
import random

from vf import data, tree, val
from vf.tree import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    for k in range(2500 if tier == 'quick' else 50000):
        n = rng.randint(1, len(ss))
        cs.append(dict(kind='items', sc=n, hdr=rng.choice([0, 0, 1]), seed=rng.randint(0, 1 << 30),
                       items=data.rand_items(rng, ss[n - 1], rng.choice([3, 8, 14]), rng.choice([0.05, 0.1, 0.3]))))
    for k in range(4000 if tier == 'quick' else 80000):
        n = rng.randint(1, len(ss))
        s = ss[n - 1]
        e = rng.choice(s['els'])
        if e['id'] == tree.EBML:
            continue
        inf = int(rng.random() < (0.5 if e['ty'] == 'master' else 0.05))
        bad = rng.choice([0, 0, 0.1, 0.4])
        v = data.value(rng, s, e, [8], 1, bad)
        if inf and e['ty'] == 'master' and not fits(s, e['id'], v):
            inf = 0
        ln = rng.choice([-1, -1, -1, 0, 1, 2, 3, 4, 8, 10, 20])
        if e['ty'] in ('float', 'date') and rng.random() < 0.6:
            ln = rng.choice([4, 8])
        if e['ty'] in ('int', 'uint'):
            ln = min(ln, 8)
        if e['ty'] == 'float' and ln == 0 and bad:
            ln = 4
        if e['ty'] in ('int', 'uint') and v['k'] == 's' and v['v'][0] == 1 and ln > 0 and rng.random() < 0.4:
            v = data.s(val.intval(data.edge(rng, e['ty'], ln)))
        ls = rng.choice([-1, -1, 1, 2, 3, 4, 5, 6, 7, 8, 0, 9, 12])
        if rng.random() < 0.15 and e['ty'] == 'bin' and v['k'] == 's':
            m = rng.choice([125, 126, 127, 128, 16382, 16383, 16384])
            v, ln, ls = data.s([5] + [7] * (m - rng.choice([0, 0, 1]))), rng.choice([-1, m]), rng.choice([-1, 1, 2, 3, 8])
        cs.append(dict(kind='elem', sc=n, id=e['id'], n=ln, ls=ls, inf=inf, val=v, seed=rng.randint(0, 1 << 30)))
    return cs


def fits(s, i, v):
    """May this value be written with unknown size (its contents can be told from what follows)?"""
    if v['k'] == 'l':
        return len(v['xs']) <= 1 and all(fits(s, i, x) for x in v['xs']) or (
            not tree.valid_child(s, i, i) and all(fits(s, i, x) for x in v['xs']))
    if v['k'] == 'm':
        return all(it['id'] in s['by'] and tree.valid_child(s, i, it['id']) for it in v['xs'])
    return True


def observe(c):
    if c['kind'] == 'items':
        return [data.write_event(c['sc'], c['items'], c['hdr'], c['seed'])]
    s, S = tree.descs()[c['sc'] - 1], tree.lib_schema(c['sc'])
    rng = random.Random(c['seed'])
    cls = S[c['id']]
    x = data.form(rng, s, c['val'])
    try:
        kw = {}
        if c['n'] != -1 or rng.random() < 0.2:
            kw['length'] = None if c['n'] == -1 else c['n']
        if c['ls'] != -1 or rng.random() < 0.2:
            kw['lengthSize'] = None if c['ls'] == -1 else c['ls']
        if c['inf'] or rng.random() < 0.2:
            kw['infinite'] = bool(c['inf'])
        r = [1] + list(cls.encode(x, **kw))
    except Exception:
        r = [0]
    r0 = [0]
    if r == [0] and c['ls'] != -1:
        try:
            kw['lengthSize'] = None
            r0 = [1] + list(cls.encode(x, **kw))
        except Exception:
            pass
    return [dict(c, op='encElem', r=r, r0=r0)]
