"""Schema.verify (specs/EbmlTree.tla: Verified)."""
from vf import data, tree
from vf.tree import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def MC(tier):
    return tree.mc(tier)


def damage(rng, s, t):
    """One thing the schema does not explain, somewhere in the tree."""
    nodes = []

    def rec(ns, unk):
        for x in ns:
            if 'raw' in x:
                continue
            nodes.append((ns, x, unk))
            if 'kids' in x:
                rec(x['kids'], unk or bool(x.get('unk')))
    rec(t, False)
    if not nodes:
        return
    if rng.random() < 0.4:                   # what could be malformed
        nodes = [n for n in nodes if tree.ty_of(s, n[1]['id']) in ('float', 'date', 'uni')] or nodes
    ns, x, unk = rng.choice(nodes)
    ty = tree.ty_of(s, x['id'])
    k = rng.random()
    if k < 0.35 and 'pay' in x:
        if ty in ('float',):
            x['pay'] = x['pay'][:3] + [1, 2, 3][:3]
            x['pay'] = x['pay'][:rng.choice([1, 2, 3, 5])] if rng.random() < 0.5 else x['pay'] + [0] * rng.choice([5, 7, 12])
        elif ty == 'date':
            x['pay'] = [0] * rng.choice([0, 1, 7, 9, 16])
        elif ty == 'uni':
            x['pay'] = x['pay'] + [rng.choice([0x80, 0xC0, 0xFF, 0xE2])] + [65] * rng.randint(0, 2)
    elif k < 0.75:
        i = tree.rand_id(rng, set(s['by']) | {0xEC})
        ns.insert(rng.randint(0, len(ns)), dict(id=i, sw=rng.choice([1, 1, 2, 8]), pay=rng.choice([[], [], [0], [1, 2], [0x81, 0x80], [7] * 40, [255] * 8, [0] * 200])))
    else:
        # a byte that cannot start an ID, inside a container of explicit size or at the end of the document
        if 'kids' in x and not x.get('unk') and not unk:
            x['kids'].append(dict(raw=[rng.randint(0, 15), 0x81, 0]))
        else:
            t.append(dict(raw=[rng.randint(0, 15), 0x81, 0]))


def render(ns):
    out = b''
    for x in ns:
        if 'raw' in x:
            out += bytes(x['raw'])
            continue
        pay = render(x['kids']) if 'kids' in x else bytes(x['pay'])
        w = max(x['sw'], tree.minw(len(pay)))
        sz = (2 ** (7 * w + 1) - 1).to_bytes(w, 'big') if x.get('unk') else tree.size_bytes(len(pay), w)
        out += tree.idb(x['id']) + sz + pay
    return out


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    ex = exported['tree']
    m = 3000 if tier == 'quick' else 50000
    for x in rng.sample(ex, min(m, len(ex))):
        cs.append(dict(kind='model', sc=1, d=x['d']))
    for _ in range(4000 if tier == 'quick' else 80000):
        k = rng.randint(1, len(ss))
        t = tree.rand_doc(rng, ss[k - 1], p_unk=rng.choice([0, 0, 0.3]), budget=rng.choice([2, 4, 10, 20]), p_alien=0,
                          p_void=rng.choice([0, 0.1]), header=rng.choice([0, 0.8]))
        if rng.random() < 0.6:
            damage(rng, ss[k - 1], t)
            if rng.random() < 0.2:
                damage(rng, ss[k - 1], t)
        cs.append(dict(kind='random', sc=k, d=list(render(t))))
    for _ in range(800 if tier == 'quick' else 15000):
        k = rng.randint(1, len(ss))
        cs.append(dict(kind='written', sc=k, hdr=rng.randint(0, 1), items=data.rand_items(rng, ss[k - 1], rng.choice([3, 10])),
                       seed=rng.randint(0, 1 << 30)))
    return cs


def observe(c):
    S = tree.lib_schema(c['sc'])
    if c['kind'] == 'written':
        e = data.write_event(c['sc'], c['items'], c['hdr'], c['seed'])
        if e['r'] == [0]:
            return []
        b = bytes(e['r'][1:])
    else:
        b = bytes(c['d'])
    try:
        S.verify(b)
        ok = 1
    except Exception:
        ok = 0
    return [tree.doc_event(c['sc'], b, wf=0), dict(op='verify', ok=ok)]
