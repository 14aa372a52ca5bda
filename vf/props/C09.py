"""Unknown elements and padding are opaque (specs/EbmlTree.tla: Stripped; specs/TreeMC.tla: StripOne)."""
import copy

from vf import tree
from vf.tree import TRACE  # noqa: F401


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def MC(tier):
    return tree.mc(tier)


def places(t, unk_above=False):
    """Child lists into which padding may be put: the root and containers of explicit size."""
    out = [] if unk_above else [t]
    for x in t:
        if 'kids' in x:
            out += places(x['kids'], unk_above or bool(x.get('unk')))
    return out


def alien(rng, s, known):
    ks = known if rng.random() < 0.7 else []
    if 'Void' in s['names'] and rng.random() < 0.35:
        i = 0xEC
    else:
        i = tree.rand_id(rng, set(s['by']) | {0xEC})
    k = rng.random()
    if k < 0.4 and ks:             # bytes that look like elements of this very schema
        b = b''
        for _ in range(rng.randint(1, 3)):
            c = rng.choice(ks)
            b += tree.idb(c) + bytes([rng.choice([0x80, 0x81, 0x83, 0xFF])]) + bytes([1] * rng.randint(0, 2))
    else:
        b = tree.payload(rng, 'bin', big=0.03)
    return dict(id=i, sw=rng.choice([1, 1, 2, 4, 8]), pay=list(b), new=1)


def vary(rng, s, t):
    t = copy.deepcopy(t)
    known = [e['id'] for e in s['els']]
    for l in places(t):
        for _ in range(rng.choice([0, 1, 1, 2])):
            l.insert(rng.randint(0, len(l)), alien(rng, s, known))

    def change(ns, unk):
        for x in list(ns):
            if 'kids' in x:
                change(x['kids'], unk or x.get('unk'))
            elif (x['id'] not in s['by'] or x['id'] == 0xEC) and 'new' not in x:
                if rng.random() < 0.4 and not unk:
                    ns.remove(x)
                else:
                    x['pay'] = list(tree.payload(rng, 'bin'))
    change(t, False)
    return t


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    n = 1800 if tier == 'quick' else 35000
    while n:
        k = rng.randint(1, len(ss))
        s = ss[k - 1]
        base = tree.rand_doc(rng, s, p_unk=rng.choice([0, 0, 0.3]), budget=rng.choice([3, 8, 20]), p_alien=rng.choice([0, 0.1]))
        vs = []
        for _ in range(2):
            v = vary(rng, s, base)
            if s['by'].get(tree.EBML) and v and base and base[0]['id'] == tree.EBML and v[0]['id'] != tree.EBML:
                v = base                        # the header stays first
            # what follows a container of unknown size must still end it
            w = tree.settle_unknown(s, copy.deepcopy(v))
            if w == v:
                vs.append(list(tree.render(v)))
        if not vs:
            continue
        n -= 1
        cs.append(dict(kind='insert', sc=k, d=list(tree.render(base)), vs=vs, mode=rng.choice(tree.MODES), how=rng.choice(['class', 'factory'])))
    return cs


def observe(c):
    b = bytes(c['d'])
    ev = [tree.doc_event(c['sc'], b), tree.nodes_event(c['sc'], b, mode=c['mode'])]
    for v in c['vs']:
        ev.append(dict(op='same', sc=c['sc'], d=v, s=0, wf=1, nodes=tree.walk(tree.load(c['sc'], bytes(v)), c['mode'])))
    v = bytes(c['vs'][-1])
    keep = []
    ev.append(tree.doc_event(c['sc'], v))
    ev.append(dict(op='nodes', hdr=1, nodes=tree.walk(tree.load(c['sc'], v), c['mode'], keep)))
    ev.append(dict(op='raw', raw=[list(e.getRaw()) for e in keep], rawv=[list(e.getRawValue()) for e in keep]))
    ev.append(handled(c['sc'], v, c['mode'], c.get('how', 'class')))
    return ev


def handled(k, b, mode, how):
    """The document with a substitute for the handler of unknown elements."""
    from ebmlite import core
    sc = tree.lib_schema(k)
    own = type('Mine', (sc.UNKNOWN,), dict(mine=True))
    keep, n = [], [0]

    def factory(*args, **kw):
        n[0] += 1
        return own(*args, **kw)
    sc.UNKNOWN = own if how == 'class' else factory
    try:
        nodes = tree.walk(tree.load(k, b), mode, keep)
    finally:
        del sc.UNKNOWN
    plain = tree.walk(tree.load(k, b), mode, plainly := [])
    return dict(op='handler', hdr=1, nodes=nodes, mine=[int(getattr(e, 'mine', False)) for e in keep],
                gone=int(plain == nodes and not any(hasattr(e, 'mine') for e in plainly) and not hasattr(core.UnknownElement, 'mine')))
