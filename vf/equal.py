"""Comparisons of elements, documents and schemas (specs/Equal.tla)."""
import copy
import io
import json
import random

from . import access, tree

TRACE = ('EqualTrace', 'EqualTrace.cfg')


def variant(rng, s):
    """A schema that differs in one definition (and still decodes the same documents)."""
    s = copy.deepcopy({k: v for k, v in s.items() if k in ('els', 'root', 'hdr')})
    for _ in range(50):
        e = rng.choice(s['els'])
        if e['id'] == tree.EBML or e['id'] in [h[0] for h in tree.HEADER] or e['ty'] == 'void':
            continue
        what = rng.choice(['name', 'type', 'length', 'multiple', 'global', 'precache', 'id', 'drop'])
        ids = {x['id'] for x in s['els']}
        if what == 'name':
            e['nm'] += 'Z'
        elif what == 'type' and e['ty'] in ('int', 'uint'):
            e['ty'] = {'int': 'uint', 'uint': 'int'}[e['ty']]
        elif what == 'length' and e['ty'] in ('bin', 'str', 'uni') and e['ln'] == -1:
            e['ln'] = 9
        elif what == 'multiple':
            e['mu'] = 1 - e['mu']
        elif what == 'global' and not e['gl']:
            e['gl'] = 1
        elif what == 'precache':
            e['pc'] = 1 - e['pc']
        elif what in ('id', 'drop') and e['ty'] in ('int', 'uint', 'str', 'bin'):
            old, new = e['id'], tree.rand_id(rng, ids)
            if what == 'id':
                e['id'] = new
            else:
                s['els'].remove(e)

            def sub(ch):
                return [(new if what == 'id' else None) if c == old else c for c in ch]
            for x in s['els']:
                x['ch'] = [c for c in sub(x['ch']) if c is not None]
            s['root'] = [c for c in sub(s['root']) if c is not None]
        else:
            continue
        return s
    return None


def setup(scratch, rng, tier):
    """The random schemas are followed by variants of some, and last by the fixed one again and a variant of it."""
    env = dict(tree.setup_schemas(scratch, rng, tier, n=8 if tier == 'quick' else 60), **access.setup_docs(scratch))
    with open(env['SCHEMAS']) as f:
        ss = json.load(f)
    vs = []
    for k in range(len(ss)):
        if 'file' not in ss[k]:
            for _ in range(3):
                v = variant(rng, ss[k])
                if v:
                    vs.append(dict(v, of=k + 1))
    last = copy.deepcopy(ss[0])
    v = copy.deepcopy(ss[0])
    next(e for e in v['els'] if e['nm'] == 'Num')['ty'] = 'int'
    with open(env['SCHEMAS'], 'w') as f:
        json.dump(ss + vs + [dict(last, of=1), dict(v, of=1)], f)
    return env


def new_schema(k):
    """Another object for schema k."""
    import ebmlite
    d = tree.descs()[k - 1]
    if 'file' in d:
        return ebmlite.loadSchema(d['file'], reload=True)
    return ebmlite.parseSchema(tree.schema_xml(d), name='vf%d' % k, reload=True)


class Pool:
    def __init__(self):
        self.ev = dict(op='eq', sch=[], docs=[], objs=[], rows=[], others=[])
        self.schemas, self.things = [], []

    def schema(self, k, rng):
        self.schemas.append(new_schema(k))
        self.ev['sch'].append(k)
        self.put('schema', len(self.schemas), 0, self.schemas[-1])
        return len(self.schemas)

    def put(self, k, doc, node, x):
        self.ev['objs'].append(dict(k=k, doc=doc, node=node))
        self.things.append(x)

    def doc(self, so, b, s, rng, kind='bytesio', most=99):
        from ebmlite import util
        doc = self.schemas[so - 1].load(tree.stream_of(b, s, kind), headers=True)
        els = list(util.flatiter(doc))
        self.ev['docs'].append(dict(d=list(b), s=s, so=so, n=len(els)))
        n = len(self.ev['docs'])
        if rng.random() < 0.5:
            self.put('doc', n, 0, doc)
        for k in sorted(rng.sample(range(len(els)), min(most, len(els)))):
            self.put('el', n, k + 1, els[k])
        if els and rng.random() < 0.4:           # another object for the same element
            k = rng.randrange(len(els))
            self.put('el', n, k + 1, list(util.flatiter(doc))[k])

    def poke(self, rng, x):
        from ebmlite import core
        if isinstance(x, core.Element) and rng.random() < 0.3:
            how = rng.randint(0, 3)
            if how == 0:
                x.value
            elif how == 1 and not isinstance(x, core.Document):
                x.gc()
            elif how == 2:
                x.getRaw()
            elif isinstance(x, core.MasterElement):
                len(x)

    def compare(self, rng, most):
        n = len(self.things)
        pairs = [(a, b) for a in range(n) for b in range(n)]
        if len(pairs) > most:
            # those that may be equal are the interesting ones
            o = self.ev['objs']
            near = [p for p in pairs if o[p[0]]['node'] == o[p[1]]['node'] and p[0] != p[1]]
            pairs = rng.sample(near, min(len(near), most // 2)) + rng.sample(pairs, most // 2)
        for a, b in pairs:
            x, y = self.things[a], self.things[b]
            if rng.random() < 0.2:
                self.poke(rng, x)
                self.poke(rng, y)

            def val(f):
                try:
                    r = f()
                except Exception:
                    return 2
                return int(r) if isinstance(r, bool) else 2
            self.ev['rows'].append([a + 1, b + 1, val(lambda: x == y), val(lambda: x != y)])
        others = [None, 5, 0, '', 'UnknownElement', b'', [], {}, object(), float('nan'), int, type(self.things[0]), NotImplemented]
        for a in range(n):
            x = self.things[a]
            for y in rng.sample(others, 3):
                for f in (lambda: x == y, lambda: y == x):
                    try:
                        r = f()
                    except Exception:
                        r = 2
                    self.ev['others'].append([a + 1, int(r) if isinstance(r, bool) else 2])
        return [self.ev]


def edited(rng, sc, t):
    """A document that differs a little."""
    t = copy.deepcopy(t)
    spots = []

    def rec(ns, header):
        for x in ns:
            spots.append((ns, x, header))
            if 'kids' in x:
                rec(x['kids'], header or x['id'] == tree.EBML)
    rec(t, False)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if not spots:
            break
        ns, x, header = rng.choice(spots)
        what = rng.choice(['pay', 'pay', 'pay', 'width', 'id', 'drop'])
        if what == 'width':
            x['sw'] = rng.randint(1, 8)
        elif header or x['id'] == tree.EBML:
            continue
        elif what == 'pay' and x.get('pay'):
            ty = tree.ty_of(sc, x['id'])
            k = rng.randrange(len(x['pay']))
            if ty in ('str', 'uni'):
                if all(32 <= c < 127 or c == 0 for c in x['pay']) and x['pay'][k]:
                    x['pay'][k] = rng.randint(97, 122)
            else:
                x['pay'][k] = rng.choice([x['pay'][k] ^ 128, x['pay'][k] ^ 1, rng.randint(0, 255)])
        elif what == 'id' and x['id'] not in sc['by'] and 'pay' in x:
            i = tree.rand_id(rng, set(sc['by']) | {0xEC, tree.EBML})
            if len(tree.idb(i)) == len(tree.idb(x['id'])):
                x['id'] = i
        elif what == 'drop' and any(y is x for y in ns) and rng.random() < 0.3:
            ns[:] = [y for y in ns if y is not x]
    return tree.settle_unknown(sc, t)


def tails(rng, sc, ns):
    """Some texts get something behind their end."""
    for x in ns:
        if 'kids' in x:
            if x['id'] != tree.EBML:
                tails(rng, sc, x['kids'])
        elif tree.ty_of(sc, x['id']) in ('str', 'uni') and rng.random() < 0.3:
            x['pay'] = [97] * rng.randint(0, 2) + [0] + [rng.randint(97, 99) for _ in range(rng.randint(1, 3))]


def near(rng, sc, t):
    """The payloads of some leaves differ, with the same value or not."""
    t = copy.deepcopy(t)
    leaves = []

    def rec(ns):
        for x in ns:
            if 'kids' in x:
                if x['id'] != tree.EBML:
                    rec(x['kids'])
            elif x['pay']:
                leaves.append(x)
    rec(t)
    for x in rng.sample(leaves, min(len(leaves), rng.choice([1, 1, 2, 4]))):
        p, ty = x['pay'], tree.ty_of(sc, x['id'])
        if ty in ('str', 'uni'):
            if not all(32 <= c < 127 or c == 0 for c in p):
                continue
            z = p.index(0) if 0 in p else len(p)
            after = range(z + 1, len(p))
            if after and rng.random() < 0.6:      # behind the end
                p[rng.choice(after)] = rng.choice([0, rng.randint(97, 122)])
            elif z and rng.random() < 0.3:        # the end comes sooner
                p[rng.randrange(z)] = 0
            else:
                p[rng.randrange(len(p))] = rng.randint(97, 122)
        else:                                     # dates: fractions of a microsecond; floats: the last digits
            k = rng.choice([len(p) - 1, len(p) - 1, 0, rng.randrange(len(p))])
            p[k] = rng.choice([p[k] ^ 128, p[k] ^ 1, p[k] ^ 3, rng.randint(0, 255)])
    return tree.settle_unknown(sc, t)


def sized(rng, t):
    """The same document with sizes of the same width known or not."""
    t = copy.deepcopy(t)

    def rec(ns):
        for x in ns:
            if 'kids' in x:
                if x.pop('unk', 0):
                    pass
                rec(x['kids'])
    rec(t)
    return t


def history(c):
    rng = random.Random(c['seed'])
    sc = tree.descs()[c['sc'] - 1]
    t = tree.rand_doc(rng, sc, budget=rng.choice([2, 4, 8]), p_alien=rng.choice([0.1, 0.4]), p_unk=0.15)
    tails(rng, sc, t)
    p = Pool()
    one = p.schema(c['sc'], rng)
    ks = [c['sc']] * 2 + [k + 1 for k, s in enumerate(tree.descs()) if s.get('of') == c['sc']]
    b = tree.render(t)
    p.doc(one, b, 0, rng, rng.choice(['bytesio', 'file', 'shim']))
    for _ in range(rng.choice([1, 1, 2])):
        so = one
        if rng.random() < 0.5:
            so = p.schema(rng.choice(ks), rng)
        t2 = rng.choice([t, edited(rng, sc, t), edited(rng, sc, t), near(rng, sc, t), near(rng, sc, t), sized(rng, t)])
        k = p.ev['sch'][so - 1]
        t2 = tree.settle_unknown(tree.descs()[k - 1], copy.deepcopy(t2))
        s = rng.choice([0, 0, 0, 3])
        p.doc(so, b'\xec\x81\0'[:s] + tree.render(t2), s, rng, rng.choice(['bytesio', 'file', 'shim']))
    return p.compare(rng, c['most'])


def model(c):
    rng = random.Random(c['seed'])
    d = access.docs()[c['doc'] - 1]
    p = Pool()
    one = p.schema(d['sc'], rng)
    p.doc(one, bytes(d['d']), d['s'], rng)
    so = one if c['sc'] == d['sc'] and rng.random() < 0.5 else p.schema(c['sc'], rng)
    p.doc(so, bytes(c['d']), d['s'], rng, rng.choice(['bytesio', 'file', 'shim']))
    return p.compare(rng, c['most'])
