"""Structured data for the encoder (C01, C23): items [id, val] as in specs/EbmlTree.tla, and their Python forms."""
import random

from . import codec, tree, val

NO = [0]


def s(v):
    return dict(k='s', v=v)


def edge(rng, ty, n):
    """A number at or just beyond what n bytes hold."""
    d = rng.choice([0, 0, 0, 1, 2, 72])
    if ty == 'uint':
        return rng.choice([256 ** n - 1 - d, 256 ** n + d])
    m = 2 ** (8 * n - 1)
    return rng.choice([m - 1 - d, m + d, -m + d, -m - 1 - d, 2 * m - 1, -2 * m])


def scalar(rng, e, bad=False):
    """A value for a leaf element e (bad: maybe one that must be refused)."""
    ty, ln = e['ty'], e['ln']
    if bad and rng.random() < 0.5:
        r = rng.random()
        if r < 0.25 and ty != 'date':      # (a date of None is documented to be the current time)
            return dict(k='n')
        if r < 0.6:
            T, B, I, F, D = val.textval, val.binval, val.intval, val.floatval, val.dateval
            day = D(codec.rdate(rng))
            wrong = dict(int=[T('x'), T(''), B(b'1'), B(b''), day], uint=[T('1'), T(''), B(b''), I(-1), day],
                         float=[T('1.5'), T(''), B(b'12345678'), B(b''), day], date=[T('2001-01-01'), T(''), B(b''), I(5), I(0), F(0.0), F(1.5)],
                         str=[I(5), I(0), F(1.5), F(0.0), day], uni=[I(0), I(7), F(1.5), F(0.0), day],
                         bin=[I(3), I(0), F(0.5), F(0.0), day], void=[T('x')])
            return s(rng.choice(wrong[ty]))
        if r < 0.8 and ty != 'void':
            return dict(k='m', leaf=1, xs=[dict(id=e['id'], val=s(val.intval(1)))])
    if bad and ty in ('int', 'uint') and rng.random() < 0.4:
        return s(val.intval(edge(rng, ty, ln if ln > 0 and rng.random() < 0.8 else rng.randint(1, 8))))
    if ty == 'int':
        n = codec.rint(rng, 63) * rng.choice([1, -1])
        if not bad:
            m = 8 * (ln if ln > 0 else 8) - 1
            n = max(-2 ** m, min(2 ** m - 1, n))
        return s(val.intval(n))
    if ty == 'uint':
        n = abs(codec.rint(rng, 64))
        if not bad:
            n = min(256 ** (ln if ln > 0 else 8) - 1, n)
        return s(val.intval(n))
    if ty == 'float':
        while True:
            x = codec.rfloat(rng)
            if bad or ln != 4 or x != x or abs(x) in (0.0, float('inf')) or abs(x) < 3.4028235677973e38:
                return s(val.floatval(x))
    if ty == 'date':
        return s(val.dateval(codec.rdate(rng)))
    if ty == 'str':
        if rng.random() < 0.1:
            return s(val.binval(bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 6)))))
        return s([3] + [rng.randint(32, 126) if rng.random() < 0.95 else rng.choice([0, 9, 10, 127, 233, 8364, 0x1F600])
                        for _ in range(rng.randint(0, 12))])
    if ty == 'uni':
        t = codec.rtext(rng, maxlen=12)
        if not bad:
            t = [c for c in t if not 0xD800 <= c < 0xE000]
        if rng.random() < 0.9:
            t = [c for c in t if c]
        return s([3] + t)
    if ty == 'void':
        return rng.choice([dict(k='n'), s(val.binval(b'abc')), s(val.binval(b''))])
    n = rng.randint(0, ln + (3 if bad else 0)) if ln >= 0 else rng.choice([0, 1, 5, 20, 125, 126, 127, 128, 300])
    if rng.random() < 0.1:
        return s([3] + [rng.randint(32, 126) for _ in range(n)])
    b = bytes(rng.randint(0, 255) for _ in range(n)) if n < 40 else bytes([rng.randint(0, 255)]) * n
    if ln < 0 and rng.random() < 0.15:
        return dict(k='n')
    return s(val.binval(b))


def contents(rng, sc, ids, left, depth, bad=0.0):
    items = []
    ids = [i for i in ids if i != tree.EBML]
    if not ids or depth > 5:
        return items
    many = rng.random() < 0.07                   # sometimes many, all different or not
    if many:
        some = rng.sample(ids, len(ids)) if rng.random() < 0.7 else [rng.choice(ids) for _ in range(rng.randint(5, 40))]
        left = [min(left[0] + 6, 12)]
    for k in range(min(len(some), 40) if many else rng.choice([0, 1, 2, 3, 4]) if depth > 1 else rng.randint(1, 4)):
        if left[0] <= 0 and not many:
            break
        left[0] -= 1
        if rng.random() < bad * 0.5:
            items.append(dict(id=rng.choice([0x7E7E, 0x3FABCD, 0]) if rng.random() < 0.7 else -5,
                              val=s(val.intval(1))))
            continue
        e = sc['by'][some[k] if many else rng.choice(ids)]
        if many and e['ty'] == 'master' and left[0] <= 0:
            continue
        items.append(dict(id=e['id'], val=value(rng, sc, e, left, depth, bad)))
    return items


def value(rng, sc, e, left, depth, bad=0.0, nest=0):
    isbad = rng.random() < bad
    many = rng.random() < 0.35 and nest == 0 and (e['mu'] or isbad)
    if many:
        xs = [value(rng, sc, e, left, depth, bad, 1) for _ in range(rng.choice([0, 1, 2, 2, 3] if rng.random() < 0.95 or e['ty'] == 'master' else [9, 17, 33]) if e['mu'] else rng.randint(1, 3))]
        return dict(k='l', xs=xs)
    if e['ty'] == 'master':
        if isbad and rng.random() < 0.5:
            return s(rng.choice([val.intval(4), val.intval(0), val.textval('x'), val.textval(''), val.binval(b'\x82\x81\x01'), val.binval(b''),
                             val.floatval(0.5), val.floatval(0.0), val.dateval(codec.rdate(rng))]))
        if rng.random() < 0.06:
            return dict(k='n')
        return dict(k='m', xs=contents(rng, sc, e['ch'], left, depth + 1, bad))
    return scalar(rng, e, isbad)


def rand_items(rng, sc, budget=14, bad=0.0):
    return contents(rng, sc, sc['root'], [budget], 1, bad)


def huge_items(rng, sc):
    """Items with one payload beyond what a buffer or two bytes of size hold (or None)."""
    n = rng.choice([32767, 32768, 65534, 65535, 65536, 70001])

    def grow(items):
        for it in rng.sample(items, len(items)):
            e, v = sc['by'].get(it['id']), it['val']
            if v['k'] == 'm' and 'leaf' not in v:
                if grow(v['xs']):
                    return True
            elif e and v['k'] == 's' and e['ln'] < 0 and e['ty'] in ('bin', 'str', 'uni'):
                it['val'] = s(val.binval(bytes((j * 5 + j // 251) % 256 for j in range(n))) if e['ty'] == 'bin' else [3] + [97 + j % 11 for j in range(n)])
                return True
        return False
    for _ in range(50):
        items = rand_items(rng, sc, rng.choice([3, 6]))
        if grow(items):
            return items
    return None


# --- Python forms -------------------------------------------------------------------------

def key(rng, sc, i):
    e = sc['by'].get(i)
    if e is None:
        return i if rng.random() < 0.5 or i < 0 else 'NoSuch%X' % i
    return e['nm'] if rng.random() < 0.7 else i


def form(rng, sc, v):
    """The Python object for a value."""
    if v['k'] == 'n':
        return None
    if v['k'] == 's':
        x = val.topy(v['v'])
        if isinstance(x, bytes) and rng.random() < 0.3:
            x = bytearray(x)
        return x
    if v['k'] == 'l':
        xs = [form(rng, sc, dict(x, k=x['k'], inlist=1)) for x in v['xs']]
        # a tuple of masters given as lists of pairs is fine; an empty or tuple-headed one is not a list of values
        return tuple(xs) if xs and not isinstance(xs[0], tuple) and rng.random() < 0.3 else xs
    if 'leaf' in v:
        return {key(rng, sc, it['id']): form(rng, sc, it['val']) for it in v['xs']}
    return group(rng, sc, v['xs'], 'inlist' in v)


def group(rng, sc, items, inlist=False, top=False):
    ks = [key(rng, sc, it['id']) for it in items]
    fs = ['pairs']
    if not inlist and not top:
        fs.append('tuple')
    if len({it['id'] for it in items}) == len(items):
        fs += ['dict', 'dict']
    if top and items:
        fs += ['dicts', 'mixed']
    f = rng.choice(fs) if items else rng.choice(['dict', 'pairs']) if top else 'dict'
    vs = [form(rng, sc, it['val']) for it in items]
    if f == 'dict':
        return dict(zip(ks, vs))
    if f == 'pairs':
        return list(zip(ks, vs))
    if f == 'tuple':
        return tuple(zip(ks, vs))
    out = []
    for k, v in zip(ks, vs):
        out.append({k: v} if f == 'dicts' or rng.random() < 0.5 else (k, v))
    return out


def write_event(sc_no, items, hdr, seed):
    """Encodes the items in several ways, and reads the result."""
    import io
    sc = tree.descs()[sc_no - 1]
    S = tree.lib_schema(sc_no)
    rng = random.Random(seed)

    def a(f):
        try:
            return [1] + list(f())
        except Exception:
            return NO

    left = []

    def stream():
        f = io.BytesIO()
        f.write(b'xyz')
        try:
            S.encode(f, group(rng, sc, items, top=True), headers=bool(hdr))
        finally:
            left[:] = f.getvalue()[3:]
        return f.getvalue()[3:]

    def pieces():
        out = S.encodes({}, headers=True) if hdr else b''
        for it in items:
            out += S.encodes(group(rng, sc, [it], top=True))
        return out
    r = a(lambda: S.encodes(group(rng, sc, items, top=True), headers=bool(hdr)))
    alt = [a(stream), a(pieces), a(lambda: S.encodes(group(rng, sc, items, top=True), bool(hdr)))]
    rb = []
    if r != NO:
        rb = tree.walk(S.loads(bytes(r[1:])) if not (hdr and 'EBML' in sc['names']) else
                       S.load(io.BytesIO(bytes(r[1:])), headers=True))
    return dict(op='enc', sc=sc_no, hdr=int(bool(hdr)), items=items, r=r, alt=alt, rb=rb, left=left)
