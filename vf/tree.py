"""Schemas, documents and observations for the reader/writer properties (specs/EbmlTree.tla)."""
import io
import json
import os
import random
import tempfile

from . import codec, val

TAGS = dict(int='IntegerElement', uint='UIntegerElement', float='FloatElement', date='DateElement',
            str='StringElement', uni='UnicodeElement', bin='BinaryElement', master='MasterElement', void='BinaryElement')
PRE = dict(int=1, uint=1, float=1, date=1)
EBML = 0x1A45DFA3
HEADER = [(0x4286, 'EBMLVersion', 'uint'), (0x42F7, 'EBMLReadVersion', 'uint'), (0x4282, 'DocType', 'str'),
          (0x4287, 'DocTypeVersion', 'uint'), (0x4285, 'DocTypeReadVersion', 'uint')]
RANGES = [(0x81, 0xFE), (0x407F, 0x7FFE), (0x203FFF, 0x3FFFFE), (0x101FFFFF, 0x1FFFFFFE)]


def el(id, nm, ty, ch=(), gl=0, mu=0, ln=-1, pc=None, df=None):
    return dict(id=id, nm=nm, ty=ty, ch=list(ch), gl=gl, mu=mu, ln=ln,
                pc=PRE.get(ty, 0) if pc is None else pc, df='' if df is None else df)


def finish(els, root):
    """A schema description; hdr is the data of the default header (specs: S.hdr)."""
    by = {e['nm']: e for e in els}
    hdr = []
    if 'EBML' in by:
        xs = []
        for _i, nm, _t in HEADER:
            e = by.get(nm)
            if e and e['df'] != '':
                v = val.textval(e['df']) if nm == 'DocType' else val.intval(int(e['df']))
                xs.append(dict(id=e['id'], val=dict(k='s', v=v)))
        hdr = [dict(id=by['EBML']['id'], val=dict(k='m', xs=xs))]
    return dict(els=els, root=list(root), hdr=hdr)


def fixed_schema():
    """The schema of the exhaustive model TreeMC."""
    hdr = [el(i, n, t, df={'DocType': 'mc'}.get(n, '1')) for i, n, t in HEADER]
    return finish([el(EBML, 'EBML', 'master', [h['id'] for h in hdr])] + hdr + [
        el(0xA1, 'Box', 'master', [0x82, 0x4083, 0xA1, 0x4484], mu=1),
        el(0x82, 'Num', 'uint', mu=1),
        el(0x4083, 'Text', 'str'),
        el(0x4484, 'Pair', 'master', [0x2400AA, 0x82]),
        el(0x2400AA, 'Blob', 'bin', mu=1),
        el(0xEC, 'Void', 'void', gl=1, mu=1),
        el(0x10200088, 'Bare', 'master', mu=1),
        el(0x8F, 'Real', 'float', mu=1),
    ], [EBML, 0xA1, 0xEC, 0x10200088, 0x8F])


def rand_id(rng, used, width=None):
    while True:
        lo, hi = RANGES[(width or rng.choice([1, 1, 2, 2, 3, 4])) - 1]
        i = rng.choice([rng.randint(lo, hi), lo + rng.randint(0, 3), hi - rng.randint(0, 3)])
        if i not in used:
            used.add(i)
            return i


def rand_schema(rng, pcm=0):
    used = {EBML, 0xEC} | {h[0] for h in HEADER}
    els, root = [], []
    if rng.random() < 0.7:
        hd = [h for h in HEADER if rng.random() < 0.85]
        for i, n, t in hd:
            df = None if rng.random() < 0.15 else ('doc%d' % rng.randint(0, 99) if n == 'DocType' else str(rng.choice([0, 1, 2, 4, 300])))
            els.append(el(i, n, t, df=df))
        els.insert(0, el(EBML, 'EBML', 'master', [h[0] for h in hd]))
        root.append(EBML)
    body = []
    n = rng.randint(5, 14)
    for k in range(n):
        ty = rng.choice(['master'] * 4 + ['int', 'uint', 'uint', 'float', 'date', 'str', 'uni', 'bin', 'bin'])
        ln = -1
        if ty != 'master' and rng.random() < 0.2:
            ln = dict(float=rng.choice([4, 4, 8]), date=8, int=rng.choice([1, 2, 8]), uint=rng.choice([1, 3, 8])).get(ty, rng.choice([1, 4, 10]))
        pc = None if rng.random() < 0.75 else rng.randint(0, 1)
        if ty == 'master':
            pc = 1 if rng.random() < pcm else None
        body.append(el(rand_id(rng, used), 'E%d%s' % (k, rng.choice(['', 'x', '_y'])), ty, mu=rng.randint(0, 1), ln=ln, pc=pc,
                       gl=int(rng.random() < 0.1)))
    masters = [e for e in body if e['ty'] == 'master']
    if rng.random() < 0.75:
        body.append(el(0xEC, 'Void', 'void', gl=rng.choice([1, 1, 0]), mu=1))
    for e in body:                       # every element has at least one place
        ps = [m for m in masters if m is not e]
        if not ps or rng.random() < 0.35:
            root.append(e['id'])
        else:
            rng.choice(ps)['ch'].append(e['id'])
    for m in masters:                    # extra places, recursion
        for e in rng.sample(body, min(len(body), rng.randint(0, 3))):
            if e['id'] not in m['ch']:
                m['ch'].append(e['id'])
    # elements only reachable through themselves would never be defined
    reach, todo, by = set(), list(root), {e['id']: e for e in body + els}
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += by[i]['ch']
    for e in body:
        if e['id'] not in reach:
            root.append(e['id'])
            reach.add(e['id'])
            todo = list(e['ch'])
            while todo:
                i = todo.pop()
                if i not in reach:
                    reach.add(i)
                    todo += by[i]['ch']
    els += body
    rng.shuffle(root)
    return finish(els, root)


def schema_xml(s):
    by = {e['id']: e for e in s['els']}
    defined = set()

    def one(i):
        e = by[i]
        tag = TAGS[e['ty']]
        if i in defined:
            return '<%s id="0x%X" name="%s"/>' % (tag, i, e['nm'])
        defined.add(i)
        a = ' name="%s" id="0x%X"' % (e['nm'], i)
        if e['mu']:
            a += ' multiple="1"'
        if e['gl']:
            a += ' global="1"'
        if e['ln'] != -1:
            a += ' length="%d"' % e['ln']
        if e['pc'] != PRE.get(e['ty'], 0):
            a += ' precache="%d"' % e['pc']
        if e['df'] != '':
            a += ' default="%s"' % e['df']
        return '<%s%s>%s</%s>' % (tag, a, ''.join(one(c) for c in e['ch']), tag)
    return '<?xml version="1.0"?><Schema>%s</Schema>' % ''.join(one(i) for i in s['root'])


REPO = os.environ.get('VERIF_REPO', '/repo')
SHIPPED = ['matroska.xml', 'mide_ide.xml', 'mide_manifest.xml', 'mide_config_ui.xml']


def from_xml(path):
    """The description of a schema file, read without the library."""
    els, root, by = [], [], {}
    tags = {v: k for k, v in TAGS.items() if k != 'void'}

    def yes(x, k, d):
        return (x.get(k).strip()[:1] in ('T', 't', '1')) if x.get(k) else d

    def rec(x, parent):
        for c in x:
            if c.tag not in tags:
                continue
            i = int(c.get('id'), 16) if c.get('id') else None
            e = next((e for e in els if e['id'] == i or e['nm'] == c.get('name')), None)
            if e is None:
                nm, ty = c.get('name').strip(), tags[c.tag]
                gl = yes(c, 'global', c.get('level') == '-1')
                e = el(i, nm, 'void' if nm == 'Void' else ty, gl=int(gl), mu=int(yes(c, 'multiple', False)),
                       ln=int(c.get('length', -1)) if nm != 'Void' else -1,
                       pc=int(yes(c, 'precache', bool(PRE.get(ty, 0)))) if nm != 'Void' else 0,
                       df=c.get('default') if (i, nm) in [h[:2] for h in HEADER] else None)
                els.append(e)
            ch = root if parent is None else parent['ch']
            if e['id'] not in ch:
                ch.append(e['id'])
            if c.tag == 'MasterElement':
                rec(c, e)
    import xml.etree.ElementTree as ET
    rec(ET.parse(path).getroot(), None)
    d = finish(els, root)
    d['file'] = path
    return d


def shipped():
    return [from_xml(os.path.join(REPO, 'ebmlite', 'schemata', f)) for f in SHIPPED]


def samples(limit=12000):
    """Sample files of the repository, cut between top-level elements (or, inside large ones, anywhere): (schema index, bytes)."""
    out = []
    for k, f in [(2, 'video-1.mkv'), (2, 'video-2.mkv'), (2, 'video-3.mkv'), (2, 'video-4.ebml'), (3, 'SSX46714-doesnot.IDE')]:
        p = os.path.join(REPO, 'tests', f)
        if os.path.exists(p):
            with open(p, 'rb') as fh:
                out.append((k, fh.read(limit)))
    return out


def top_cut(b):
    """The longest prefix of whole top-level elements (of known size)."""
    p = 0
    while p < len(b):
        w = next((n for n, m in ((1, 0x80), (2, 0x40), (3, 0x20), (4, 0x10)) if b[p] & m), 0)
        q = p + w
        if not w or q >= len(b) or b[q] == 0:
            break
        sw = 9 - b[q].bit_length()
        n = int.from_bytes(b[q:q + sw], 'big') & ((1 << 7 * sw) - 1)
        if q + sw > len(b) or n == (1 << 7 * sw) - 1 or q + sw + n > len(b):
            break
        p = q + sw + n
    return b[:p]


def setup_schemas(scratch, rng, tier, n=None, extra=None, pcm=0):
    """1: the fixed schema; 2..5: the schemata shipped with the library; then random ones."""
    n = n or (24 if tier == 'quick' else 120)
    ss = [fixed_schema()] + (shipped() if extra is None else list(extra)) + [rand_schema(rng, pcm) for _ in range(n)]
    path = os.path.join(scratch, 'schemas.json')
    with open(path, 'w') as f:
        json.dump(ss, f)
    return dict(SCHEMAS=path)


_ss = None
_objs = {}


def descs():
    global _ss
    if _ss is None:
        _ss = json.load(open(os.environ['SCHEMAS']))
        for s in _ss:
            s['by'] = {e['id']: e for e in s['els']}
            s['glob'] = {e['id'] for e in s['els'] if e['gl']}
            s['names'] = {e['nm']: e['id'] for e in s['els']}
    return _ss


def lib_schema(k):
    """The library's schema number k (1-based, as in the specification)."""
    if k not in _objs:
        import ebmlite
        d = descs()[k - 1]
        if 'file' in d:
            _objs[k] = ebmlite.loadSchema(d['file'], reload=True)
        else:
            _objs[k] = ebmlite.parseSchema(schema_xml(d), name='vf%d' % k, reload=True)
    return _objs[k]


# --- documents ---------------------------------------------------------------------------

def minw(n):
    w = 1
    while n > 2 ** (7 * w) - 2:
        w += 1
    return w


def size_bytes(n, w):
    return (n | 1 << (7 * w)).to_bytes(w, 'big')


def idb(i):
    return i.to_bytes((i.bit_length() + 7) // 8, 'big')


def render(nodes, known=False):
    out = b''
    for x in nodes:
        pay = render(x['kids'], known) if 'kids' in x else bytes(x['pay'])
        w = max(x['sw'], minw(len(pay)))
        if x.get('unk') and not known:
            out += idb(x['id']) + (2 ** (7 * w + 1) - 1).to_bytes(w, 'big') + pay
        else:
            out += idb(x['id']) + size_bytes(len(pay), w) + pay
    return out


def ty_of(s, i):
    return s['by'][i]['ty'] if i in s['by'] else 'unknown'


def valid_child(s, p, i):
    ch = s['by'][p]['ch']
    return bool(ch) and (i in ch or i in s['glob'])


def settle_unknown(s, tree):
    """Give an explicit size to containers whose end could not be told otherwise."""
    while True:
        flat = []

        def rec(ns, d):
            for x in ns:
                flat.append((d, x))
                if 'kids' in x:
                    rec(x['kids'], d + 1)
        rec(tree, 1)
        ok = True
        for k, (d, x) in enumerate(flat):
            if not x.get('unk'):
                continue
            good = x['id'] in s['by'] and all(valid_child(s, x['id'], c['id']) for c in x['kids'])
            nxt = next((y for e, y in flat[k + 1:] if e <= d), None)
            if nxt is not None and valid_child(s, x['id'], nxt['id']):
                good = False
            if not good:
                x['unk'] = 0
                ok = False
        if ok:
            return tree


def utf(rng, n=10, xml=False):
    t = codec.rtext(rng, maxlen=n)
    if xml:
        t = [c if c >= 32 and c not in (0xFFFE, 0xFFFF) and not 127 <= c < 160 else 32 + c % 95 for c in t]
        if t and rng.random() < 0.25:
            t[rng.randrange(len(t))] = rng.choice([9, 10, 13])
    return ''.join(map(chr, t)).encode('utf8')


def payload(rng, ty, xml=False, big=0.0):
    if ty in ('int', 'uint'):
        return bytes(rng.choice([0, 127, 128, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 8)))
    if ty == 'float':
        return bytes(rng.choice([0, 127, 128, 192, 255, rng.randint(0, 255)]) for _ in range(rng.choice([0, 4, 8, 8])))
    if ty == 'date':
        # years 1 .. 9999 fit easily: +-290 years
        return bytes(rng.choice([0, 127, 128, 255, rng.randint(0, 255)]) for _ in range(8))
    if rng.random() < big:
        n = rng.choice([125, 126, 127, 128, 129, 300, 16382, 16383, 16384])
        if ty in ('str', 'uni'):
            return bytes(rng.randint(97, 122) for _ in range(n))
        return bytes([rng.randint(0, 255)] * n)
    pad = b'\0' * rng.choice([0, 0, 0, 1, 3])
    if ty == 'str':
        if xml or rng.random() < 0.85:
            return bytes(rng.randint(32, 126) for _ in range(rng.randint(0, 10))) + pad
        return bytes(rng.choice([0, 10, 127, 128, 255, rng.randint(0, 255)]) for _ in range(rng.randint(1, 6)))
    if ty == 'uni':
        return utf(rng, xml=xml) + pad + (utf(rng, 3) if pad and rng.random() < 0.3 else b'')
    k = rng.random()
    if k < 0.3:      # bytes that look like elements
        i = rng.choice([0xA1, 0x82, 0xEC, 0x4083, rand_id(rng, set())])
        return idb(i) + bytes([0x80 | rng.randint(0, 6)]) + bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 6)))
    return bytes(rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 9)))


def rand_doc(rng, s, budget=18, p_unk=0.2, p_alien=0.1, p_void=0.08, p_stray=0.1, big=0.0, xml=False, header=0.6, wide=0.4,
             maxdepth=5):
    """A random well-formed document (as a tree)."""
    left = [budget]
    known = [e['id'] for e in s['els'] if e['ty'] != 'void']
    has_void = 'Void' in s['names']

    def width():
        return rng.randint(1, 8) if rng.random() < wide else 1

    def node(i, depth):
        left[0] -= 1
        ty = ty_of(s, i)
        x = dict(id=i, sw=width())
        if ty == 'master':
            x['kids'] = level(s['by'][i]['ch'], depth + 1)
            if rng.random() < p_unk:
                x['unk'] = 1
        else:
            x['pay'] = list(payload(rng, ty, xml, big))
        return x

    def level(ch, depth):
        out = []
        n = rng.choice([0, 1, 2, 2, 3, 4]) if depth > 1 else rng.choice([1, 2, 3, 4, 6])
        if depth > maxdepth:
            n = 0
        for _ in range(n):
            if left[0] <= 0:
                break
            k = rng.random()
            if k < p_alien:
                i = rand_id(rng, set(known) | {0xEC, EBML}) if rng.random() < 0.9 else rng.choice([0x80, 0xFF, 0x4000, 0x7FFF, 0x407E, 0x200000, 0x3FFFFF, 0x10000000, 0x1FFFFFFF])
            elif k < p_alien + p_void and has_void:
                i = 0xEC
            elif k < p_alien + p_void + p_stray or not ch:
                i = rng.choice(known)
                if i == EBML:
                    continue
            else:
                i = rng.choice(ch)
                if i == EBML:
                    continue
            out.append(node(i, depth))
        return out
    tree = level(s['root'], 1)
    if EBML in s['by'] and rng.random() < header:
        hk = []
        for i, nm, t in HEADER:
            if i in s['by'] and rng.random() < 0.8:
                hk.append(dict(id=i, sw=width(), pay=list(b'doc' if t == 'str' else bytes([rng.randint(0, 9)]))))
        tree.insert(0, dict(id=EBML, sw=width(), kids=hk))
    return settle_unknown(s, tree)


def big_doc(rng, s, wide=None, depths=(16, 17, 33, 34, 65)):
    """A container with very many children, or very deep nesting (explicit sizes)."""
    leaves = [e for e in s['els'] if e['ty'] not in ('master', 'void')]
    masters = [e['id'] for e in s['els'] if e['ty'] == 'master' and e['id'] != EBML]
    if not masters:
        return rand_doc(rng, s, p_alien=0.0, xml=True)

    def leaf():
        e = rng.choice(leaves)
        return dict(id=e['id'], sw=1, pay=[] if e['ty'] != 'date' else [0] * 8)
    if rng.random() < 0.5 if wide is None else wide:
        one = rng.random() < 0.5
        x = leaf()
        kids = [dict(x) if one else leaf() for _ in range(rng.choice([127, 128, 129, 255, 256, 257, 300, 520, 1030]))]
        return [dict(id=rng.choice(masters), sw=1, kids=kids), leaf()]
    x = leaf()
    for _ in range(rng.choice(depths)):
        x = dict(id=rng.choice(masters), sw=1, kids=[x] + ([leaf()] if rng.random() < 0.1 else []))
    return [x, leaf()]


def huge_doc(rng, s, types=('bin', 'str', 'uni', 'void', 'unknown')):
    """A document with one payload of about 32 K or 64 K (beyond what a buffer or two bytes hold), in a container or not."""
    els = [e for e in s['els'] if e['ty'] in types]
    n = rng.choice([32767, 32768, 65534, 65535, 65536, 65537, 70001, 131073])
    if els and rng.random() < 0.8:
        e = rng.choice(els)
        i, ty = e['id'], e['ty']
    else:
        i, ty = rand_id(rng, {e['id'] for e in s['els']} | {0xEC, EBML}), 'unknown'
    k = rng.choice([7, 11, 13])
    pay = [97 + j % k for j in range(n)] if ty in ('str', 'uni') else [(j * 5 + j // 251) % 256 for j in range(n)]
    x = dict(id=i, sw=rng.choice([3, 3, 4, 8]), pay=pay)
    leaves = [e for e in s['els'] if e['ty'] not in ('master', 'void', 'date')]
    masters = [e['id'] for e in s['els'] if e['ty'] == 'master' and e['id'] != EBML]

    def leaf():
        e = rng.choice(leaves)
        return dict(id=e['id'], sw=1, pay=list(payload(rng, e['ty'])))
    out = [x] + ([leaf()] if leaves else [])
    if masters and rng.random() < 0.6:
        out = [dict(id=rng.choice(masters), sw=rng.choice([3, 4, 8]), kids=out)] + ([leaf()] if leaves else [])
    return out


def unknown_doc(rng, s):
    """Containers of unknown size with very many children, or nested deeply."""
    leaves = [e for e in s['els'] if e['ty'] not in ('master', 'void', 'date')]
    masters = [e for e in s['els'] if e['ty'] == 'master' and e['id'] != EBML and e['ch']]
    if not masters or not leaves:
        return rand_doc(rng, s, p_unk=1)

    def leaf(ids=None):
        e = rng.choice([x for x in leaves if ids is None or x['id'] in ids] or [None])
        return e and dict(id=e['id'], sw=rng.choice([1, 1, 2]), pay=list(payload(rng, e['ty'])))
    if rng.random() < 0.5:
        m = rng.choice(masters)
        kids = [k for k in (leaf(m['ch']) for _ in range(rng.choice([20, 100, 127, 128, 129, 255, 256, 257, 300]))) if k]
        x = dict(id=m['id'], sw=rng.randint(1, 8), unk=1, kids=kids)
        if rng.random() < 0.3:
            up = [u for u in masters if m['id'] in u['ch']]
            if up:
                x = dict(id=rng.choice(up)['id'], sw=1, unk=rng.randint(0, 1), kids=[x])
        return settle_unknown(s, [x] + [k for k in [leaf(s['root'])] if k])
    m = rng.choice(masters)
    top = x = dict(id=m['id'], sw=1, unk=1, kids=[])
    for _ in range(rng.choice([6, 9, 15, 24])):
        ch = [c for c in m['ch'] if any(c == y['id'] for y in masters)]
        if not ch:
            break
        i = rng.choice(ch)
        m = next(y for y in masters if y['id'] == i)
        y = dict(id=m['id'], sw=rng.choice([1, 1, 4, 8]), unk=int(rng.random() < 0.9), kids=[])
        if rng.random() < 0.3:
            k = leaf(m['ch'])
            y['kids'] += [k] if k else []
        x['kids'].append(y)
        x = y
    k = leaf(m['ch'])
    x['kids'] += [k] if k else []
    return settle_unknown(s, [top] + [k for k in [leaf(s['root'])] if k])


# --- observing -----------------------------------------------------------------------------

LIMIT = 4000


class TooMany(Exception):
    pass


def head(e, d):
    return dict(d=d, id=e.id if isinstance(e.id, int) else -1, off=val.cap(e.offset), poff=val.cap(e.payloadOffset),
                sz=val.cap(e.size) if isinstance(e.size, int) else -1)


def value(e):
    from ebmlite import core
    if isinstance(e, core.MasterElement):
        return [6]
    try:
        return val.pyval(e.value)
    except (TooMany, MemoryError):
        raise
    except Exception:
        return [0]


def walk(it, mode='plain', keep=None):
    """Preorder nodes of everything below a document (or element).  keep: list to receive the elements."""
    from ebmlite import core
    out = []

    def rec(parent, d):
        def visit(e):
            if len(out) > LIMIT:
                raise TooMany()
            if mode == 'len' and isinstance(e, core.MasterElement):
                try:
                    len(e)
                except Exception:
                    pass
            n = head(e, d)
            if mode not in ('late',):
                n['v'] = value(e)
            out.append(n)
            if keep is not None:
                keep.append(e)
            if isinstance(e, core.MasterElement):
                rec(e, d + 1)
        try:
            if mode == 'siblings':
                es, bad = [], False
                it2 = iter(parent)
                try:
                    for e in it2:
                        es.append(e)
                        if len(es) > LIMIT:
                            raise TooMany()
                except TooMany:
                    raise
                except Exception:
                    bad = True
                for e in es:
                    visit(e)
                if bad:
                    raise ValueError
            elif mode == 'index':
                k = 0
                while True:
                    try:
                        e = parent[k]
                    except IndexError:
                        break
                    visit(e)
                    k += 1
            elif mode == 'value' and not isinstance(parent, core.Document):
                for e in parent.value:
                    visit(e)
            elif mode == 'cached':      # (iterated when the children are cached already)
                parent.value
                for e in parent:
                    visit(e)
            else:
                for e in parent:
                    visit(e)
        except TooMany:
            raise
        except Exception:
            out.append(dict(d=d, err=1))
    keep2 = keep
    if mode == 'late':
        keep = [] if keep2 is None else keep2
    rec(it, 1)
    if mode == 'late':       # all values at the end, last first
        vs = [value(e) for e in reversed(keep)]
        for n, v in zip([x for x in out if 'err' not in x], reversed(vs)):
            n['v'] = v
    return out


class Shim:
    """A minimal stream: read, seek and tell only."""
    def __init__(self, b):
        self._b = io.BytesIO(b)

    def read(self, n=-1):
        return self._b.read(n)

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()


def stream_of(b, start=0, kind='bytesio'):
    if kind == 'bytesio':
        f = io.BytesIO(b)
    elif kind == 'shim':
        f = Shim(b)
    else:
        f = tempfile.TemporaryFile()
        f.write(b)
    f.seek(start)
    return f


def load(k, b, start=0, hdr=1, kind='bytesio'):
    return lib_schema(k).load(stream_of(b, start, kind), headers=bool(hdr))


def doc_event(k, b, start=0, wf=1):
    return dict(op='doc', sc=k, d=list(b), s=start, wf=wf)


def nodes_event(k, b, start=0, hdr=1, kind='bytesio', mode='plain'):
    doc = load(k, b, start, hdr, kind)
    return dict(op='nodes', hdr=hdr, kind=kind, mode=mode, nodes=walk(doc, mode))


TRACE = ('TreeTrace', 'TreeTrace.cfg')


def mutants(rng, b, n):
    for _ in range(n):
        x = bytearray(b)
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            if not x:
                break
            k = rng.randint(0, len(x) - 1)
            r = rng.random()
            if r < 0.5:
                x[k] = rng.choice([0, 1, 8, 15, 16, 0x7F, 0x80, 0x81, 0xFE, 0xFF, rng.randint(0, 255)])
            elif r < 0.7:
                x[k] ^= 1 << rng.randint(0, 7)
            elif r < 0.85:
                del x[k]
            else:
                x.insert(k, rng.randint(0, 255))
        yield bytes(x)


def mc(tier, export=True):
    """The writer machine TreeMC on the fixed schema (exhaustive up to a number of elements)."""
    if tier == 'quick':
        return [dict(module='TreeMC', cfg='TreeMC.cfg', name='tree', env=dict(BUDGET='3', EXPORT='1'), export=export, workers=4)]
    return [dict(module='TreeMC', cfg='TreeMC.cfg', name='tree', env=dict(BUDGET='4', EXPORT='1'), export=export, workers=6, heap='6g',
                 timeout=1500),
            dict(module='TreeMC', cfg='TreeMC.cfg', name='deep', env=dict(BUDGET='9', EXPORT='0'), workers=1, heap='3g',
                 extra=('-simulate', 'num=3000', '-depth', '24'), timeout=1500)]


def twin_of(rng, s, **kw):
    """A random document with containers of unknown size: its bytes, and the same with explicit sizes of the same widths."""
    t = rand_doc(rng, s, **kw)
    return render(t), render(t, known=True)


MODES = ['plain', 'late', 'siblings', 'index', 'value', 'len', 'cached']
