"""All ways of looking at a document, reduced to what specs/TreeTrace.tla (ChkViews) compares."""
import base64
import datetime
import io
import random
import re

from . import tree, val

LINE = re.compile(r'^ *(-?\d+) +(-?\d+) (\t*) ([\w-]+) \(ID 0x([0-9A-F]+)\): (.*)$')
UNK = 'UnknownElement'


def idof(sc, name, i=None):
    """The ID a name stands for (-2: it does not go with the ID shown next to it)."""
    if name == UNK:
        return 0 if i is None else (i if i not in sc['by'] else -2)
    x = sc['names'].get(name, -2)
    return x if i is None or i == x else -2


def dumped(sc, d):
    out = []
    for name, v in d.items():
        many = isinstance(v, list)
        out.append(dict(id=idof(sc, name), many=int(many), xs=[dumpval(sc, x) for x in (v if many else [v])]))
    return out


def dumpval(sc, v):
    return dict(m=dumped(sc, v)) if isinstance(v, dict) else dict(v=val.pyval(v))


def content(codec, lines):
    """The bytes shown as text by the named encoding."""
    text = '\n'.join(lines)
    if codec == 'hex':
        return bytes.fromhex(''.join(w for w in text.split() if not w.startswith('[')))
    if codec == 'base64':
        return base64.b64decode(''.join(text.split()), validate=True)
    if text.strip():
        raise ValueError('text without encoding')
    return b''


def listing(sc, text, codec='ignore', void='ignore', values=True, head=3):
    rows, vals = [], []
    lines = text.split('\n')[head:]
    while lines:
        line = lines.pop(0)
        if not line:
            continue
        m = LINE.match(line)
        if not m:
            rows.append([-1, 0, 0, 0, 0])
            vals.append([9])
            continue
        off, sz, tabs, name, i, rest = m.groups()
        i = int(i, 16)
        k = re.match(r'\(master\) (\d+) subelements$', rest)
        rows.append([len(tabs), idof(sc, name, i), int(off), int(sz), int(k.group(1)) if k else -1])
        v, ty = [], tree.ty_of(sc, i)
        if not k and ty in ('bin', 'void', 'unknown'):
            data = []
            while lines and not LINE.match(lines[0]):
                data.append(lines.pop(0))
            c = codec if ty != 'void' or void == 'ignore' else void
            try:
                x = content(c if values else 'ignore', data)
                v = [] if ty == 'void' and not x else val.binval(x)
            except Exception:
                v = [9]
        elif not k:
            try:
                rest = rest.split(') ', 1)
                v = val.pyval(eval(rest[1], dict(datetime=datetime, inf=float('inf'), nan=float('nan')))) if len(rest) > 1 else []
            except Exception:
                v = [9]
        vals.append(v)
    return rows, vals


def xml(sc, root, codec='base64', void='ignore', top=True):
    """Rows, values, and which details (offset, size, ID, type) each element carries."""
    rows, vals, has = [], [], []

    def one(x, d):
            i = int(x.get('id', '-1'), 16)
            if 'id' not in x.attrib:
                i = sc['names'].get(x.tag, -3)
                rows.append([d, -3 if x.tag == UNK else i, int(x.get('offset', '-1')), int(x.get('size', '-1'))])
            else:
                rows.append([d, idof(sc, x.tag, i), int(x.get('offset', '-1')), int(x.get('size', '-1'))])
            ty = tree.ty_of(sc, i)
            has.append([int(a in x.attrib) for a in ('offset', 'size', 'id', 'type')])
            v = []
            t = x.get('value')
            try:
                if ty in ('int', 'uint'):
                    v = val.intval(int(t))
                elif ty == 'float':
                    v = val.floatval(float(t))
                elif ty == 'date':
                    v = val.dateval(datetime.datetime.fromisoformat(t))
                elif ty in ('str', 'uni'):
                    v = val.textval(t)
                elif ty in ('bin', 'unknown'):
                    v = val.binval(content(codec if x.get('encoding') == codec else '?', (x.text or '').split('\n')))
                elif ty == 'void' and content(void, (x.text or '').split('\n')):
                    v = [9]
            except Exception:
                v = [9]
            vals.append(v)
            rec(x, d + 1)

    def rec(x, d):
        for c in x:
            one(c, d)
    if top:
        rec(root, 1)
    else:
        one(root, 0)
    return rows, vals, has


def pos(es):
    return [[e.id, e.offset] for e in es]


CODECS = ['ignore', 'hex', 'base64']
PLAIN = dict(offsets=1, sizes=1, ids=1, types=1, codec='base64', void='ignore', values=1, list='ignore', lvoid='ignore', at=0.0)


def options(rng):
    """What the listing and the XML form are asked to show, and which element is looked at by itself."""
    r = {a: rng.choice([1, 1, 0]) for a in ('offsets', 'sizes', 'ids', 'types', 'values')}
    return dict(r, codec=rng.choice(CODECS), void=rng.choice(CODECS), list=rng.choice(CODECS), lvoid=rng.choice(CODECS), at=rng.random())


def observe(k, b, hdr, depths, order, start=0, kind='bytesio', opts=None):
    """order: a permutation of the views, done one after the other on one document (or, None, each on its own)."""
    from ebmlite import core, util
    o = dict(PLAIN, **(opts or {}))
    sc = tree.descs()[k - 1]
    one = tree.load(k, b, start, hdr, kind) if order else None
    r = dict(op='views', hdr=hdr)

    def kids(e):
        out = []
        for c in (list(e) if isinstance(e, core.Document) else e.value):
            out.append(c)
            if isinstance(c, core.MasterElement):
                out += kids(c)
        return out

    def lens(doc):
        out = []
        for e in util.flatiter(doc):
            if isinstance(e, core.MasterElement):
                out.append(len(e))
        return [len(doc)] + out

    def index(doc):
        out, n = [], 0
        while True:
            try:
                out.append(doc[n])
            except IndexError:
                return pos(out)
            n += 1

    def refused(f):
        try:
            return pos(f())
        except (IndexError, TypeError, NotImplementedError):
            return [[-1, -1]]

    def picks(doc):
        # positions from the end, slices, and beyond the ends; those of documents may be refused
        out, turn = [], random.Random(str(o))
        for m in util.flatiter(doc):
            if isinstance(m, core.MasterElement):
                def fresh():
                    # with and without the children cached
                    if turn.random() < 0.5:
                        m.gc()
                    return m
                n = len(m) if turn.random() < 0.5 else sum(1 for _ in m)
                ways = dict(each=lambda: pos([fresh()[k] for k in range(n)]), back=lambda: pos([fresh()[-k - 1] for k in range(n)]),
                            slice=lambda: pos(fresh()[1:-1]), odd=lambda: pos(fresh()[1::2]),
                            out=lambda: [refused(lambda: [fresh()[n]]), refused(lambda: [fresh()[-n - 1]]), refused(lambda: [fresh()['x']])])
                got = {w: ways[w]() for w in turn.sample(list(ways), len(ways))}
                out.append(got)
        n = len(doc)
        return dict(of=out, last=refused(lambda: [doc[-1]]), slice=refused(lambda: doc[1:-1]), out=[refused(lambda: [doc[n]]), refused(lambda: [doc[-n - 1]])])

    def show(e, head):
        f = io.StringIO()
        util.pprint(e, values=bool(o['values']), out=f, indent='\t', binary_codec=o['list'], void_codec=o['lvoid'])
        return listing(sc, f.getvalue(), o['list'], o['lvoid'], o['values'], head)

    def xmlof(e, top=True):
        return xml(sc, util.toXml(e, offsets=bool(o['offsets']), sizes=bool(o['sizes']), types=bool(o['types']), ids=bool(o['ids']),
                                  binary_codec=o['codec'], void_codec=o['void']), o['codec'], o['void'], top)

    def sub(doc):
        es = list(util.flatiter(doc))
        if not es:
            return dict(at=0)
        k = int(o['at'] * len(es))
        e = es[k]
        l, x = show(e, 2), xmlof(e, False)
        v = e.dump()
        return dict(at=k + 1, flat=pos(util.flatiter(e)), one=pos(util.flatiter(e, 1)), dump=dumpval(sc, v) if isinstance(e, core.MasterElement) or
                    not isinstance(v, dict) else dict(v=[9]), listing=l[0], lvals=l[1], xml=x[0], xvals=x[1], has=x[2])
    fs = dict(index=index, picks=picks, lens=lens, flat=lambda d: [dict(depth=-1 if x is None else x, ids=pos(util.flatiter(d, x) if x is not None
                                                                                              else util.flatiter(d))) for x in depths],
              kids=lambda d: pos(kids(d)), dump=lambda d: dumped(sc, d.dump()), listing=lambda d: show(d, 3), xml=xmlof, sub=sub)
    for name in order or list(fs):
        r[name] = fs[name](one if order else tree.load(k, b, start, hdr, kind))
    r['listing'], r['lvals'] = r['listing']
    r['xml'], r['xvals'], r['has'] = r['xml']
    r['o'] = {a: o[a] for a in ('offsets', 'sizes', 'ids', 'types', 'codec', 'values', 'list')}
    return r
