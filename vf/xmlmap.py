"""Conversions between EBML and XML (specs/XmlMap.tla)."""
import base64
import binascii
import io
import os
import random
import tempfile
import xml.etree.ElementTree as ET

from . import data, tree, val

TRACE = ('XmlTrace', 'XmlTrace.cfg')


def carriable(c):
    return c in (9, 10, 13) or 32 <= c < 0xD800 or 0xE000 <= c < 0xFFFE or c > 0xFFFF


# --- EBML to XML and back -------------------------------------------------------------------

def codec(rng, name):
    from ebmlite import xml_codecs
    if name == 'base64':
        return rng.choice(['base64', xml_codecs.Base64Codec(), xml_codecs.Base64Codec(cols=rng.choice([0, None, 1, 7, 76, 100]))])
    if name == 'hex':
        return rng.choice(['hex', xml_codecs.HexCodec(), xml_codecs.HexCodec(width=rng.choice([1, 2, 3, 8]), cols=rng.choice([0, None, 1, 5, 32]),
                                                                             offsets=rng.random() < 0.5)])
    return rng.choice(['ignore', xml_codecs.IgnoreCodec()])


def text_payload(rng, ty):
    """Text that XML can carry."""
    pool = [32, 34, 38, 39, 60, 62, 93] + list(range(33, 127))        # (what a string element can hold)
    if ty == 'uni':
        pool += [9, 10, 13, 127, 133, 0xA0, 0xE9, 0x2028, 0x20AC, 0xFFFD, 0x1F600, 0x10FFFF, 0xFEFF, 0xD7FF, 0xE000, 0x300]
    t = ''.join(chr(rng.choice(pool)) for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 20])))
    if rng.random() < 0.15:
        t = rng.choice([' ', ' x ', 'None', '<a>&amp;</a>', ']]>', '0', "''", '"x"', 'True', '0x10'] + ['\n', 'a\r\nb', '\t'] * (ty == 'uni'))
    return t.encode('utf8') + b'\0' * rng.choice([0, 0, 0, 1, 3])


def enrich(rng, s, nodes):
    """Other values for a part of the payloads."""
    for x in nodes:
        if 'kids' in x:
            enrich(rng, s, x['kids'])
            continue
        ty = tree.ty_of(s, x['id'])
        if ty in ('str', 'uni') and rng.random() < 0.6:
            x['pay'] = list(text_payload(rng, ty))
        elif ty == 'float' and rng.random() < 0.4:
            x['pay'] = list(rng.choice([b'', b'\x7f\x80\0\0', b'\xff\x80\0\0', b'\x7f\xc0\0\0', b'\x80\0\0\0', b'\0' * 8, b'\x7f\xf0' + b'\0' * 6, b'\xff\xf0' + b'\0' * 6,
                                        b'\x7f\xf8' + b'\0' * 6, b'\xff\xf8\0\0\0\0\0\1', b'\x80' + b'\0' * 7, b'\0' * 7 + b'\1', b'\0\0\0\1', b'\x7f\x7f\xff\xff',
                                        b'\x7f\xef' + b'\xff' * 6, b'\x3f\xb9\x99\x99\x99\x99\x99\x9a', b'\x3d\xcc\xcc\xcd', b'\x42\x1c\x40\0']))
        elif ty == 'date' and rng.random() < 0.4:
            us = rng.choice([0, 1, -1, 500000, 10 ** 6, -10 ** 6, rng.randint(-9 * 10 ** 15, 9 * 10 ** 15), 86400 * 10 ** 6 * rng.randint(-90000, 90000)])
            x['pay'] = list((us * 1000 + rng.choice([0, 0, 1, 999])).to_bytes(8, 'big', signed=True))
        elif ty in ('void', 'bin', 'unknown') and rng.random() < 0.3:
            x['pay'] = [rng.randint(0, 255)] * rng.choice([0, 1, 2, 3, 55, 56, 57, 58, 126, 127, 128, 129, 300])


def obey(s, nodes):
    """Fixed lengths as the schema says."""
    for x in nodes:
        if 'kids' in x:
            obey(s, x['kids'])
        elif x['id'] in s['by'] and s['by'][x['id']]['ln'] >= 0:
            n, ty = s['by'][x['id']]['ln'], s['by'][x['id']]['ty']
            b = bytes(x['pay'])
            if ty in ('str', 'uni'):
                b = b[:n].decode('utf8', 'ignore').encode('utf8')
            x['pay'] = list((b + bytes(n))[:n])


def rt(c):
    from ebmlite import util
    rng = random.Random(c['seed'])
    S, b, o = tree.lib_schema(c['sc']), bytes(c['b']), c['o']
    e = dict(op='rt', sc=c['sc'], src=list(b), dst=[], n=0, r=1, same=1, o=dict(sizes=o['sizes']), opts=o)
    kw = dict(offsets=bool(o['offsets']), sizes=bool(o['sizes']), types=bool(o['types']), ids=bool(o['ids']),
              binary_codec=codec(rng, o['bin']), void_codec=codec(rng, o['void']))
    if o['bin'] == 'base64' and rng.random() < 0.3:
        del kw['binary_codec']
    if o['void'] == 'ignore' and rng.random() < 0.5:
        del kw['void_codec']
    try:
        doc = S.load(tree.stream_of(b, 0, rng.choice(['bytesio', 'file'])), headers=True)
        if o['part'] >= 0:                  # only a top-level element
            el = doc[o['part']]
            e['src'] = list(el.getRaw())
        else:
            el = doc
        before = tree.walk(el)
        x = util.toXml(el, **kw)
        s1 = ET.tostring(x)
        if rng.random() < 0.5 and ET.tostring(util.toXml(el, **kw)) != s1:
            e['same'] = 0
        if tree.walk(el) != before or el.getRaw() != bytes(e['src']):
            e['same'] = 0
        with tempfile.TemporaryDirectory() as tmp:
            how = o['how']
            given = x
            if how == 'tree':
                given = ET.ElementTree(x)
            elif how in ('file', 'path'):
                given = os.path.join(tmp, 'x.xml')
                ET.ElementTree(x).write(given, encoding=rng.choice(['utf-8', 'us-ascii', 'utf-16']), xml_declaration=True)
                if how == 'path':
                    given = __import__('pathlib').Path(given)
            elif how == 'stream':
                given = rng.choice([io.BytesIO(s1), io.StringIO(ET.tostring(x, encoding='unicode'))])
            target = os.path.join(tmp, 'out.ebml')
            if o['out'] == 'load':
                to = rng.choice([':memory:', ':memory:', target, None])
                d2 = util.loadXml(given, as_given(rng, c['sc']), to) if to or rng.random() < 0.5 else util.loadXml(given, schema=as_given(rng, c['sc']))
                d2.stream.seek(0)
                e['dst'] = list(d2.stream.read())
                e['n'] = len(e['dst'])
                d2.close()
                if os.path.exists(':memory:'):
                    os.remove(':memory:')
                    raise AssertionError('wrote a file')
                if to is None:
                    os.remove(d2.filename)
            elif o['out'] == 'file':
                t = target if rng.random() < 0.5 else __import__('pathlib').Path(target)
                e['n'] = util.xml2ebml(given, t, as_given(rng, c['sc']), headers=bool(o['headers']))
                with open(target, 'rb') as f:
                    e['dst'] = list(f.read())
            else:
                out = io.BytesIO()
                e['n'] = util.xml2ebml(given, out, as_given(rng, c['sc']), headers=bool(o['headers']))
                e['dst'] = list(out.getvalue())
        if tree.walk(el) != before or ET.tostring(x) != s1:
            e['same'] = 0
        doc.close()
    except Exception as err:
        e['r'], e['err'] = 0, '%s: %s' % (type(err).__name__, str(err)[:150])
    return e


def rand_rt(rng, sc, s, big=0.03):
    """A document and options for which nothing is lost."""
    ids = int(rng.random() < 0.75)
    if rng.random() < 0.03:
        t = tree.big_doc(rng, s)
    else:
        t = tree.rand_doc(rng, s, budget=rng.choice([3, 8, 18, 40]), xml=True, p_alien=0.12 if ids else 0.0, big=big)
    enrich(rng, s, t)
    header = any(x['id'] == tree.EBML for x in t)
    sizes = rng.randint(0, 1)
    if not sizes:
        obey(s, t)
    o = dict(offsets=rng.randint(0, 1), sizes=sizes, types=rng.randint(0, 1), ids=ids, bin=rng.choice(['base64', 'base64', 'hex']),
             void=rng.choice(['ignore', 'ignore', 'base64', 'hex']), how=rng.choice(['mem', 'tree', 'file', 'path', 'stream']),
             headers=rng.randint(0, 1) if header or 'EBML' not in s['names'] else 0, out=rng.choice(['mem', 'mem', 'file', 'load']), part=-1)
    if o['out'] == 'load' and not header and 'EBML' in s['names']:
        o['out'] = 'mem'
    if o['out'] != 'load' and rng.random() < 0.1:
        top = [k for k, x in enumerate(t) if x['id'] in s['by'] and (k == 0 or not t[k - 1].get('unk'))]
        if top:
            o['part'] = rng.choice(top)
            o['headers'] = 0
    return dict(sc=sc, b=list(tree.render(t)), o=o, seed=rng.randrange(1 << 30))


# --- XML to EBML ----------------------------------------------------------------------------

def node(tag, id=-1, sl=-1, size=-1, v=(), kids=()):
    return dict(tag=tag, id=id, sl=sl, size=size, v=list(v), kids=list(kids))


def rand_sl(rng):
    r = rng.random()
    return -1 if r < 0.75 else rng.randint(1, 8) if r < 0.99 else 9


def rand_leaf(rng, s, e, bad):
    x = node(e['nm'], sl=rand_sl(rng))
    ty, ln = e['ty'], e['ln']
    if ty == 'void':
        x['v'], x['size'] = [5], rng.choice([0, 1, 5, 126, 127, 128, 300])
        return x
    if ty in ('str', 'uni'):
        while True:
            t = text_payload(rng, ty).rstrip(b'\0').decode('utf8')
            if rng.random() < 0.04:
                t = 'x' * rng.choice([126, 127, 128, 300])
            n = len(t.encode('utf8'))
            if ln < 0 or n <= ln:
                break
        x['v'] = val.textval(t)
        if rng.random() < 0.3:
            x['size'] = n + rng.choice([0, 0, 1, 5]) if ln < 0 else ln
    else:
        e2 = e
        if rng.random() < 0.3:
            x['size'] = dict(int=rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8]), uint=rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8]), float=rng.choice([4, 8]), date=8).get(ty, -1) if ln < 0 else ln
            if x['size'] > 0:
                e2 = dict(e, ln=x['size'])
        while True:
            v = data.scalar(rng, e2, False)
            if v['k'] == 's' and (ty != 'bin' or v['v'][0] == 5):
                break
        x['v'] = v['v']
        if bad and ty in ('int', 'uint'):
            x['v'] = val.intval(data.edge(rng, ty, min(x['size'], 8)) if x['size'] > 0 and rng.random() < 0.6 else rng.choice([-1, 256, -129, 2 ** 64, -2 ** 63 - 1, 2 ** 63, 70000, -2 ** 64]))
        if bad and ty == 'float' and x['size'] == 4:
            x['v'] = val.floatval(rng.choice([-1, 1]) * rng.choice([3.4028234663852886e38, 3.5e38, 1e39, 1e300]))
        if ty == 'bin' and ln < 0 and rng.random() < 0.3:
            x['size'] = len(x['v']) - 1
        if ty == 'bin' and ln < 0 and rng.random() < 0.02:
            k, x['size'] = rng.choice([126, 127, 128, 16382, 16383, 16384]), -1
            x['v'] = [5] + [j * 7 % 256 for j in range(k)]
        if ty == 'float' and x['size'] == -1 and ln == 0:
            x['v'] = val.floatval(0.0)
    return x


def rand_xs(rng, s, left, depth, ids, bad, unk):
    xs = []
    names = list(s['names'])
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4]) if depth > 1 else rng.randint(1, 4)):
        if left[0] <= 0:
            break
        left[0] -= 1
        r = rng.random()
        if r < 0.06:
            xs.append(node('#'))
            continue
        if r < 0.06 + unk:
            i = tree.rand_id(rng, set(s['by'])) if rng.random() > bad else rng.choice([-1, -1, 0, 5, 0x7F, 0x1FF, 0x3FFF, 0x8111, 0x1FFFFF, 0x202020, 0x0FFFFFFF, 0x20000000])
            xs.append(node(rng.choice(['UnknownElement', 'Mystery', 'Foo.bar', 'Element_7']), id=i,
                           sl=rand_sl(rng), v=[5] + [rng.randint(0, 255) for _ in range(rng.choice([0, 1, 5, 130]))]))
            if rng.random() < 0.3:
                xs[-1]['size'] = len(xs[-1]['v']) - 1
            if rng.random() < 0.08:         # the ID of a known element
                e = rng.choice([e for e in s['els'] if e['ty'] in ('bin', 'uint', 'str')] or [dict(id=xs[-1]['id'])])
                xs[-1]['id'] = e['id']
                xs[-1]['v'], xs[-1]['size'] = [5, 65, 66], -1
            continue
        i = rng.choice(ids) if ids and rng.random() < 0.85 else s['names'][rng.choice(names)]
        if i == tree.EBML and (depth > 1 or rng.random() < 0.6):
            continue
        e = s['by'][i]
        if e['ty'] == 'master':
            x = node(e['nm'], sl=rand_sl(rng))
            if rng.random() < 0.15:
                x['size'] = rng.choice([0, 1, 126, 127, 130, 20000, 300000])       # an estimate only
            x['kids'] = rand_xs(rng, s, left, depth + 1, e['ch'], bad, unk) if depth < 6 else []
            xs.append(x)
        else:
            xs.append(rand_leaf(rng, s, e, rng.random() < bad))
    return xs


def rand_x2e(rng, sc, s):
    bad = rng.choice([0, 0, 0, 0.05, 0.2])
    xs = rand_xs(rng, s, [rng.choice([3, 8, 20, 40])], 1, s['root'], bad, rng.choice([0, 0.05, 0.2]))
    if rng.random() < 0.12:          # one number, at or beyond the edge of its size
        es = [e for e in s['els'] if e['ty'] in ('int', 'uint', 'float')]
        if es:
            xs = [rand_leaf(rng, s, rng.choice(es), rng.random() < 0.8)]
    doc = 1
    r = rng.random()
    xs0 = [x for x in xs if x['tag'] in s['names']]
    if r < 0.16 and xs0:
        xs, doc = [rng.choice([x for x in xs0 if x['kids']] or xs0)], 0
    elif r < 0.19:
        doc = -1
    return dict(sc=sc, xs=xs, doc=doc, o=dict(sl=rng.choice([-1, -1, -1, 1, 2, 3, 4, 5, 6, 7, 8]), headers=rng.randint(0, 1), unknown=int(rng.random() < 0.8)),
                seed=rng.randrange(1 << 30))


def to_et(rng, s, x, parent=None):
    if x['tag'] == '#':
        c = rng.choice([ET.Comment('a comment'), ET.ProcessingInstruction('pi', 'x')])
        parent.append(c)
        return c
    el = ET.Element(x['tag']) if parent is None else ET.SubElement(parent, x['tag'])
    at = {}
    if x['id'] != -1:
        at['id'] = rng.choice(['0x%X', '0x%x', '%X'])  % x['id']
    if x['sl'] != -1:
        at['sizeLength'] = str(x['sl'])
    if x['size'] != -1:
        at['size'] = str(x['size'])
    if rng.random() < 0.2:
        at['offset'] = str(rng.randrange(1000))
    if rng.random() < 0.2:
        at['type'] = rng.choice(['int', 'str', 'list', 'bytearray'])
    v = x['v']
    if v and v[0] == 5:
        if x['tag'] == 'Void':
            el.text = rng.choice([None, '', '\n  '])
        else:
            b = bytes(v[1:])
            k = rng.choice(['', 'base64', 'hex'])
            if k:
                at['encoding'] = k
            t = (binascii.hexlify(b) if k == 'hex' else base64.b64encode(b)).decode()
            if rng.random() < 0.4:
                n = rng.choice([2, 4, 8, 76])
                t = '\n  ' + '\n  '.join(t[i:i + n] for i in range(0, len(t), n)) + '\n'
            el.text = t or rng.choice([None, '', ' '])
            if rng.random() < 0.15:     # (a comment within the text)
                n = rng.randint(0, len(t))
                c = rng.choice([ET.Comment('a comment'), ET.ProcessingInstruction('pi', 'x')])
                el.text, c.tail = t[:n], t[n:]
                el.append(c)
    elif v:
        p = val.topy(v)
        if v[0] == 1:
            at['value'] = rng.choice([str(p), str(p), hex(p)])
        elif v[0] == 2:
            at['value'] = rng.choice([repr(p), str(p), '%.17e' % p])
        elif v[0] == 4:
            at['value'] = rng.choice([p.isoformat(), str(p), p.isoformat(' ', 'microseconds')])
        elif p or rng.random() < 0.5:       # (no value: empty, or refused)
            at['value'] = p
    keys = list(at)
    rng.shuffle(keys)
    for k in keys:
        el.set(k, at[k])
    for y in x['kids']:
        to_et(rng, s, y, el)
    if not v and rng.random() < 0.2:
        el.text = '\n  '
    return el


def novalue(xs):
    return int(any(x['v'] == [3] or novalue(x['kids']) for x in xs))


def as_given(rng, k):
    """A schema object, or the name of its file."""
    d = tree.descs()[k - 1]
    if 'file' in d and rng.random() < 0.3:
        return rng.choice([str, __import__('pathlib').Path])(d['file'])
    return tree.lib_schema(k)


def x2e(c):
    from ebmlite import util
    rng = random.Random(c['seed'])
    s, S, o = tree.descs()[c['sc'] - 1], tree.lib_schema(c['sc']), c['o']
    name = S.document.__name__
    if c['doc'] == 0:
        root = to_et(rng, s, c['xs'][0])
    else:
        root = ET.Element(name if c['doc'] == 1 else 'NoSuchDocument')
        if rng.random() < 0.5:
            root.set('schemaName', S.name)
            root.set('source', 'x')
        for x in c['xs']:
            to_et(rng, s, x, root)
    kw = {}
    if o['sl'] != -1:
        kw['sizeLength'] = o['sl']
    if not o['headers'] or rng.random() < 0.5:
        kw['headers'] = rng.choice([bool, int])(o['headers'])
    if not o['unknown'] or rng.random() < 0.5:
        kw['unknown'] = rng.choice([bool, int])(o['unknown'])
    pre = bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 0, 1, 5, 40])))
    post = b'\xEE' * rng.choice([0, 0, 3, 200])
    text = ET.tostring(root)
    e = dict(op='x2e', sc=c['sc'], xs=c['xs'], doc=c['doc'], o=o, novalue=novalue(c['xs']), r=1, n=0, pre=list(pre), end=len(pre), all=[], same=1)
    how = rng.choice(['el', 'el', 'tree', 'file', 'stream'])
    with tempfile.TemporaryDirectory() as tmp:
        given = root
        if how == 'tree':
            given = ET.ElementTree(root)
        elif how == 'file':
            given = os.path.join(tmp, 'x.xml')
            ET.ElementTree(root).write(given, encoding='utf-8', xml_declaration=True)
        elif how == 'stream':
            given = io.BytesIO(text)
        kind = rng.choice(['mem', 'mem', 'stream', 'path'])
        target = os.path.join(tmp, 'out')
        try:
            if kind == 'path':
                e['pre'], e['end'] = [], 0
                if rng.random() < 0.5:
                    with open(target, 'wb') as f:
                        f.write(b'old contents' * 20)
                out = None
                e['n'] = util.xml2ebml(given, target, as_given(rng, c['sc']), **kw)
            else:
                out = io.BytesIO() if kind == 'mem' else open(target, 'w+b')
                out.write(pre + post)
                out.seek(len(pre))
                e['n'] = util.xml2ebml(given, out, as_given(rng, c['sc']), **kw)
                e['end'] = out.tell()
        except Exception as err:
            e['r'], e['err'] = 0, '%s: %s' % (type(err).__name__, str(err)[:120])
        if out is None:
            b = open(target, 'rb').read() if os.path.exists(target) else b''
            e['end'] = len(b)
        else:
            out.seek(0)
            b = out.read()
            out.close()
    e['all'] = list(b[:len(b) if out is None else max(e['end'], len(pre))])
    if ET.tostring(root) != text:
        e['same'] = 0
    return e


PROBE = bytes([0x82, 0x81, 5, 0x85, 0x82, 1, 2, 0xA1, 0x84, 0x99, 0x82, 7, 8, 0x7F, 0x7E, 0x81, 9])


class Later:
    """Documents whose reading must not change."""
    def __init__(self, scs):
        from ebmlite import core, xml_codecs
        self.scs = sorted(set(scs))
        self.core, self.codecs = core, xml_codecs
        self.was = self.look()

    def look(self):
        c = self.core
        return ([tree.walk(tree.lib_schema(k).loads(PROBE)) for k in self.scs], dict(self.codecs.BINARY_CODECS), list(c.SCHEMA_PATH),
                [(k.__name__, k.id, k.name, k.schema) for k in (c.UnknownElement, c.VoidElement, c.MasterElement, c.BinaryElement)],
                [sorted((e['id'], e['nm'], e['ty'], e['mu']) for e in shape(tree.lib_schema(k))) for k in self.scs])

    def event(self):
        now = self.look()
        return dict(op='later', same=int(now == self.was))


def shape(S):
    from . import schemadef
    return schemadef.observed(S)
