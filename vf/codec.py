"""Executes one codec call (C03..C07) and records it for specs/CodecTrace.tla."""
import datetime
import io
import math
import random
import struct

from . import val

NO = [0]
_schemas = {}

ELEMS = [('int', 'IntegerElement', 0x4101), ('uint', 'UIntegerElement', 0x4102), ('float', 'FloatElement', 0x4103),
         ('date', 'DateElement', 0x4104), ('str', 'StringElement', 0x4105), ('uni', 'UnicodeElement', 0x4106),
         ('bin', 'BinaryElement', 0x4107), ('void', None, 0xEC), ('unknown', None, 0x4FFF)]


def elem_schema():
    if 'e' not in _schemas:
        import ebmlite
        x = ''.join('<%s name="E%s" id="0x%X"/>' % (tag, ty, i) for ty, tag, i in ELEMS if tag)
        x += '<BinaryElement name="Void" id="0xEC" global="1" multiple="1"/>'
        _schemas['e'] = ebmlite.parseSchema('<Schema>%s</Schema>' % x, name='vf-elems', reload=True)
    return _schemas['e']


def attempt(f):
    """The outcome of a call: <<0>> if it raises, else <<1>> followed by what f makes of it."""
    try:
        return [1] + f()
    except Exception:
        return NO


def enc(f, *a):
    def g():
        r = f(*a)
        if not isinstance(r, (bytes, bytearray)):
            return [-1]
        return list(r)
    return attempt(g)


def dec(f, d, *a):
    def g():
        s = io.BytesIO(bytes(d))
        r = f(s, *a)
        return val.pyval(r)
    return attempt(g)


def num(c):
    n = int.from_bytes(bytes(c['v']), 'big')
    return -n if c.get('neg') else n


def observe(c):
    from ebmlite import encoding as E, decoding as D, util as U
    op = c['op']
    e = dict(c)
    n = c.get('n')
    ln = None if n == -1 else n
    if op == 'encSize':
        e['r'] = enc(E.encodeSize, None if c['unk'] else num(c), ln)
    elif op == 'getLength':
        e['r'] = attempt(lambda: [int(E.getLength(num(c)))])
    elif op == 'decSize':
        def f():
            s = io.BytesIO(bytes(c['d']))
            size, w = D.readElementSize(s)
            if s.tell() != w:
                return [w, -1]
            return [w, 1] if size is None else [w, 0] + val.mag(size)
        e['r'] = attempt(f)
    elif op == 'encId':
        e['r'] = enc(E.encodeId, num(c), ln)
    elif op == 'decId':
        def f():
            s = io.BytesIO(bytes(c['d']))
            i, w = D.readElementID(s)
            return [w if s.tell() == w else -1] + val.mag(i)
        e['r'] = attempt(f)
    elif op == 'validId':
        def f():
            return [] if U.validateID(num(c)) is True else [-1]
        e['r'] = attempt(f)
    elif op == 'createId':
        import ebmlite
        key = tuple(c['inschema'])
        if key not in _schemas:
            x = ''.join('<BinaryElement name="E%d" id="0x%X"/>' % (i, i) for i in c['inschema'])
            _schemas[key] = ebmlite.parseSchema('<Schema>%s</Schema>' % x, name='vf-ids', reload=True)
        kw = {}
        if c['hasMin']:
            kw['minId'] = c['min']
        if c['hasMax']:
            kw['maxId'] = c['max']
        if c['hasCount']:
            kw['count'] = c['count']
        ex = [tuple, list, set, frozenset][c['exkind']](c['exclude'])
        e['r'] = attempt(lambda: [int(x) for x in U.createID(
            _schemas[key], c['cls'].lower() if c['lower'] else c['cls'], ex, **kw)])
        e['excl'] = c['exclude'] + c['inschema']
    elif op in ('encInt', 'encUInt'):
        e['r'] = enc(E.encodeInt if op == 'encInt' else E.encodeUInt, val.topy(c['v']), ln)
    elif op == 'encFloat':
        e['r'] = enc(E.encodeFloat, val.topy(c['v']), ln)
    elif op == 'encDate':
        e['r'] = enc(E.encodeDate, val.topy(c['v']), ln)
    elif op in ('encStr', 'encUni'):
        e['r'] = enc(E.encodeString if op == 'encStr' else E.encodeUnicode, ''.join(map(chr, c['v'])), ln)
    elif op == 'encBin':
        b = bytes(c['v'])
        e['r'] = enc(E.encodeBinary, bytearray(b) if c.get('ba') else b, ln)
    elif op in ('decInt', 'decUInt', 'decFloat', 'decDate', 'decStr', 'decUni'):
        f = dict(decInt=D.readInt, decUInt=D.readUInt, decFloat=D.readFloat, decDate=D.readDate,
                 decStr=D.readString, decUni=D.readUnicode)[op]
        e['r'] = dec(f, list(c['d']) + [0xA5, 0x5A], len(c['d']))     # bytes after the payload are not its
    elif op == 'elem':
        sch = elem_schema()
        eid = {ty: i for ty, _t, i in ELEMS}[c['ty']]
        d = bytes(c['d'])
        hdr = E.encodeId(eid) + bytes([0x40 | len(d) >> 8, len(d) & 255])

        def f():
            doc = sch.loads(hdr + d + b'\xEC\x81\x33')
            el = next(iter(doc))
            if el.id != eid:
                return [-1]
            return val.pyval(el.value)
        e['r'] = attempt(f)
    elif op == 'encElem':
        # through the element class of a schema: header and payload
        sch = elem_schema()
        eid = {ty: i for ty, _t, i in ELEMS}[c['ty']]
        v = ''.join(map(chr, c['v'][1:])) if c['v'][0] == 3 else val.topy(c['v'])
        e['id'] = list(eid.to_bytes(2, 'big'))
        e['r'] = enc(sch.elements[eid].encode, v, ln)
    return [e]


# --- random values -----------------------------------------------------------------------

def rint(rng, bits):
    k = rng.randint(0, bits)
    n = rng.getrandbits(k) if k else 0
    if rng.random() < 0.3:
        n = (1 << rng.randint(0, bits)) + rng.randint(-2, 2)
    return max(0, n)


def rfloat(rng):
    k = rng.random()
    if k < 0.4:
        return struct.unpack('>d', rng.getrandbits(64).to_bytes(8, 'big'))[0]
    if k < 0.6:
        return struct.unpack('>f', rng.getrandbits(32).to_bytes(4, 'big'))[0]
    if k < 0.8:
        return math.ldexp(rng.uniform(-2, 2), rng.randint(-152, 130))
    # near a single-precision tie
    f = struct.unpack('>f', rng.getrandbits(32).to_bytes(4, 'big'))[0]
    if math.isnan(f) or math.isinf(f):
        return f
    b = struct.unpack('>Q', struct.pack('>d', f))[0]
    b = (b & ~0x1fffffff) | rng.choice([0x10000000, 0x10000001, 0x0fffffff, 0x1fffffff])
    return struct.unpack('>d', b.to_bytes(8, 'big'))[0]


def rdate(rng):
    k = rng.random()
    if k < 0.3:
        us = rng.randint(-9223372036854775, 9223372036854775)
    elif k < 0.6:
        us = rng.randint(-10**9, 10**9)
    elif k < 0.8:
        us = rng.choice([1, -1]) * rng.randint(0, 3 * 10**15)
    else:
        us = rng.choice([-1, 1]) * (9223372036854775 + rng.randint(-3, 3))
    return val.EPOCH + datetime.timedelta(microseconds=us)


def rtext(rng, ascii_only=False, maxlen=12):
    n = rng.randint(0, maxlen)
    pools = [lambda: rng.randint(32, 126)] if ascii_only else [
        lambda: rng.randint(32, 126), lambda: rng.randint(32, 126), lambda: rng.randint(1, 31), lambda: rng.randint(127, 0x7FF),
        lambda: rng.choice([rng.randint(0x800, 0xD7FF), rng.randint(0xE000, 0xFFFF)]), lambda: rng.randint(0x10000, 0x10FFFF),
        lambda: rng.choice([0xFEFF, 0xFFFE, 0xFFFF, 0x20, 9, 10, 13, 0x85, 0xA0, 0x301, 0x2028, 0x3000, 0xAD, 0xFFFD])]
    return [rng.choice(pools)() for _ in range(n)]


def mc(kind, tier):
    return [dict(module='CodecMC', cfg='CodecMC.cfg', name=kind, env=dict(KIND=kind, DEEP='1' if tier == 'thorough' else '0'),
                 export=True, workers=4)]


TRACE = ('CodecTrace', 'CodecTrace.cfg')
