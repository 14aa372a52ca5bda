"""Conversion between Python values and the specification's values (specs/Scalar.tla)."""
import datetime
import math
import struct

EPOCH = datetime.datetime(2001, 1, 1)
CAP = 1 << 30


def mag(n):
    n = abs(n)
    return list(n.to_bytes((n.bit_length() + 7) // 8, 'big')) if n else []


def cap(n):
    """A length/offset as a TLC integer."""
    return n if -CAP < n < CAP else CAP


def intval(n):
    return [1, 1 if n < 0 else 0] + mag(n)


def floatval(x):
    if math.isnan(x):
        return [2]
    return [2] + list(struct.pack('>d', x))


def textval(s):
    return [3] + [ord(c) for c in s]


def dateval(d):
    t = d - EPOCH
    return [4, t.days, t.seconds, t.microseconds]


def binval(b):
    return [5] + list(b)


def pyval(v):
    """Any value returned by an ebmlite element -> specification value."""
    if isinstance(v, bool):
        return [9, int(v)]
    if isinstance(v, int):
        return intval(v)
    if isinstance(v, float):
        return floatval(v)
    if isinstance(v, str):
        return textval(v)
    if isinstance(v, datetime.datetime):
        return dateval(v)
    if isinstance(v, (bytes, bytearray)):
        return binval(v)
    return [9]


def topy(v):
    """Specification value -> Python value (for feeding the library)."""
    k = v[0]
    if k == 1:
        n = int.from_bytes(bytes(v[2:]), 'big')
        return -n if v[1] else n
    if k == 2:
        return struct.unpack('>d', bytes(v[1:]))[0] if len(v) > 1 else float('nan')
    if k == 3:
        return ''.join(map(chr, v[1:]))
    if k == 4:
        return EPOCH + datetime.timedelta(v[1], v[2], v[3])
    if k == 5:
        return bytes(v[1:])
    raise ValueError(v)
