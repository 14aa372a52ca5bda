"""Binary data as text, under every layout (specs/TextCodec.tla, TextMC.tla, TextTrace.tla)."""
import io
import random

TRACE = ('TextTrace', 'TextTrace.cfg')


def MC(tier):
    return [dict(module='TextMC', cfg='TextMC.cfg', name='text', env=dict(MAXLEN='7' if tier == 'quick' else '13'), export=True, workers=2, timeout=900)]


def codes(t):
    return [ord(c) for c in (t.decode('latin-1') if isinstance(t, (bytes, bytearray)) else t)]


def rand_opts(rng):
    kind = rng.choice(['hex', 'hex', 'hex', 'base64', 'base64', 'ignore'])
    return dict(kind=kind, cols=rng.choice([-1, 0, 1, 2, 3, 4, 7, 8, 10, 16, 31, 32, 33, 64, 75, 76, 77, 100, 152]), width=rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 16, 40]),
                offs=rng.randint(0, 1), start=rng.choice([0, 1, 5, 15, 16, 255, 999990, 1000000, 123456789, rng.randrange(1 << 30)]),
                indent=[rng.choice([32, 32, 9]) for _ in range(rng.choice([0, 0, 1, 2, 4, 13]))])


def rand_data(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 56, 57, 58, 63, 64, 65, 75, 76, 77, 113, 114, 115, 171, 255, 256, 257, rng.randint(0, 300)])
    r = rng.random()
    if r < 0.7:
        return bytes(rng.randint(0, 255) for _ in range(n))
    if r < 0.85:
        return bytes([rng.choice([0, 255, 10, 13, 32, 91, 0xFB, 0xBF])]) * n
    return bytes(k % 256 for k in range(n))


def cases(tier, rng, exported):
    cs = [dict(o=x['o'], d=x['d'], seed=rng.randrange(1 << 30)) for x in exported['text']]
    if tier == 'quick':
        cs = rng.sample(cs, min(len(cs), 2500))
    for _ in range(2500 if tier == 'quick' else 40000):
        cs.append(dict(o=rand_opts(rng), d=list(rand_data(rng)), seed=rng.randrange(1 << 30)))
    return cs


def codec(o, rng):
    from ebmlite import xml_codecs
    cols = None if o['cols'] == -1 else o['cols']
    if o['kind'] == 'hex':
        return xml_codecs.HexCodec(width=o['width'], cols=cols, offsets=rng.choice([bool, int])(o['offs']))
    if o['kind'] == 'base64':
        if cols == 76 and rng.random() < 0.5:
            return xml_codecs.Base64Codec()
        kw = dict(width=o['width'], offsets=bool(o['offs'])) if rng.random() < 0.3 else {}
        return xml_codecs.Base64Codec(cols=cols, **kw)
    return xml_codecs.IgnoreCodec() if rng.random() < 0.5 else xml_codecs.IgnoreCodec


def rewrap(rng, o, t):
    """The same text wrapped and indented otherwise (between words; base64 anywhere)."""
    if o['kind'] == 'hex':
        words = t.split()
        if rng.random() < 0.3:
            words = [w for w in words if '[' not in w]
        if rng.random() < 0.3:
            words = [w.upper() for w in words]
    else:
        s, words = ''.join(t.split()), []
        k = 0
        while k < len(s):
            n = rng.choice([1, 2, 3, 4, 5, 40, 76, 100])
            words.append(s[k:k + n])
            k += n
    seps = rng.choice([[' '], ['\n'], ['\n    ', ' '], ['\t', '\r\n', '  '], ['\n\n', ' \n', '\n\t\t']])
    out = rng.choice(['', '\n', '  ', '\n\t'])
    for w in words:
        out += w + rng.choice(seps)
    return out if rng.random() < 0.5 else out.rstrip()


def observe(c):
    rng = random.Random(c['seed'])
    o, d = c['o'], bytes(c['d'])
    k = codec(o, rng)
    indent = ''.join(map(chr, o['indent']))
    if rng.random() < 0.3:
        indent = indent.encode()
    kw = {}
    if indent or rng.random() < 0.5:
        kw['indent'] = indent
    if o['start'] or rng.random() < 0.5:
        kw['offset'] = o['start']
    data = rng.choice([bytes, bytearray])(d)
    e = dict(op='enc', o=o, d=list(d), r=1)
    ev = [e]
    pre = rng.choice(['', 'before\n'])
    try:
        text = k.encode(data, **kw)
        out = io.StringIO()
        out.write(pre)
        e['n'] = k.encode(data, stream=out, **kw)
        e['text'], e['stext'] = codes(text), codes(out.getvalue()[len(pre):])
        if not out.getvalue().startswith(pre) or bytes(data) != d or not isinstance(text, str):
            e['stext'] = [-5]
        if rng.random() < 0.3 and k.encode(data, **kw) != text:     # a codec has no memory
            e['stext'] = [-6]
    except Exception as err:
        e['r'], e['err'] = 0, '%s: %s' % (type(err).__name__, str(err)[:100])
        return ev
    if o['kind'] == 'ignore':
        text = rng.choice(['', 'abc', '00 11', '\n'])
    given = [(text, k)]
    given += [(rewrap(rng, o, text), k) for _ in range(2)]
    if o['kind'] != 'ignore':
        given.append((text, type(k)))
    for t, dk in given:
        e = dict(op='dec', o=o, d=list(d), text=codes(t), r=1)
        ev.append(e)
        t = t.encode() if rng.random() < 0.3 else t
        try:
            got = dk.decode(t)
            out = io.BytesIO()
            out.write(pre.encode())
            e['n'] = dk.decode(t, stream=out)
            e['got'], e['sgot'] = list(got), list(out.getvalue()[len(pre):])
            if not isinstance(got, (bytes, bytearray)):
                e['got'] = [-5]
        except Exception as err:
            e['r'], e['err'] = 0, '%s: %s' % (type(err).__name__, str(err)[:100])
    return ev
