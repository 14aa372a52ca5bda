"""Schema definitions as sequences of items (specs/SchemaDef.tla), and what the library makes of them."""
import io
import os
import xml.etree.ElementTree as ET

TRACE = ('SchemaTrace', 'SchemaTrace.cfg')


def codes(s):
    return [ord(c) for c in s]


def text(v):
    return ''.join(map(chr, v))


def xml(items, old=False):
    root = ET.Element('table' if old else 'Schema')
    els = []
    for it in items:
        parent = root if it['p'] == 0 else els[it['p'] - 1]
        els.append(ET.SubElement(parent, it['tag'], {a['k']: text(a['v']) for a in it['at']}))
        if it.get('doc'):
            els[-1].text = it['doc']
    return ET.tostring(root, encoding='unicode')


def items_of(path):
    """The items of a schema file."""
    out = []

    def rec(x, p):
        for c in x:
            if not isinstance(c.tag, str):
                continue
            out.append(dict(tag=c.tag, p=p, at=[dict(k=k, v=codes(v)) for k, v in c.attrib.items()]))
            rec(c, len(out))
    root = ET.parse(path).getroot()
    rec(root, 0)
    return out, int(root.tag == 'table')


def ty_of(cls):
    from ebmlite import core
    for name, ty in (('VoidElement', 'void'), ('MasterElement', 'master'), ('DateElement', 'date'), ('UIntegerElement', 'uint'), ('IntegerElement', 'int'),
                     ('FloatElement', 'float'), ('UnicodeElement', 'uni'), ('StringElement', 'str'), ('BinaryElement', 'bin')):
        if issubclass(cls, getattr(core, name)):
            return ty
    return '?'


def num(n):
    return -1 if n is None else n if isinstance(n, int) else -9


def flag(b):
    return 1 if b is True else 0 if b is False else 9


def observed(s):
    """The elements of a schema object, by all ways to reach them."""
    els = []
    for i, c in s.elements.items():
        info = s.elementInfo[i]
        els.append(dict(id=c.id, nm=codes(c.name), ty=ty_of(c), mu=flag(c.multiple), ma=flag(c.mandatory), pc=flag(c.precache), ln=num(c.length),
                        gl=int(i in s.globals), df=codes(info['default']) if 'default' in info else [-1], ch=sorted(c.children or ())))
    return els


def access(s):
    """Every element is reachable by ID and by name, and nothing else is."""
    ok = True
    for i, c in s.elements.items():
        ok = ok and c.id == i and s[i] is c and s[c.name] is c and s.get(i) is c and s.get(c.name) is c and i in s and c.name in s and c.schema is s \
            and s.elementsByName[c.name] is c
    ok = ok and len(s.elements) == len(s.elementsByName) and set(s.globals) <= set(s.elements) and all(s.globals[i].id == i for i in s.globals)
    for k in ('No such', 0x123456, 0, '', None, -1):
        ok = ok and k not in s and s.get(k) is None and s.get(k, 5) == 5
    for k in ('No such', 0x123456):
        try:
            s[k]
            ok = False
        except KeyError:
            pass
    ok = ok and s.document.schema is s and set(s.document.children) == set(s.children)
    return int(ok)


def event(items, old=False, how='parse', arg='', fn='schema.xml'):
    """Load a definition in one of several ways; base: the name of the file it comes from, without extension."""
    import ebmlite
    from ebmlite import core
    src = xml(items, old)
    e = dict(op='def', items=items, old=int(old), ok=1, arg=codes(arg), base=[])
    path = os.path.join(os.environ.get('TMPDIR', '/tmp'), fn)
    kw = {'name': arg} if arg else {}
    try:
        if how in ('file', 'class', 'stream'):
            with open(path, 'w', encoding='utf-8') as f:
                f.write('<?xml version="1.0" encoding="utf-8"?>\n' + src)
            e['base'] = codes(os.path.splitext(fn)[0])
        if how == 'file':
            s = ebmlite.loadSchema(path, reload=True, **kw)
        elif how == 'class':
            s = core.Schema(path, **kw)
        elif how == 'stream':
            with open(path, 'rb') as f:
                s = core.Schema(f, **kw)
        elif how == 'string':
            s = core.Schema(io.StringIO(src), **kw)
        elif how == 'bytes':
            s = core.Schema(io.BytesIO(src.encode()), **kw)
        else:
            s = ebmlite.parseSchema(src, reload=True, **kw)
    except Exception as err:
        e['ok'] = 0
        e['err'] = '%s: %s' % (type(err).__name__, str(err)[:150])
        return e, None
    finally:
        if os.path.exists(path):
            os.unlink(path)
    t, v = s.type, s.version
    e.update(els=observed(s), root=sorted(s.children), access=access(s), name=codes(s.name or ''), type=[-1] if t is None else codes(t), version=num(v))
    return e, s


# -- random definitions
TAGS = ['MasterElement', 'MasterElement', 'IntegerElement', 'UIntegerElement', 'FloatElement', 'StringElement', 'UnicodeElement', 'DateElement', 'BinaryElement']
OLD = dict(zip(TAGS, ['master', 'master', 'integer', 'uinteger', 'float', 'string', 'utf-8', 'date', 'binary']))
TRUE, FALSE = ['1', 'true', 'True', 'T', ' 1', 't '], ['0', 'false', 'False', 'F', 'f', ' 0 ']


def rand_attrs(rng, tag):
    at = {}
    for k in ('multiple', 'mandatory', 'precache', 'global'):
        r = rng.random()
        if r < 0.25:
            at[k] = rng.choice(TRUE)
        elif r < 0.4:
            at[k] = rng.choice(FALSE + [''] * (k != 'global'))
    if tag != 'MasterElement' and rng.random() < 0.2:
        at['length'] = rng.choice(['1', '4', '8', '0x8', ' 4 ', '16', '0x10', '0'])
    if rng.random() < 0.2:
        at['level'] = rng.choice(['-1', '-1', '0', '1', '2', ' -1'])
    if rng.random() < 0.2:
        at['default'] = rng.choice(['1', '0', 'abc', '', ' x', 'é'])
    if rng.random() < 0.2:
        at['minver'] = rng.choice(['1', '2'])
    if rng.random() < 0.1:
        at['description'] = 'some text'
    return at


def rand_items(rng, n, old=False, bad=0.3):
    """Mostly sensible definitions, with mentions and (rate bad, per definition) one thing wrong or odd."""
    items, defs = [], []                    # defs: (tag, attributes)
    ids = [0x82, 0xA1, 0xEC, 0x4282, 0x4287, 0x4286, 0x1A45DFA3, 0x4083, 0x2ABCDE, 0x15EE01, 0xBF, 0xA3, 0x41A0, 0x10203040]
    rng.shuffle(ids)
    names = ['A', 'Bb', 'C_c', '_d', 'EBMLVersion', 'Long-er.Name', 'x1', 'UInt', 'Segment', 'Q', 'Z9', 'Ab', 'AB', 'R']
    rng.shuffle(names)

    def put(tag, at, p):
        at = dict(at)
        keys = list(at)
        rng.shuffle(keys)
        if old and tag in OLD:
            at.setdefault('type', OLD[tag])
            keys.append('type') if 'type' not in keys else None
        items.append(dict(tag='element' if old and tag.endswith('Element') else tag, p=p, at=[dict(k=k, v=codes(at[k])) for k in keys]))

    def path():
        """Where the next item may be nested: the XML path of the last one."""
        out, k = [0], len(items)
        while k:
            if items[k - 1]['tag'] == 'MasterElement':
                out.append(k)
            k = items[k - 1]['p']
        return out
    wrong = rng.randrange(n) if rng.random() < bad else -1
    for k in range(n):
        ps = [0] if old else path()
        p = max(ps) if rng.random() < 0.5 else rng.choice(ps)
        r = rng.random()
        if k == wrong:
            kind = rng.choice(['noid', 'noname', 'badname', 'badid', 'badtype', 'conflict', 'conflict', 'type', 'type', 'mixed', 'newname', 'newid', 'empty', 'extra'])
            tag = rng.choice(TAGS)
            if kind in ('conflict', 'type', 'mixed', 'newname', 'newid', 'extra') and defs:
                tag, at = rng.choice(defs)
                at = dict(at)
                if kind == 'type':
                    tag = rng.choice([t for t in TAGS if t != tag])
                    if rng.random() < 0.5:
                        del at[rng.choice(['id', 'name'])]
                    if old:
                        at['type'] = OLD[tag]
                elif kind == 'conflict':
                    ks = [x for x in at if x not in ('id', 'name', 'type')]
                    if ks:
                        x = rng.choice(ks)
                        at[x] = '1' if at[x].strip()[:1] not in ('1', 't', 'T') else '0'
                    else:
                        at['default'] = 'other'
                elif kind == 'extra':
                    x = rng.choice(['multiple', 'mandatory', 'global', 'default'])
                    at[x] = '1' if x != 'default' else 'q'
                elif kind == 'mixed' and len(defs) > 1:
                    at['id'] = rng.choice(defs)[1]['id']
                elif kind == 'newname':
                    at['name'] = 'Unheard'
                elif kind == 'newid':
                    at['id'] = '0x4FFF'
                put(tag, at, p)
                continue
            at = dict(rand_attrs(rng, tag), id='0x4ABC', name='Fresh')
            if kind == 'noid':
                del at['id']
            elif kind == 'noname':
                del at['name']
            elif kind == 'badname':
                at['name'] = rng.choice(['1abc', '-x', ' 9', '.n', '"q'])
            elif kind == 'empty':
                at['name'] = rng.choice(['', '  '])
            elif kind == 'badid':
                at['id'] = rng.choice(['0xZZ', 'id', '', '0x', '12G'])
            elif kind == 'badtype':
                if old:
                    at['type'] = rng.choice(['int', 'Master', '', 'utf8'])
                else:
                    tag = rng.choice(['FooElement', 'Element', 'integerElement', 'UnsignedElement', 'VoidElement'])
            put(tag, at, p)
        elif r < 0.25 and defs:             # an element mentioned again
            tag, at = rng.choice(defs)
            keep = [x for x in at if x in ('id', 'name')]
            keep = keep if rng.random() < 0.4 else [rng.choice(keep)]
            keep += [x for x in at if x not in ('id', 'name') and rng.random() < 0.4]
            put(tag, {x: at[x] for x in keep}, p)
        elif r < 0.32 and not old:
            put(rng.choice(['Note', 'SchemaInfo', 'Description']), {'id': '0x99', 'name': 'Ignored'} if rng.random() < 0.5 else {}, p)
        elif ids and names:
            tag = rng.choice(TAGS)
            at = rand_attrs(rng, tag)
            i, nm = ids.pop(), names.pop()
            if i == 0xEC:
                nm = rng.choice(['Void', nm])
                tag = 'BinaryElement'
            if i in (0x4282, 0x4287):
                nm = {0x4282: 'DocType', 0x4287: 'DocTypeVersion'}[i]
                at['default'] = rng.choice(['mydoc', 'My Doc', 'x']) if i == 0x4282 else rng.choice(['1', '12', ' 3', 'x'])
            form = rng.choice(['0x%X', '0x%X', '0x%x', '%X', '0X%X', ' 0x%X '])
            at = dict(at, id=form % i, name=nm if rng.random() < 0.9 else ' %s ' % nm)
            defs.append((tag, at))
            put(tag, at, p)
    return items


def variant(rng, items):
    """Another definition: the same, reordered attributes, or something changed."""
    items = [dict(it, at=[dict(a) for a in it['at']]) for it in items]
    r = rng.random()
    for it in items:
        if rng.random() < 0.5:
            rng.shuffle(it['at'])
    if r < 0.3 or not items:
        return items
    it = rng.choice(items)
    if r < 0.5 and it['tag'] in TAGS:
        it['tag'] = rng.choice(TAGS[2:])
    elif r < 0.75 and it['at']:
        a = rng.choice(it['at'])
        a['v'] = codes(dict(id='0x4BBB', name='Other').get(a['k'], rng.choice(['1', '0', '2'])))
    elif r < 0.85:
        return items[:-1]
    else:
        it['at'] = [a for a in it['at'] if a['k'] != 'multiple'] + [dict(k='multiple', v=codes('1'))]
    return items


def eq_event(a, b):
    from ebmlite import core
    try:
        x, y = (core.Schema(io.StringIO(xml(i))) for i in (a, b))
    except Exception:
        return None
    return dict(op='eq', a=a, b=b, r=int(x == y), ne=int(x != y))
