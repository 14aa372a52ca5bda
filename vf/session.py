"""Sessions of several users in one process, compared with each user alone (specs/Session.tla).

Nothing of the library is executed in the worker process itself: every session, and every user alone, runs in a fork of it."""
import copy
import hashlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback
from xml.etree import ElementTree as ET

from . import data, schemadef, tree, xmlmap

TRACE = ('SessionTrace', 'SessionTrace.cfg')


def twist(rng, s):
    """Another schema over the same IDs and names: other types, or names and IDs combined differently."""
    s = {k: v for k, v in copy.deepcopy(s).items() if k in ('els', 'root')}
    fixed = {h[0] for h in tree.HEADER} | {tree.EBML, 0xEC}
    leaves = [e for e in s['els'] if e['ty'] not in ('master', 'void') and e['id'] not in fixed]
    masters = [e for e in s['els'] if e['ty'] == 'master' and e['id'] not in fixed]
    if rng.random() < 0.7:
        for e in leaves:
            e['ty'] = rng.choice(['int', 'uint', 'float', 'str', 'uni', 'bin'])
            e['ln'], e['pc'], e['df'] = -1, tree.PRE.get(e['ty'], 0), ''
    for group in (leaves, masters):
        if rng.random() < 0.6:
            names = [e['nm'] for e in group]
            rng.shuffle(names)
            for e, n in zip(group, names):
                e['nm'] = n
    for e in s['els']:
        if e['id'] not in fixed and rng.random() < 0.3:
            e['mu'] = 1 - e['mu']
    return tree.finish(s['els'], s['root'])


def ready(s):
    s = dict(s)
    s['by'] = {e['id']: e for e in s['els']}
    s['glob'] = {e['id'] for e in s['els'] if e['gl']}
    s['names'] = {e['nm']: e['id'] for e in s['els']}
    return s


def cast(rng, n):
    """The users: each with two schemata (1, 2), documents, data and XML; related to each other."""
    ss = tree.descs()
    base = [s for s in ss if 'file' not in s]
    a = rng.choice(base)
    pool = [a, ready(twist(rng, a)), ready(twist(rng, a)), rng.choice(base)]
    users = []
    for k in range(n):
        i, j = rng.sample(range(len(pool)), 2)
        users.append(dict(k=k, s=[pool[i], pool[j]], pool=pool, seed=rng.randrange(1 << 30)))
    common = pool[rng.randrange(len(pool))]
    for u in users:
        u['common'] = common
    return users


def short(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:10]


class User:
    def __init__(self, u, world):
        self.u, self.w = u, world
        self.rng = random.Random(u['seed'])       # not shared: the same choices alone and together
        self.S = self.desc = self.doc = None
        self.docs, self.iters = [], []
        self.args = 1
        self.n = 0

    # -- operations; each gives something to compare
    def define(self, v, reload=True):
        from ebmlite import core
        self.desc = self.u['s'][v]
        self.S = core.parseSchema(tree.schema_xml(self.desc), name='n', reload=reload)
        return self.shape()

    def shape(self):
        self.w.keep(self.S)
        return [self.S.type, self.S.name, sorted(schemadef.observed(self.S), key=lambda e: e['id']), self.S.document.__name__, int(schemadef.access(self.S))]

    def op_define1(self):
        return self.define(0)

    def op_define2(self):
        return self.define(1)

    def op_common(self):
        from ebmlite import core
        self.desc = self.u['common']
        self.S = core.parseSchema(tree.schema_xml(self.desc), name='common')
        return self.shape()

    def op_file(self):
        """From a file of its own, edited since."""
        from ebmlite import core
        self.desc = self.rng.choice(self.u['s'])
        p = 'schema%d.xml' % self.u['k']
        with open(p, 'w', encoding='utf-8') as f:
            f.write(tree.schema_xml(self.desc))
        self.S = core.loadSchema(self.rng.choice([p, os.path.abspath(p)]), reload=True)
        return self.shape()

    def op_broken(self):
        from ebmlite import core
        x = tree.schema_xml(self.u['s'][0])
        x = self.rng.choice([x[:-12], x.replace('</Schema>', '<UIntegerElement name="E0" id="0x81"/><UIntegerElement name="E0" id="0x82"/></Schema>'),
                             x.replace('</Schema>', '<FooElement name="Foo" id="0x81"/></Schema>'), ''])
        how = self.rng.randrange(3)
        if how == 0:
            return core.parseSchema(x, name='n', reload=True)
        with open('broken%d.xml' % self.u['k'], 'w') as f:
            f.write(x)
        return core.loadSchema('broken%d.xml' % self.u['k'] if how == 1 else 'nowhere.xml', reload=True)

    def bytes_(self):
        s = self.rng.choice([self.desc, self.desc, self.rng.choice(self.u['pool'])])
        t = tree.rand_doc(self.rng, s, budget=self.rng.choice([3, 8, 16]), xml=True)
        xmlmap.enrich(self.rng, s, t)
        return tree.render(t)

    def op_open(self):
        b = self.bytes_()
        if self.rng.random() < 0.3:
            self.w.stream.seek(0, 2)              # all in one stream
            p = self.w.stream.tell()
            self.w.stream.write(b)
            self.w.stream.seek(p)
            f = Part(self.w.stream, p, len(b))
        else:
            f = io.BytesIO(b)
        self.doc = self.S.load(f, headers=bool(self.rng.randint(0, 1)))
        self.docs.append((self.doc, b))
        self.iters = []
        return [self.doc.type, self.doc.version, self.doc.size, repr(self.doc.info), self.doc.name]

    def op_again(self):
        """The other document once more."""
        self.doc = self.rng.choice(self.docs)[0]
        self.iters = []
        return tree.walk(self.doc)

    def op_read(self):
        return tree.walk(self.doc, self.rng.choice(['plain', 'late', 'siblings', 'index', 'value', 'len']))

    def op_some(self):
        es = []
        for k, e in enumerate(self.doc):
            es.append((e.name, e.id, tree.value(e), e.offset, e.size))
            if k >= self.rng.randint(0, 4):
                break
        return es

    def op_step(self):
        """One iteration, continued by later operations."""
        if not self.iters or self.rng.random() < 0.2:
            self.iters.append(iter(self.doc))
        e = next(self.rng.choice(self.iters), None)
        return None if e is None else [e.name, e.id, e.offset, e.size, tree.value(e), bytes(e.getRaw())]

    def op_clear(self):
        return self.doc.gc(recurse=bool(self.rng.randint(0, 1)))

    def op_raw(self):
        k = self.rng.randint(0, 3)
        return [bytes(e.getRaw()) for e in list(self.doc)[k:k + 2]] + [bytes(self.doc.getRaw())]

    def op_dump(self):
        d = self.doc.dump()
        r = repr(d)
        if self.rng.random() < 0.5:
            spoil(d)
        return r

    def op_export(self):
        from ebmlite import util
        kw = {k: bool(self.rng.randint(0, 1)) for k in ('offsets', 'sizes', 'types', 'ids')}
        kw['binary_codec'] = self.rng.choice(['base64', 'hex', 'ignore'])
        x = util.toXml(self.doc, **kw)
        r = ET.tostring(x).replace(os.getcwd().encode(), b'')
        if self.rng.random() < 0.5:
            for y in x.iter():
                y.attrib.clear()
                y.text = 'spoiled'
        return r

    def op_pprint(self):
        from ebmlite import util
        out = io.StringIO()
        util.pprint(self.doc, out=out, values=bool(self.rng.randint(0, 1)), binary_codec=self.rng.choice(['base64', 'hex', 'ignore']),
                    void_codec=self.rng.choice(['hex', 'ignore']))
        return out.getvalue()

    def op_encode(self, bad=0.0):
        items = data.rand_items(self.rng, self.desc, self.rng.choice([3, 10]), bad)
        d = data.group(self.rng, self.desc, items, top=True)
        before = frozen(d)
        try:
            out = io.BytesIO()
            h = bool(self.rng.randint(0, 1))
            self.S.encode(out, d, headers=h)
            b = out.getvalue()
            if self.rng.random() < 0.5 and self.S.encodes(d, headers=h) != b:
                b = b'not the same'
        finally:
            if frozen(d) != before:
                self.args = 0
        return b

    def op_refused(self):
        return self.op_encode(0.4)

    def op_convert(self, later=False):
        """XML with unknown elements, to EBML."""
        from ebmlite import util
        for _ in range(50):
            c = xmlmap.rand_x2e(self.rng, 0, self.desc)
            if c['doc'] == 1:
                break
        root = ET.Element(self.S.document.__name__)
        for x in c['xs']:
            xmlmap.to_et(self.rng, self.desc, x, root)
        if self.rng.random() < 0.5:
            u = ET.SubElement(root, self.rng.choice(['Stranger', 'UnknownElement', self.rng.choice(self.u['pool'])['els'][0]['nm']]),
                              id='0x%X' % self.rng.choice([0x99, 0x4F4F, self.rng.choice(self.u['pool'])['els'][-1]['id']]))
            u.text = 'AAEC'
        was = ET.tostring(root)
        out = io.BytesIO()
        kw = {} if c['o']['sl'] == -1 else dict(sizeLength=c['o']['sl'])
        try:
            n = util.xml2ebml(root, out, self.S, headers=bool(c['o']['headers']), unknown=bool(c['o']['unknown']), **kw)
        finally:
            if ET.tostring(root) != was:
                self.args = 0
        return [n, out.getvalue()]

    def op_verify(self):
        return self.S.verify(self.bytes_())

    def op_garbage(self):
        b = bytes(self.rng.randrange(256) for _ in range(self.rng.randint(0, 30)))
        return tree.walk(self.S.loads(b))

    def op_list(self):
        from ebmlite import core, util
        out = io.StringIO()
        ps = [os.path.abspath('.'), '{ebmlite}/schemata'][:self.rng.randint(0, 2)]
        was = list(ps)
        util.printSchemata(paths=ps, out=out, absolute=bool(self.rng.randint(0, 1)))
        if ps != was:
            self.args = 0
        return sorted(core.listSchemata('{ebmlite}/schemata').keys())

    def op_ids(self):
        from ebmlite import util
        ex = [0x81, 0x82, 0x4100]
        r = util.createID(self.S, self.rng.choice('abcD'), exclude=ex, count=self.rng.randint(1, 4))
        if ex != [0x81, 0x82, 0x4100]:
            self.args = 0
        return r

    def op_codecs(self):
        from ebmlite import xml_codecs
        n = self.rng.choice(['base64', 'hex', 'ignore'])
        b = bytearray(self.rng.randrange(256) for _ in range(self.rng.randint(0, 90)))
        was = bytes(b)
        c = xml_codecs.BINARY_CODECS[n](**self.rng.choice([{}, dict(cols=self.rng.choice([0, 3, 8]))]))
        r = [c.encode(b), c.encode(b, indent='  ', offset=self.rng.randint(0, 9)), repr(xml_codecs.BINARY_CODECS[n]().encode(b))]
        if b != was:
            self.args = 0
        return r

    def op_close(self):
        self.doc.close()
        self.docs = [x for x in self.docs if x[0] is not self.doc]
        self.doc = None

    def op_brief(self):
        """A document, read and forgotten."""
        s = self.desc
        t = tree.rand_doc(self.rng, s, budget=self.rng.choice([3, 8, 16]), xml=True, p_unk=self.rng.choice([0.3, 1]))
        d = self.S.loads(tree.render(t))
        return [tree.walk(d), len(d)]

    NEED_S = ('brief', 'open', 'encode', 'refused', 'convert', 'verify', 'garbage', 'ids')
    NEED_D = ('read', 'some', 'step', 'clear', 'raw', 'dump', 'export', 'pprint', 'close')

    def do(self, op):
        try:
            if op in self.NEED_S and self.S is None:
                self.op_define1()
            if op in self.NEED_D and self.doc is None or op == 'again' and not self.docs:
                if self.S is None:
                    self.op_define1()
                self.op_open()
        except Exception as err:
            return 'error %s' % type(err).__name__
        self.rng.seed('%d-%d-%s' % (self.u['seed'], self.n, op))
        self.n += 1
        try:
            return getattr(self, 'op_' + op)()
        except Exception as err:
            return 'error %s' % type(err).__name__


class Part(io.RawIOBase):
    """A part of a stream that others use too."""
    def __init__(self, f, start, n):
        self.f, self.start, self.n, self.p = f, start, n, 0

    def seek(self, p, how=0):
        self.p = max(0, p + (0, self.p, self.n)[how])
        return self.p

    def tell(self):
        return self.p

    def read(self, n=-1):
        n = max(0, self.n - self.p) if n is None or n < 0 else max(0, min(n, self.n - self.p))
        self.f.seek(self.start + self.p)
        self.p += n
        return self.f.read(n)

    def readable(self):
        return True

    def seekable(self):
        return True

    def close(self):
        pass


def frozen(d):
    """What a data structure holds, and which objects it consists of."""
    if isinstance(d, dict):
        return ('dict', id(d), [(frozen(k), frozen(v)) for k, v in d.items()])
    if isinstance(d, (list, tuple)):
        return (type(d).__name__, id(d), [frozen(v) for v in d])
    return (type(d).__name__, repr(d))


def spoil(d):
    if isinstance(d, dict):
        for v in list(d.values()):
            spoil(v)
        d.clear()
        d['spoiled'] = 1
    elif isinstance(d, list):
        for v in d:
            spoil(v)
        d.append('spoiled')
    elif isinstance(d, bytearray):
        d[:] = b'spoiled'


class World:
    def __init__(self):
        self.objs, self.stream = [], io.BytesIO()

    def keep(self, s):
        if not any(s is o for o in self.objs):
            self.objs.append(s)

    def defs(self):
        return [short([sorted(schemadef.observed(o), key=lambda e: e['id']), schemadef.access(o), o.type, o.name]) for o in self.objs]

    def tables(self):
        from ebmlite import core, xml_codecs
        return short([sorted((k, v.__name__) for k, v in xml_codecs.BINARY_CODECS.items()), [str(x) for x in core.SCHEMA_PATH],
                      [(k.__name__, k.id, k.name, repr(k.schema), k.dtype.__name__, k.precache, k.length, k.multiple, k.mandatory, repr(k.children))
                       for k in (core.UnknownElement, core.VoidElement, core.MasterElement, core.BinaryElement, core.StringElement, core.UnicodeElement,
                                 core.IntegerElement, core.UIntegerElement, core.FloatElement, core.DateElement)]])


def session(users, hist):
    """[[user, operation]...] in this process: events."""
    w = World()
    us = [User(u, w) for u in users]
    ev = []
    for a, op in hist:
        u = us[a]
        u.args = 1
        r = u.do(op)
        ev.append(dict(op='step', a=a + 1, what=op, r=short(r), args=u.args, defs=w.defs(), tables=w.tables(), err=r if isinstance(r, str) else ''))
    return ev


def apart(fn):
    """The result of fn() in a fork of this process."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 20)
            tmp = tempfile.mkdtemp(prefix='ses')
            os.chdir(tmp)
            try:
                res = dict(ok=fn())
            except BaseException as err:
                res = dict(err='%s: %s' % (type(err).__name__, err), tb=traceback.format_exc()[-1500:])
            os.chdir('/')
            shutil.rmtree(tmp, ignore_errors=True)
            with os.fdopen(wr, 'w') as f:
                f.write(json.dumps(res))
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    res = json.loads(text) if text else dict(err='died')
    if 'err' in res:
        raise RuntimeError(res['err'] + '\n' + res.get('tb', ''))
    return res['ok']


def keep(c):
    """Data given to the encoder in many ways: [what, its bytes or error, arguments as they were] for each."""
    rng = random.Random(c['seed'])
    k = rng.choice([2, 3, 4, 5, rng.randint(1, len(tree.descs())), rng.randint(1, len(tree.descs()))])
    sc, S, ev = tree.descs()[k - 1], tree.lib_schema(k), []
    for _ in range(12):
        m = rng.choice([e for e in sc['els'] if e['ty'] == 'master' and e['ch']] or [None])
        ids = sc['root'] if m is None or rng.random() < 0.3 else m['ch']
        ids = [i for i in ids if i != tree.EBML] or ids
        left = [rng.choice([2, 10, 30])]
        ids = rng.sample(ids, len(ids))[:rng.choice([3, 9, 17, 40])]
        items = [dict(id=i, val=data.value(rng, sc, sc['by'][i], left, 2)) for i in ids]
        if rng.random() < 0.2:
            items = items + items
        d = data.group(rng, sc, items, top=ids[0] in sc['root'] and rng.random() < 0.5)
        doc = [lambda: S.encodes(d), lambda: (lambda f: (S.encode(f, d), f.getvalue())[1])(io.BytesIO())]
        cls = S[m['nm']] if m is not None else None
        ways = doc + ([] if cls is None else [lambda: cls.encodePayload(d), lambda: cls.encode(d), lambda: cls.encode(d, lengthSize=8), lambda: cls.encode(d, infinite=True)])
        if items and rng.random() < 0.5:
            x = rng.choice(items)
            d, el = data.form(rng, sc, x['val']), S[x['id']]
            ways = [lambda: el.encode(d), lambda: el.encodePayload(d), lambda: el.encode([d, d])]
        way = rng.choice(ways)
        was, rs = frozen(d), []
        for _ in range(2):
            try:
                rs.append(short(bytes(way()).hex()))
            except Exception as err:
                rs.append('error %s' % type(err).__name__)
        ev.append(dict(op='keep', sc=k, r=rs, args=int(frozen(d) == was)))
    return ev


def ops_of(c):
    if c['kind'] == 'model':
        return [(e['a'] - 1, e['op']) for e in c['hist']]
    return [tuple(x) for x in c['hist']]


def observe(c):
    rng = random.Random(c['seed'])
    if c['kind'] == 'keep':
        return apart(lambda: keep(c))
    users = cast(rng, c['users'])
    hist = ops_of(c)
    alone = []
    tables = None
    for k in range(c['users']):
        ev = apart(lambda: session(users, [h for h in hist if h[0] == k]))
        alone.append([e['r'] for e in ev])
    tables = apart(lambda: World().tables())
    return [dict(op='new', alone=alone, tables=tables)] + apart(lambda: session(users, hist))


OPS = (['define1', 'define2', 'common', 'file', 'broken'] + ['open'] * 3 + ['brief', 'again', 'read', 'read', 'some', 'step', 'step', 'clear', 'raw', 'dump', 'export', 'pprint'] +
       ['encode', 'refused', 'convert', 'convert', 'verify', 'garbage', 'list', 'ids', 'codecs', 'close'])


def rand_case(rng):
    if rng.random() < 0.1:                        # many documents, one after another
        n = rng.choice([3, 4, 5])
        return dict(kind='random', users=n, seed=rng.randrange(1 << 30), hist=[[a, 'common'] for a in range(n)] + [[rng.randrange(n), 'brief'] for _ in range(24)])
    n = rng.choice([2, 2, 3, 4])
    return dict(kind='random', users=n, seed=rng.randrange(1 << 30), hist=[[rng.randrange(n), rng.choice(OPS)] for _ in range(rng.choice([6, 12, 25]))])
