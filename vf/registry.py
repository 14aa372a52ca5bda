"""Histories of loading, searching and listing schemata (specs/Registry.tla) in a scratch file system."""
import importlib
import io
import json
import os
import pathlib
import shutil
import sys
import tempfile
import subprocess
from xml.etree import ElementTree as ET

from . import schemadef, tree

TRACE = ('RegistryTrace', 'RegistryTrace.cfg')

# version: (definition, what it defines: (ID, name, type, multiple, children), document)
VERSIONS = {
    1: ('<Schema><MasterElement name="M" id="0xA1" multiple="1"><UIntegerElement name="A" id="0x82"/></MasterElement></Schema>',
        [(0xA1, 'M', 'master', 1, [0x82]), (0x82, 'A', 'uint', 0, [])], bytes([0xA1, 0x83, 0x82, 0x81, 7])),
    2: ('<Schema><MasterElement name="M" id="0xA1" multiple="1"><BinaryElement name="A" id="0x82"/></MasterElement><StringElement name="B" id="0x83"/></Schema>',
        [(0xA1, 'M', 'master', 1, [0x82]), (0x82, 'A', 'bin', 0, []), (0x83, 'B', 'str', 0, [])], bytes([0xA1, 0x83, 0x82, 0x81, 7, 0x83, 0x81, 65])),
    3: ('<Schema><IntegerElement name="M" id="0x82"/><StringElement name="A" id="0xA1"/><StringElement name="DocType" id="0x4282" default="doc"/></Schema>',
        [(0x82, 'M', 'int', 0, []), (0xA1, 'A', 'str', 0, []), (0x4282, 'DocType', 'str', 0, [])], bytes([0xA1, 0x83, 65, 66, 67, 0x82, 0x81, 255])),
    4: ('<Schema><StringElement name="DocType" id="0x4282" default="doc"/><UIntegerElement name="C" id="0x81" multiple="1"/></Schema>',
        [(0x4282, 'DocType', 'str', 0, []), (0x81, 'C', 'uint', 1, [])], bytes([0x81, 0x81, 5, 0x81, 0x81, 6])),
    5: ('<table><element name="A" id="0x82" type="uinteger" multiple="1"/></table>',
        [(0x82, 'A', 'uint', 1, [])], bytes([0x82, 0x81, 7])),
}
NOTHING = ['', 'no XML at all', '<Schema><UIntegerElement name="A"', '<Foo><UIntegerElement name="A" id="0x82"/></Foo>', '<html/>', '\x00\x01', '<Schema>', '<schema/>']
CONFLICT = ['<Schema><UIntegerElement name="A" id="0x82"/><UIntegerElement name="A" id="0x83"/></Schema>', '<Schema><FooElement name="A" id="0x82"/></Schema>',
            '<Schema><UIntegerElement name="A"/></Schema>', '<Schema><UIntegerElement id="0x82"/></Schema>', '<table><element name="A" id="0x82" type="what"/></table>',
            '<Schema><MasterElement name="M" id="0xA1"><UIntegerElement name="A" id="0x82"/><FloatElement name="A" id="0x82"/></MasterElement></Schema>']


def text_of(v, n=0):
    if v > 0:
        return VERSIONS[v][0]
    bad = NOTHING + CONFLICT if v == -2 else NOTHING
    return bad[n % len(bad)]


def libdir():
    from ebmlite import schemata
    return os.path.realpath(os.path.dirname(schemata.__file__))


def libnames():
    out = []
    for f in sorted(os.listdir(libdir())):
        if f.lower().endswith('.xml') and ET.parse(os.path.join(libdir(), f)).getroot().tag == 'Schema':
            out.append(f)
    return out


def shows(s):
    """The version a schema object shows (-1: none; 9: one that comes with the library)."""
    if s.filename and os.path.dirname(s.filename) == libdir() and s.name and 'EBML' in s:
        return 9
    got = sorted((e['id'], schemadef.text(e['nm']), e['ty'], e['mu'], e['ch']) for e in schemadef.observed(s))
    for v, (_, els, _) in VERSIONS.items():
        if got == sorted(els) and schemadef.access(s):
            return v
    return -1


_count = [0]


class World:
    """A scratch folder with folders c1, c2, c1/sub, p1, p2 and a package m (m/sub a folder in it)."""
    DIRS = ['c1', 'c2', 'c1/sub', 'p1', 'p2', 'm', 'm/sub', 'm/sub/sub']

    def __init__(self, sp=None):
        from ebmlite import core
        self.core = core
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='reg'))
        _count[0] += 1
        self.mod = 'vfmod%d_%d' % (os.getpid(), _count[0])
        for d in self.DIRS:
            os.makedirs(self.real(d), exist_ok=True)
        open(os.path.join(self.real('m'), '__init__.py'), 'w').close()
        sys.path.insert(0, self.root)
        importlib.invalidate_caches()
        self.saved = (os.getcwd(), list(core.SCHEMA_PATH), dict(core.SCHEMATA))
        core.SCHEMATA.clear()
        self.objs, self.docs = [], []
        self.cwd = None
        self.ev = [dict(op='new')]

    @classmethod
    def inside(cls, given):
        """The world as seen by a process just started in it."""
        from ebmlite import core
        w = cls.__new__(cls)
        w.core, w.root, w.mod, w.cwd, w.objs, w.docs, w.ev = core, given['root'], given['mod'], given['cwd'], [], [], []
        return w

    def start(self, ens, steps):
        """A fresh process with the entries in EBMLITE_SCHEMA_PATH (None: unset), taking steps."""
        for f in libnames():
            self.ev.append(dict(op='write', d='lib', f=f, v=9))
        e = dict(op='start', paths=self.plain(ens or []))
        self.ev.append(e)
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path if x))
        env.pop('EBMLITE_SCHEMA_PATH', None)
        if ens is not None:
            env['EBMLITE_SCHEMA_PATH'] = os.pathsep.join(str(x) for x in self.entries(ens))
        given = dict(root=self.root, mod=self.mod, cwd=self.cwd, steps=steps)
        r = subprocess.run([sys.executable, '-c', 'from vf import registry; registry.child()'], env=env, input=json.dumps(given), capture_output=True,
                           text=True, timeout=60)
        try:
            got = json.loads(r.stdout)
        except ValueError:
            got = [dict(op='crashed', err=r.stderr[-300:])]
        self.ev += got

    def real(self, d):
        return os.path.join(self.root, *[self.mod if x == 'm' else x for x in d.split('/')])

    def ident(self, path):
        """'dir/file' of a path."""
        path = os.path.realpath(path)
        if os.path.dirname(path) == libdir():
            return 'lib/' + os.path.basename(path)
        if not path.startswith(self.root + os.sep):
            return '?' + path
        return '/'.join('m' if x == self.mod else x for x in os.path.relpath(path, self.root).split(os.sep))

    def done(self):
        c = self.core
        os.chdir(self.saved[0])
        c.SCHEMA_PATH[:] = self.saved[1]
        c.SCHEMATA.clear()
        c.SCHEMATA.update(self.saved[2])
        sys.path.remove(self.root)
        for m in [m for m in sys.modules if m == self.mod or m.startswith(self.mod + '.')]:
            del sys.modules[m]
        shutil.rmtree(self.root, ignore_errors=True)
        return self.ev

    # -- steps
    def write(self, d, f, v, n=0):
        p = os.path.join(self.real(d), f)
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
        if v == -3:
            os.mkdir(p)
        elif v:
            with open(p, 'w', encoding='utf-8') as g:
                g.write(text_of(v, n))
        self.ev.append(dict(op='write', d=d, f=f, v=v))

    def chdir(self, d):
        os.chdir(self.real(d))
        self.cwd = d
        self.ev.append(dict(op='chdir', d=d))

    def entry(self, en):
        """An entry of a search path as given to the library; en: k, d and how it is written (w)."""
        k, w = en['k'], en.get('w', 0)
        if k == 'cwd':
            return '' if w % 2 == 0 else pathlib.Path('.')
        if k == 'rel':
            return en['d'] if w % 2 == 0 else pathlib.Path(en['d'])
        if k == 'none':
            return [os.path.join(self.root, 'nowhere'), '{no_such_module_%d}' % w, '{%s.nothing}' % self.mod, os.path.join(self.root, 'no', 'where'),
                    pathlib.Path(self.root) / 'gone', '{no_such.module}', '{no_such}/sub', '{%s}/none' % self.mod][w % 8]
        d = en['d']
        if d == 'm':
            if w % 4 == 3:
                return importlib.import_module(self.mod)
            return ['{%s}' % self.mod, self.real(d), pathlib.Path(self.real(d))][w % 4]
        if d == 'm/sub':
            return ['{%s}/sub' % self.mod, self.real(d), '{%s}\\sub' % self.mod][w % 3]
        if d == 'm/sub/sub':
            return ['{%s}/sub/sub' % self.mod, self.real(d)][w % 2]
        return self.real(d) if w % 2 == 0 else pathlib.Path(self.real(d))

    def entries(self, ens):
        return [self.entry(x) for x in ens]

    @staticmethod
    def plain(ens):
        return [dict(k=x['k'], d=x['d']) for x in ens]

    def path(self, ens):
        self.core.SCHEMA_PATH[:] = self.entries(ens)
        self.ev.append(dict(op='path', paths=self.plain(ens)))

    def watch(self, lists):
        return [list(self.core.SCHEMA_PATH), id(self.core.SCHEMA_PATH), [list(x) for x in lists], os.getcwd(), os.environ.get('EBMLITE_SCHEMA_PATH')]

    def loading(self, e, fn, lists=()):
        c = self.core
        before, reg = self.watch(lists), dict(c.SCHEMATA)
        try:
            s = fn()
        except Exception as err:
            s, e['err'] = None, '%s: %s' % (type(err).__name__, str(err)[:120])
        e['same'] = int(self.watch(lists) == before)
        e['regsame'] = int(len(reg) == len(c.SCHEMATA) and all(c.SCHEMATA.get(k) is v for k, v in reg.items()))
        e['r'] = 0
        if s is not None:
            n = next((k + 1 for k, o in enumerate(self.objs) if o is s), None)
            if n is None:
                self.objs.append(s)
                n = len(self.objs)
                v = shows(s)
                b = VERSIONS[v][2] if v in VERSIONS else b''
                doc = s.loads(b)
                self.docs.append((doc, b, tree.walk(s.loads(b)), v))
            e['r'] = n
        e['vs'] = [shows(o) for o in self.objs]
        e['froms'] = ['' if o.filename is None else self.ident(o.filename) for o in self.objs]
        e['docs'] = 1
        for o, (doc, b, nodes, v) in zip(self.objs, self.docs):
            if tree.walk(doc) != nodes or tree.walk(o.loads(b)) != nodes or any(x['u'] for x in nodes if 'u' in x):
                e['docs'] = 0
        self.ev.append(e)

    def load(self, name, bare, d, f, reload=0, given=None):
        """name: what is passed; d, f: the file it denotes (d only if not bare)."""
        kw = {}
        if reload:
            kw['reload'] = True
        lists = []
        if given is not None:
            kw['paths'] = self.entries(given)
            lists.append(kw['paths'])
        self.loading(dict(op='load', key=self.key(str(name)), bare=bare, d=d, f=f, reload=reload, given=int(given is not None), paths=self.plain(given or [])),
                     lambda: self.core.loadSchema(name, **kw), lists)

    def key(self, s):
        return s.replace(self.root, '').replace(self.mod, 'm')

    def parse(self, v, name, reload=0, n=0, stream=0):
        src = text_of(v, n)
        own = name is None
        key = name
        if own:
            key = 'doc' if v in (3, 4) else ''
        kw = {} if own else {'name': name}
        if reload:
            kw['reload'] = True
        self.loading(dict(op='parse', key=key, own=int(own), v=max(v, -1), reload=reload),
                     lambda: self.core.parseSchema(io.StringIO(src) if stream else src, **kw))

    def where(self, p, relative):
        """The file a listed path denotes."""
        p = str(p)
        if p.startswith('{'):
            m, rest = p[1:].split('}', 1)
            p = self.root + os.sep + m.replace('.', os.sep) + rest.replace('\\', os.sep)
        return self.ident(p)

    def list(self, names, given=None, relative=0, printed=0, to=0):
        """printed: by printSchemata (given paths come before the search path)."""
        from ebmlite import util
        lists = [self.entries(given)] if given is not None else []
        e = dict(op='list', names=[n for n in names if n.lower().endswith('.xml')], given=0 if given is None else (2 if printed else 1),
                 paths=self.plain(given or []), r=1, found=[])
        before = self.watch(lists)
        try:
            if printed:
                out = io.StringIO()
                target = out if not to else os.path.join(self.root, 'listing.txt')
                kw = dict(absolute=not relative)
                if lists:
                    kw['paths'] = lists[0]
                util.printSchemata(out=target, **kw)
                got = out.getvalue()
                if to:
                    with open(target) as g:
                        got = g.read()
                    os.unlink(target)
                for line in got.splitlines():
                    if line.startswith('    '):
                        e['found'][-1]['at'].append(self.where(line[4:], relative))
                    else:
                        e['found'].append(dict(f=line, at=[]))
            else:
                r = self.core.listSchemata(*(lists[0] if lists else []), **({'absolute': False} if relative else {}))
                e['found'] = [dict(f=k, at=[self.where(p, relative) for p in v]) for k, v in r.items()]
        except Exception as err:
            e['r'], e['err'] = 0, '%s: %s' % (type(err).__name__, str(err)[:120])
        e['same'] = int(self.watch(lists) == before)
        self.ev.append(e)

    # -- names of a file
    def name_of(self, d, f, w):
        """A name of the file f in folder d, which says where it is."""
        real = os.path.join(self.real(d), f)
        forms = [real, real, os.path.join('..', *['..'] * self.cwd.count('/'), self.key_dir(d), f), os.path.relpath(real)]
        if d in ('m', 'm/sub', 'm/sub/sub'):
            forms += ['{%s}%s/%s' % (self.mod, d[1:], f)] * 2
        if d != self.cwd and w % 3 == 0:
            s = forms[3]
        else:
            s = forms[w % len(forms)]
        if os.sep not in s:                     # would be a bare name
            s = real
        return pathlib.Path(s) if w % 5 == 0 else s

    def key_dir(self, d):
        return '/'.join(self.mod if x == 'm' else x for x in d.split('/'))


# -- random histories
def rand_path(rng, cwd, cwdtoo=True):
    ens, dirs = [], ['p1', 'p2', 'm', 'm/sub', 'm/sub/sub', 'c1']
    rng.shuffle(dirs)
    for d in dirs[:rng.randint(0, 4)]:
        ens.append(dict(k='dir', d=d, w=rng.randrange(12)))
    if cwdtoo and rng.random() < 0.4:
        ens.insert(rng.randint(0, len(ens)), dict(k='cwd', d='', w=rng.randrange(2)))
    if rng.random() < 0.15:
        ens.insert(rng.randint(0, len(ens)), dict(k='rel', d='sub', w=rng.randrange(2)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        ens.insert(rng.randint(0, len(ens)), dict(k='none', d='', w=rng.randrange(8)))
    return ens


def distinct(ens, cwd):
    ds = [cwd if x['k'] == 'cwd' else cwd + '/' + x['d'] if x['k'] == 'rel' else x['d'] for x in ens if x['k'] != 'none']
    return len(set(ds)) == len(ds)


def legacy_free(w):
    return all(e.get('v') != 5 for e in w.ev if e['op'] == 'write')


def caching(rng, n):
    w = World()
    try:
        files = [(d, f) for d in ('c1', 'c2', 'p1', 'p2', 'm', 'm/sub', 'm/sub/sub', 'c1/sub') for f in ('x.xml', 'y.xml')]
        for d, f in files:
            if rng.random() < 0.5:
                w.write(d, f, rng.choice([1, 2, 3, 4, 5, 1, 2, -1]), rng.randrange(50))
        w.chdir(rng.choice(['c1', 'c2', 'p1']))
        w.path([x for x in rand_path(rng, w.cwd)])
        for _ in range(n):
            r = rng.random()
            if r < 0.15:
                d, f = rng.choice(files)
                v = rng.choice([1, 2, 3, 4, 5, 0, -1, -2, -2])
                w.write(d, f, v, rng.randrange(50))
                if v == -2:
                    w.ev[-1]['v'] = -1
            elif r < 0.2:
                w.chdir(rng.choice(['c1', 'c2', 'p1']))
            elif r < 0.24:
                w.path(rand_path(rng, w.cwd))
            elif r < 0.36:
                w.parse(rng.choice([1, 2, 3, 4, 5, -2]), rng.choice(['x.xml', 'doc', 'doc', 'my schema']) if rng.random() < 0.8 else None, int(rng.random() < 0.35),
                        rng.randrange(50), rng.randint(0, 1))
                if w.ev[-1]['own'] and w.ev[-1]['key'] == '' and w.ev[-1]['v'] > 0:
                    w.ev[-1]['key'] = '(no name)'
            else:
                f = rng.choice(['x.xml', 'y.xml'])
                reload = int(rng.random() < 0.3)
                given = rand_path(rng, w.cwd) if rng.random() < 0.2 else None
                if given == []:
                    given = None
                if rng.random() < 0.5:
                    w.load(pathlib.Path(f) if rng.random() < 0.2 else f, 1, '', f, reload, given)
                elif rng.random() < 0.1:
                    w.load('doc', 1, '', 'doc', reload, given)
                else:
                    d = rng.choice([d for d, g in files if g == f])
                    w.load(w.name_of(d, f, rng.randrange(60)), 0, d, f, reload, given)
    finally:
        w.done()
    return w.ev


def searching(rng, n):
    w = World()
    try:
        names = ['x.xml', 'y.xml', 'Z.XML', 'noext', 'n.txt', 'a b.xml']
        dirs = ['c1', 'c2', 'p1', 'p2', 'm', 'm/sub', 'm/sub/sub', 'c1/sub']
        for d in dirs:
            for f in names:
                if rng.random() < 0.35:
                    w.write(d, f, rng.choice([1, 2, 3, 4, 1, 2, -1, -3]), rng.randrange(50))
        w.chdir(rng.choice(['c1', 'c2', 'c2']))
        w.path(rand_path(rng, w.cwd) or [dict(k='cwd', d='', w=0)])
        for _ in range(n):
            r = rng.random()
            if r < 0.08:
                w.chdir(rng.choice(['c1', 'c2', 'm/sub', 'm/sub/sub']))
            elif r < 0.2:
                w.path(rand_path(rng, w.cwd))
            elif r < 0.3:
                w.write(rng.choice(dirs), rng.choice(names), rng.choice([1, 2, 3, 4, 0, -1, -3]), rng.randrange(50))
            elif r < 0.65:
                given = rand_path(rng, w.cwd) or None if rng.random() < 0.5 else None
                f = rng.choice(names + ['missing.xml'])
                w.load(pathlib.Path(f) if rng.random() < 0.2 else f, 1, '', f, 1, given)
            else:
                given = rand_path(rng, w.cwd) or None if rng.random() < 0.6 else None
                printed = int(rng.random() < 0.3)
                sp = next(e['paths'] for e in reversed(w.ev) if e['op'] == 'path')
                if not distinct((given or []) + sp if printed or not given else given, w.cwd):
                    continue
                w.list(names, given, rng.randint(0, 1), printed, rng.randint(0, 1))
    finally:
        w.done()
    return w.ev


def replay(hist):
    """A history of RegistryMC."""
    w = World()
    try:
        w.write('c1', 'x.xml', 1)
        w.write('p1', 'x.xml', 1)
        w.chdir('c2')
        w.path([dict(k='cwd', d='', w=0), dict(k='none', d='', w=1), dict(k='dir', d='p1', w=0)])
        for n, e in enumerate(hist):
            if e['op'] == 'write':
                w.write(e['d'], e['f'], e['v'], n)
            elif e['op'] == 'chdir':
                w.chdir(e['d'])
            elif e['op'] == 'parse':
                w.parse(e['v'], e['key'], e['reload'], n, n % 2)
            elif e['bare']:
                w.load('x.xml', 1, '', 'x.xml', e['reload'])
            elif e['key'].startswith('..'):
                w.load('../c1/x.xml', 0, 'c1', 'x.xml', 0)
            else:
                w.load(os.path.join(w.real(e['d']), 'x.xml'), 0, e['d'], 'x.xml', e['reload'])
    finally:
        w.done()
    return w.ev


def child():
    given = json.load(sys.stdin)
    w = World.inside(given)
    for x in given['steps']:
        if x['op'] == 'load':
            w.load(x['f'], 1, '', x['f'], x['reload'], x['given'])
        else:
            w.list(x['names'], x['given'], x['relative'], x['printed'])
    print(json.dumps(w.ev))


def starting(rng, n):
    """Loads and listings in a process just started, with more paths from the environment."""
    w = World()
    try:
        names = ['x.xml', 'y.xml'] + libnames()
        dirs = ['c1', 'c2', 'p1', 'p2', 'm', 'm/sub', 'm/sub/sub', 'c1/sub']
        for d in dirs:
            for f in names:
                if rng.random() < 0.45:
                    w.write(d, f, rng.choice([1, 2, 3, 4, 1, 2, -1, -3]), rng.randrange(50))
        w.chdir(rng.choice(['c1', 'c2']))
        ens = [x for x in rand_path(rng, w.cwd) if not (x['k'] == 'dir' and x['d'] == w.cwd)]
        for x in ens:
            if x['k'] == 'cwd' or x['d'] == 'm' and x['w'] % 4 == 3:
                x['w'] = 0
        steps = []
        for _ in range(n):
            given = rand_path(rng, w.cwd) or None if rng.random() < 0.2 else None
            if rng.random() < 0.6:
                steps.append(dict(op='load', f=rng.choice(names + ['missing.xml']), reload=int(rng.random() < 0.1), given=given))
            else:
                printed = int(rng.random() < 0.4)
                if given and (printed or not distinct(given, w.cwd)):
                    given = None
                steps.append(dict(op='list', names=names, given=given, relative=rng.randint(0, 1), printed=printed))
        w.start(ens if ens or rng.random() < 0.5 else None, steps)
    finally:
        w.done()
    return w.ev
