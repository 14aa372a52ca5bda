"""Accesses and conversions on failing streams (specs/Fault.tla)."""
import io
import json
import os
import random
import resource
import subprocess
import sys
import threading
from xml.etree import ElementTree as ET

from . import access, tree, val, xmlmap

TRACE = ('FaultTrace', 'FaultTrace.cfg')
ERRORS = [lambda: OSError(5, 'Input/output error'), lambda: TimeoutError('timed out'), lambda: RuntimeError('the stream broke'),
          lambda: ConnectionResetError(104, 'reset'), lambda: ValueError('read failed'), lambda: InterruptedError(4, 'interrupted')]


class _Faulty:
    """Mixin: the n-th call from now on (and those after it, if all) raises."""
    left, err, all_, hit = 0, None, False, 0

    def arm(self, n, err, all_=False):
        self.left, self.err, self.all_, self.hit = n, err, all_, 0

    def disarm(self):
        self.left = 0
        return self.hit

    def trip(self):
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                if self.all_:
                    self.left = 1
                self.hit = 1
                raise self.err()


class Shim(_Faulty):
    """read, seek and tell only."""
    def __init__(self, b):
        self._f = io.BytesIO(b)

    def read(self, n=-1):
        self.trip()
        return self._f.read(n)

    def seek(self, *a):
        self.trip()
        return self._f.seek(*a)

    def tell(self):
        self.trip()
        return self._f.tell()

    def close(self):
        self._f.close()

    @property
    def closed(self):
        return self._f.closed


def _wrapped(base):
    class Wrapped(_Faulty, base):
        pass
    for m in ('read', 'read1', 'readinto', 'seek', 'tell', 'readline', 'readall', 'getvalue'):
        if hasattr(base, m):
            def fn(self, *a, _m=getattr(base, m)):
                self.trip()
                return _m(self, *a)
            setattr(Wrapped, m, fn)
    return Wrapped


Bytes, Buffered = _wrapped(io.BytesIO), _wrapped(io.BufferedReader)


class Session(access.Session):
    def __init__(self):
        super().__init__(())

    def src(self, b, kind='shim'):
        b = bytes(b)
        if kind == 'shim':
            f = Shim(b)
        elif kind == 'bytesio':
            f = Bytes(b)
        else:
            p = access.scratch_file(b)
            self.cleanup.append(p)
            f = Buffered(io.FileIO(p))
        self.srcs.append(f)
        self.ev.append(dict(op='src', d=list(b)))
        return len(self.srcs)

    def rec(self, e, fn, src):
        n, err, all_ = e.pop('f', 0), e.pop('err', 0), e.pop('all', 0)
        f = self.srcs[src - 1]
        if n:
            f.arm(n, ERRORS[err], bool(all_))
        super().rec(e, fn, src)
        e['hit'] = f.disarm() if n else 0
        return e

    def quiet(self):
        return _Off(self.srcs)

    def shut(self):
        self.srcs[0].close()
        self.ev.append(dict(op='shut'))


class _Off:
    def __init__(self, srcs):
        self.srcs = srcs

    def __enter__(self):
        self.was = [(s, s.left) for s in self.srcs]
        for s in self.srcs:
            s.left = 0

    def __exit__(self, *a):
        for s, n in self.was:
            s.left = n


def replay(ops, s, rng):
    """The model's history; ends where an access refers to something that does not exist."""
    for e in ops:
        e = dict(e)
        if e['op'] == 'shut':
            s.shut()
            continue
        if e.get('o', 1) > len(s.objs) or e.get('it', 0) > len(s.its):
            break
        if e['f']:
            e.update(err=rng.randrange(len(ERRORS)), all=rng.randint(0, 1))
        else:
            e.pop('f')
        d = s.do(e)
        if d['failed'] and e['op'] == 'next':
            break


def history(c):
    rng = random.Random(c['seed'])
    sc = tree.descs()[c['sc'] - 1]
    t = tree.rand_doc(rng, sc, budget=rng.choice([3, 6, 12]), p_unk=rng.choice([0, 0.3, 0.6]))
    s = Session()
    s.open(s.src([9] * c['s'] + list(tree.render(t)), c['io']), c['sc'], c['s'], c['hdr'])
    dead, gone = set(), False
    for k in range(c['n']):
        e = s.random_op(rng)
        if e.get('it') in dead or e['op'] == 'iter' and len(s.its) > 8:
            continue
        if not gone and k > c['n'] // 2 and rng.random() < 0.04:
            s.shut()
            gone = True
        if not gone and e['op'] != 'iter' and rng.random() < c['p']:
            e.update(f=rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 20]), err=rng.randrange(len(ERRORS)), all=rng.randint(0, 1))
        d = s.do(e)
        if d['failed'] and 'it' in e:
            dead.add(e['it'])
    return s.finish()


# -- operations on whole documents, texts and files

class Out(_Faulty):
    """A stream to write to; what was not flushed when flushing failed is lost."""
    def __init__(self, text):
        self.done, self.pending, self.text = [], [], text

    def write(self, x):
        if isinstance(x, str) != self.text:
            raise TypeError('wrong kind of data for this stream')
        self.trip()
        self.pending.append(x if self.text else bytes(x))
        return len(x)

    def flush(self):
        try:
            self.trip()
        except Exception:
            self.pending = []
            raise
        self.done += self.pending
        self.pending = []

    def tell(self):
        return sum(len(x) for x in self.done + self.pending)

    def what(self):
        return repr((b'', '')[self.text].join(self.done + self.pending))


def whole(ev, a, run, want, hit):
    """run() with a failure (hit() says whether it happened), and what it gave."""
    e = dict(op='whole', a=a, failed=0, r='', want=want)
    try:
        e['r'] = run()
    except Exception as err:
        e['failed'] = 1
        e['err'] = '%s: %s' % (type(err).__name__, str(err)[:200])
    e['hit'] = hit()
    ev.append(e)


def says(doc, what, rng_opts):
    from ebmlite import util
    if what == 'xml':
        return ET.tostring(util.toXml(doc, **rng_opts), encoding='unicode')
    if what == 'print':
        out = io.StringIO()
        util.pprint(doc, out=out, **rng_opts)
        return out.getvalue()
    return repr([(e.id, e.offset, e.size) for e in util.flatiter(doc)])


def reading(c):
    rng = random.Random(c['seed'])
    sc = tree.descs()[c['sc'] - 1]
    b = tree.render(tree.rand_doc(rng, sc, budget=rng.choice([3, 6, 12]), p_unk=rng.choice([0, 0.3, 0.6])))
    ev = [dict(op='new')]
    kind = rng.choice(['shim', 'bytesio', 'file'])
    s = Session()

    def doc():
        f = s.srcs[s.src(b, kind) - 1]
        return f, tree.lib_schema(c['sc']).load(f, name='x', headers=True)
    try:
        for _ in range(3):
            what = rng.choice(['xml', 'print', 'flat'])
            opts = {} if what == 'flat' else dict(binary_codec=rng.choice(['base64', 'hex'] + ['ignore'] * (what == 'print')))
            want = says(doc()[1], what, opts)
            if kind == 'file':
                want = want.replace(s.srcs[-1].name, 'F')
            f, d = doc()
            for k in (rng.choice([1, 2, 3, 5, 8, 13, 21, 34]), 0):
                if k:
                    f.arm(k, rng.choice(ERRORS), rng.random() < 0.5)
                whole(ev, what, lambda: says(d, what, opts).replace(s.srcs[-1].name if kind == 'file' else '\0', 'F'), want, f.disarm)
                f.hit = 0
    finally:
        for p in s.cleanup:
            os.unlink(p)
    return ev


class Source(_Faulty, io.BytesIO):
    def read(self, n=-1):
        self.trip()
        return io.BytesIO.read(self, n)


def describe(s):
    return repr([(k, v.name, v.__bases__[0].__name__, sorted(map(str, v.children or ()))) for k, v in sorted(s.elements.items())])


def loading(c):
    """A schema or an XML document from a failing stream."""
    import ebmlite
    from ebmlite import util
    rng = random.Random(c['seed'])
    d = tree.descs()[c['sc'] - 1]
    ev = [dict(op='new')]
    text = open(d['file'], 'rb').read() if 'file' in d else tree.schema_xml(d).encode()
    text += b'\n' * rng.choice([0, 5, 70000])          # more than one read

    def load(f, name):
        s = ebmlite.parseSchema(f, name=name, reload=rng.random() < 0.3)
        return describe(s)
    want = load(Source(text), 'fw%d' % c['seed'])
    f = Source(text)
    f.arm(rng.choice([1, 1, 2, 3]), rng.choice(ERRORS), True)
    nm = 'fx%d' % c['seed']
    before = sorted(ebmlite.SCHEMATA)
    whole(ev, 'schema', lambda: load(f, nm), want, f.disarm)
    if ev[-1]['failed']:
        whole(ev, 'registered', lambda: repr(sorted(ebmlite.SCHEMATA)), repr(before), lambda: 0)
    whole(ev, 'schema', lambda: load(Source(text), nm), want, lambda: 0)
    for n in (nm, 'fw%d' % c['seed']):
        ebmlite.SCHEMATA.pop(n, None)
    return ev


def writing(c):
    from ebmlite import util, xml_codecs
    rng = random.Random(c['seed'])
    k, sc = c['sc'], tree.descs()[c['sc'] - 1]
    schema = tree.lib_schema(k)
    ev = [dict(op='new')]
    t = tree.rand_doc(rng, sc, budget=rng.choice([3, 8, 20]), xml=True)
    b = tree.render(t)
    what = c['what']
    text = what in ('print', 'codec-text', 'schemata')
    if what == 'encode':
        from . import data
        api = data.group(rng, sc, data.rand_items(rng, sc, rng.choice([2, 6])), top=True)
        hdr = rng.random() < 0.5

        def run(out):
            schema.encode(out, api, headers=hdr)
    elif what == 'x2e':
        root = util.toXml(schema.loads(b))
        sl = rng.choice([None, 8])

        def run(out):
            util.xml2ebml(root, out, schema, sizeLength=sl)
    elif what == 'print':
        def run(out):
            util.pprint(schema.loads(b), out=out, binary_codec=rng_codec)
        rng_codec = rng.choice(['ignore', 'hex', 'base64'])
    elif what.startswith('codec'):
        raw = bytes(rng.randrange(256) for _ in range(rng.choice([1, 20, 300])))
        codec = rng.choice([xml_codecs.HexCodec, xml_codecs.Base64Codec])(cols=rng.choice([8, 32]))
        if what == 'codec-text':
            def run(out):
                codec.encode(raw, stream=out)
        else:
            txt = codec.encode(raw)
            txt = txt.decode() if isinstance(txt, bytes) else txt

            def run(out):
                codec.decode(txt, stream=out)
    else:
        def run(out):
            util.printSchemata(paths=[os.path.dirname(os.path.abspath(__file__))], out=out)

    def go(out):
        run(out)
        return out.what()
    try:
        want = go(Out(text))
    except Exception:
        return ev                                     # not about writing: nothing to compare with
    for n in (rng.choice([1, 1, 2, 3, 5, 8, 13]), 0):
        out = Out(text)
        if n:
            out.arm(n, rng.choice(ERRORS), rng.random() < 0.5)
        whole(ev, what, lambda: go(out), want, out.disarm)
    return ev


def commands(c):
    """A command-line tool whose output has no room."""
    from . import cli
    rng = random.Random(c['seed'])
    p = cli.Place(rng, c['sc'], links=False)
    ev = [dict(op='new')]
    here = [sys.executable, '-m']
    schema = os.path.join(p.root, p.names['s'])
    from ebmlite import core, util
    s = core.loadSchema(schema, reload=True)
    tool = c['tool']
    xml = os.path.join(p.root, 'good.xml')
    t = tree.rand_doc(rng, tree.descs()[c['sc'] - 1], budget=30, xml=True)
    doc = os.path.join(p.root, 'good.ebml')
    with open(doc, 'wb') as f:
        f.write(tree.render(t) * rng.choice([1, 40]))
    d = s.load(doc)
    with open(xml, 'wb') as f:
        f.write(ET.tostring(util.toXml(d, sizes=False)))
    if tool == 'list':
        argv = here + ['ebmlite.tools.list_schemata', p.root]
    else:
        argv = here + ['ebmlite.tools.' + cli.MODULES[tool], xml if tool == 'xml2ebml' else doc, schema]
        if tool == 'ebml2xml' and rng.random() < 0.5:
            argv += ['-s']
    try:
        good = subprocess.run(argv, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        if good.returncode:
            return ev
        want = repr(good.stdout)
        if c['to'] == 'stdout':
            with open('/dev/full', 'wb') as full:
                r = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=full, stderr=subprocess.DEVNULL, timeout=60)
            got = ''
            hit = len(good.stdout) > 0
        else:
            room = rng.choice([0, 1, len(good.stdout) // 2, max(0, len(good.stdout) - 1), len(good.stdout) + 4096])
            out = os.path.join(p.root, 'out')
            if rng.random() < 0.5:
                open(out, 'wb').close()
                argv = argv + ([] if tool == 'list' else ['-c'])
            r = subprocess.run(argv + ['-o', out], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (room, room)))
            got = repr(open(out, 'rb').read()) if os.path.exists(out) else ''
            hit = len(good.stdout) > room
        e = dict(op='whole', a='command', failed=int(r.returncode != 0), r=got, want=want, hit=int(hit), argv=argv[2:])
        ev.append(e)
    finally:
        p.done()
    return ev


def shared(c):
    """A thread-aware file that cannot be opened by a further thread for a while."""
    from ebmlite.threaded_file import ThreadAwareFile
    rng = random.Random(c['seed'])
    content = bytes(rng.randrange(256) for _ in range(40))
    p = access.scratch_file(content)
    q = p + '.away'
    ev = [dict(op='new')]
    f = ThreadAwareFile(p, 'rb')

    def other(fn):
        res = {}

        def go():
            try:
                res['r'] = fn()
            except Exception as err:
                res['e'] = err
        t = threading.Thread(target=go)
        t.start()
        t.join(20)
        if 'e' in res:
            raise res['e']
        return res['r']
    n = rng.randint(1, 20)
    try:
        whole(ev, 'first', lambda: repr(f.read(n)), repr(content[:n]), lambda: 0)
        os.rename(p, q)
        gone = True
        op = rng.choice([lambda: f.read(4), lambda: f.tell(), lambda: f.seek(3), lambda: f.readline()])
        whole(ev, 'open', lambda: repr(other(op)), 'nothing', lambda: 1)
        whole(ev, 'others', lambda: repr(f.read(n)), repr(content[n:2 * n]), lambda: 0)
        if rng.random() < 0.5:
            f.cleanup()
        os.rename(q, p)
        gone = False
        whole(ev, 'again', lambda: repr(other(lambda: f.read(7))), repr(content[:7]), lambda: 0)
        whole(ev, 'others', lambda: repr(f.read()), repr(content[2 * n:]), lambda: 0)
    finally:
        f.closeAll()
        os.unlink(q if gone else p)
    return ev
