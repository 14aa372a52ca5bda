"""Histories of accesses to documents, executed and recorded (specs/Access.tla)."""
import contextlib
import io
import json
import os

from . import tree, val, views

TRACE = ('AccessTrace', 'AccessTrace.cfg')


class _Log:
    """Mixin: records the intervals that reads return."""
    log = None

    def note(self, a, n):
        if self.log is not None and n:
            self.log.append([a, a + n])


class RecShim(_Log):
    """A minimal stream: read, seek and tell only."""
    def __init__(self, b):
        self._f = io.BytesIO(b)

    def read(self, n=-1):
        a = self._f.tell()
        r = self._f.read(n)
        self.note(a, len(r))
        return r

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def poke(self, off, b):
        self._f.getbuffer()[off] = b

    closed = False


class RecBytes(_Log, io.BytesIO):
    def read(self, n=-1):
        a = self.tell()
        r = io.BytesIO.read(self, n)
        self.note(a, len(r))
        return r

    def read1(self, n=-1):
        a = self.tell()
        r = io.BytesIO.read1(self, n)
        self.note(a, len(r))
        return r

    def readinto(self, buf):
        a = self.tell()
        r = io.BytesIO.readinto(self, buf)
        self.note(a, r)
        return r

    def poke(self, off, b):
        self.getbuffer()[off] = b


class RecFile(_Log, io.FileIO):
    def read(self, n=-1):
        a = self.tell()
        r = io.FileIO.read(self, n)
        self.note(a, len(r or b''))
        return r

    def readinto(self, buf):
        a = self.tell()
        r = io.FileIO.readinto(self, buf)
        self.note(a, r or 0)
        return r

    def poke(self, off, b):
        with open(self.name, 'r+b') as f:
            f.seek(off)
            f.write(bytes([b]))


_n = [0]


def scratch_file(b, suffix='.ebml'):
    _n[0] += 1
    p = os.path.join(os.environ.get('TMPDIR', '/tmp'), 'acc%d-%d%s' % (os.getpid(), _n[0], suffix))
    with open(p, 'wb') as f:
        f.write(b)
    return p


class Session:
    def __init__(self, reads=('value', 'gc')):
        self.srcs, self.docs, self.objs, self.its = [], [], [], []
        self.kids, self.docof, self.cleanup = {}, {}, []
        self.reads = reads                 # operations whose reads are reported (None: all)
        self.ev = [dict(op='new')]

    # -- streams
    def src(self, b, kind='shim'):
        b = bytes(b)
        if kind == 'shim':
            f = RecShim(b)
        elif kind == 'bytesio':
            f = RecBytes(b)
        else:
            p = scratch_file(b)
            self.cleanup.append(p)
            f = RecFile(p)
        f.log = []
        self.srcs.append(f)
        self.ev.append(dict(op='src', d=list(b)))
        return len(self.srcs)

    def src_plain(self, b, f):
        """A stream without recording (f: the stream, or a path)."""
        self.srcs.append(f)
        self.ev.append(dict(op='src', d=list(b)))
        return len(self.srcs)

    def finish(self):
        for p in self.cleanup:
            os.unlink(p)
        return self.ev

    # -- bookkeeping
    @staticmethod
    def at(e):
        return [e.id, e.offset, e.payloadOffset]

    def rec(self, e, fn, src):
        for s in self.srcs:
            if getattr(s, 'log', None) is not None:
                s.log = []
        try:
            e['failed'] = 0
            fn(e)
        except Exception as err:
            e['failed'] = 1
            e['err'] = '%s: %s' % (type(err).__name__, str(err)[:200])
            e.setdefault('r', [])
        logs = [getattr(s, 'log', None) for s in self.srcs]
        if src and all(x is not None for x in logs) and (self.reads is None or e['op'] in self.reads):
            e['reads'] = logs[src - 1]
            e['xr'] = sum(len(x) for k, x in enumerate(logs) if k != src - 1)
        self.ev.append(e)
        return e

    def sc(self, o):
        return tree.descs()[self.docs[self.docof[o] - 1]['sc'] - 1]

    def information(self, e, doc, sc):
        def one(x):
            return [] if x is None else val.pyval(x)
        e['info'] = views.dumped(sc, doc.info)
        e['ty'], e['ver'] = one(doc.type), one(doc.version)

    # -- accesses
    def open(self, src, sc, s=0, hdr=1, how=None, own=0):
        def fn(e):
            f = self.srcs[src - 1]
            if how is None:
                f.seek(s)
                doc = tree.lib_schema(sc).load(f, headers=bool(hdr))
            else:
                doc = how()
            self.docs.append(dict(doc=doc, sc=sc, src=src))
            self.objs.append(doc)
            self.docof[len(self.objs)] = len(self.docs)
            self.information(e, doc, tree.descs()[sc - 1])
        return self.rec(dict(op='open', src=src, sc=sc, s=s, hdr=hdr, own=own), fn, src)

    def do(self, e):
        e = dict(e)
        o = e.get('o') or self.its[e['it'] - 1][0]
        d = self.docof[o]
        self.rec(e, lambda e: getattr(self, 'op_' + e['op'])(e, self.objs[o - 1], o), self.docs[d - 1]['src'])
        return e

    def op_iter(self, e, x, o):
        from ebmlite import util
        self.its.append([o, util.flatiter(x) if e['flat'] else iter(x)])

    def op_next(self, e, x, o):
        try:
            el = next(self.its[e['it'] - 1][1])
        except StopIteration:
            e['r'] = []
            return
        e['r'] = self.at(el)
        self.new(el, o)

    def new(self, el, o):
        """A handle for an element (and for all that came with it, if it is a pre-read container)."""
        from ebmlite import core
        self.objs.append(el)
        h = len(self.objs)
        self.docof[h] = self.docof[o]
        if isinstance(el, core.MasterElement) and el.precache:
            with self.quiet():
                self.kids[h] = [self.new(c, o) for c in el.value]
        return h

    @contextlib.contextmanager
    def quiet(self):
        logs = [(s, s.log) for s in self.srcs if hasattr(s, 'log')]
        for s, _ in logs:
            s.log = None
        try:
            yield
        finally:
            for s, g in logs:
                s.log = g

    def children(self, x, o):
        """Handles of the children held by a container."""
        return [next((k + 1 for k, y in enumerate(self.objs) if y is c), None) or self.new(c, o) for c in x]

    def op_index(self, e, x, o):
        from ebmlite import core
        try:
            el = x[e['n']]
            e['r'] = self.at(el)
        except IndexError:
            el, e['r'] = None, []
        if isinstance(x, core.Document):
            if el is not None:
                self.new(el, o)
        elif o not in self.kids:
            with self.quiet():
                self.kids[o] = self.children(x.value, o)

    def op_value(self, e, x, o):
        from ebmlite import core
        v = x.value
        if isinstance(x, core.MasterElement):
            self.kids[o] = self.children(v, o)
            e['r'] = [[k] + self.at(c) for k, c in zip(self.kids[o], v)]
        else:
            e['r'] = val.pyval(v)

    def op_len(self, e, x, o):
        e['r'] = len(x)

    def op_size(self, e, x, o):
        e['r'] = val.cap(x.size)

    def op_docsize(self, e, x, o):
        x.size
        e['r'] = 0

    def op_raw(self, e, x, o):
        e['r'] = list(x.getRaw() if e['hd'] else x.getRawValue())

    def op_dump(self, e, x, o):
        e['r'] = views.dumped(self.sc(o), x.dump())

    def op_gc(self, e, x, o):
        e['r'] = x.gc(bool(e['rec'])) if e.get('kw', 1) else x.gc()

        def drop(o):
            for k in self.kids.pop(o, []):
                if e['rec']:
                    drop(k)
        drop(o)

    def op_info(self, e, x, o):
        self.information(e, x, self.sc(o))

    def op_nodes(self, e, x, o):
        e['r'] = tree.walk(x, e.get('mode', 'plain'))

    def op_close(self, e, x, o):
        how = e.get('how', 'close')
        if how == 'close':
            x.close()
        elif how == 'with':
            with x:
                pass
        else:
            try:
                with x:
                    raise KeyError('leaving the context')
            except KeyError:
                pass
        e['r'] = int(bool(getattr(x.stream, 'closed', False)))

    def poke(self, src, off, b):
        f = self.srcs[src - 1]
        f.poke(off, b)
        self.ev.append(dict(op='poke', src=src, off=off, b=b))

    # -- random accesses
    def random_op(self, rng, among=None, dump=True):
        from ebmlite import core
        objs = among or list(range(1, len(self.objs) + 1))
        o = rng.choice(objs[-6:] if rng.random() < 0.5 else objs)
        x = self.objs[o - 1]
        docp = isinstance(x, core.Document)
        cont = isinstance(x, core.MasterElement)
        ops = []
        its = [k + 1 for k, (p, _) in enumerate(self.its) if p in objs]
        if its and rng.random() < 0.35:
            return dict(op='next', it=rng.choice(its[-3:]))
        if cont:
            ops += [dict(op='iter', o=o, flat=0), dict(op='index', o=o, n=rng.choice([0, 0, 1, 1, 2, 3])), dict(op='len', o=o)]
            if dump:
                ops.append(dict(op='dump', o=o))
        if docp:
            ops += [dict(op='iter', o=o, flat=1), dict(op='info', o=o), dict(op='gc', o=o, rec=rng.randint(0, 1)), dict(op='raw', o=o, hd=rng.randint(0, 1)), dict(op='docsize', o=o)] + [dict(op='index', o=o, n=rng.choice([0, 1, 2, 3, 4]))] * 2
        else:
            ops += [dict(op='value', o=o)] * 3 + [dict(op='raw', o=o, hd=rng.randint(0, 1)), dict(op='size', o=o),
                                                  dict(op='gc', o=o, rec=rng.randint(0, 1)), dict(op='gc', o=o, rec=1)]
        return rng.choice(ops)


def pokes(rng, sc, nodes_tree, base=0):
    """Places within payloads that can change without making anything undecodable: (offset, byte)."""
    out = []

    def rec(ns, at, header):
        for x in ns:
            pay = tree.render(x['kids']) if 'kids' in x else bytes(x['pay'])
            w = max(x['sw'], tree.minw(len(pay)))
            p = at + len(tree.idb(x['id'])) + w
            if 'kids' in x:
                rec(x['kids'], p, x['id'] == tree.EBML)
            elif pay and not header:
                ty = tree.ty_of(sc, x['id'])
                k = rng.randrange(len(pay))
                if ty in ('str', 'uni'):
                    if all(32 <= c < 127 for c in pay):
                        out.append((p + k, rng.randint(97, 122)))
                else:
                    out.append((p + k, rng.randint(0, 255)))
            at = p + len(pay)
    rec(nodes_tree, base, False)
    return out


def model_docs():
    """The documents of the model (schema 1, tree.fixed_schema): trees."""
    leaf = lambda i, *p: dict(id=i, sw=1, pay=list(p))      # noqa: E731
    head = dict(id=tree.EBML, sw=1, kids=[leaf(0x4286, 1), leaf(0x4282, 109, 99)])
    return [
        [dict(id=0xA1, sw=1, kids=[leaf(0x82, 7), leaf(0x4083, 97, 98)]), leaf(0x8F)],
        [head, dict(id=0xA1, sw=2, unk=1, kids=[leaf(0x4083, 120), dict(id=0xA1, sw=1, kids=[leaf(0x82, 1)])]), leaf(0x133 & 0xFF | 0x80, 5)],
        [leaf(0xEC, 1, 2), dict(id=0xA1, sw=1, unk=1, kids=[dict(id=0x4484, sw=1, unk=1, kids=[leaf(0x2400AA, 1)])])],
    ]


def setup_docs(scratch):
    ds = [dict(sc=1, d=list(tree.render(t)), s=0, hdr=h) for t, h in zip(model_docs(), [1, 0, 1])]
    p = os.path.join(scratch, 'docs.json')
    with open(p, 'w') as f:
        json.dump(ds, f)
    return dict(DOCS=p)


def docs():
    return json.load(open(os.environ['DOCS']))


# -- documents with damaged contents: each step against the same step alone
STEPS = ['value', 'value', 'iter', 'part', 'index', 'len', 'size', 'raw', 'payload', 'dump', 'flat']


def step(x, op, n):
    """What a step gives, as text."""
    from ebmlite import core, util
    cont = isinstance(x, core.MasterElement)
    try:
        if op == 'value':
            r = [Session.at(c) for c in x.value] if cont else val.pyval(x.value)
        elif op in ('iter', 'part', 'flat'):
            r = []
            try:
                for k, c in enumerate(util.flatiter(x) if op == 'flat' else x):
                    r.append(Session.at(c))
                    if (op == 'part' and k == n) or k > 2000:
                        break
            except Exception:
                r.append('failed')
        elif op == 'index':
            r = Session.at(x[n])
        elif op == 'len':
            r = len(x)
        elif op == 'size':
            r = x.size
        elif op in ('raw', 'payload'):
            r = list(x.getRaw() if op == 'raw' else x.getRawValue())
        elif op == 'dump':
            r = _plain(x.dump())
        return json.dumps(r)
    except Exception:
        return 'failed'


def _plain(v):
    if isinstance(v, dict):
        return [[str(k), _plain(x)] for k, x in v.items()]
    if isinstance(v, list):
        return [_plain(x) for x in v]
    return val.pyval(v)


def reach(x, path):
    for n in path:
        x = next((c for k, c in enumerate(x) if k == n), None)
        if x is None:
            return None
    return x


def damaged(k, b, rng, n, kind='bytesio'):
    """A history on a document whose contents may be malformed."""
    from ebmlite import core
    ev = [dict(op='new'), dict(op='file', d=list(b))]

    def fresh():
        return tree.load(k, b, kind=kind)
    try:
        doc = fresh()
    except Exception:
        return ev
    known = {(): doc}
    for _ in range(n):
        p = rng.choice(list(known))
        x = known[p]
        cont = isinstance(x, core.MasterElement)
        if rng.random() < 0.15 and p:
            x.gc(bool(rng.randint(0, 1)))
            continue
        if cont and rng.random() < 0.4:
            q = p + (rng.choice([0, 0, 1, 2, 3]),)
            if q in known:
                continue
            try:
                y = reach(x, q[-1:])
                r = 'none' if y is None else json.dumps(Session.at(y))
                if y is not None:
                    known[q] = y
            except Exception:
                r = 'failed'
            try:
                z = reach(fresh(), q)
                w = 'none' if z is None else json.dumps(Session.at(z))
            except Exception:
                w = 'failed'
            ev.append(dict(op='same', a='reach', p=list(q), r=r, want=w, failed=0))
            continue
        op, m = rng.choice(STEPS), rng.choice([0, 0, 1, 2])
        if not p and op in ('size', 'raw', 'payload', 'value') or not cont and op in ('iter', 'part', 'index', 'len', 'flat'):
            continue
        ev.append(dict(op='same', a=op, p=list(p), r=step(x, op, m), want=step(reach(fresh(), p), op, m), failed=0))
    return ev
