"""Sources, headers, metadata and ownership of streams (specs/Access.tla: open, info, nodes, close)."""
import gc
import io
import os
import pathlib
import random
import tempfile

from vf import access, tree
from vf.access import TRACE  # noqa: F401

PATHS = ['str', 'Path', 'relative', 'rel-Path']
STREAMS = ['bytesio', 'bytesio', 'shim', 'file', 'raw', 'buffered', 'mmap', 'temp', 'named', 'spooled', 'gzip', 'fd', 'tafile', 'sub', 'bytename']
BAD = ['none', 'int', 'bytes', 'noread', 'noseek', 'notell', 'object', 'list']


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, pcm=0.15)


def MC(tier):
    return tree.mc(tier)


def cases(tier, rng, exported):
    cs, ss = [], tree.descs()
    ex = exported['tree']
    kinds = PATHS + STREAMS

    def add(kind, k, b, hdr=None):
        io_ = rng.choice(kinds)
        s = 0 if io_ in PATHS else rng.choice([0, 0, 1, 3, 40])
        cs.append(dict(kind=kind, sc=k, d=list(b), s=s, io=io_, hdr=rng.randint(0, 1) if hdr is None else hdr,
                       how=rng.choice(['load', 'load', 'document', 'default', 'call', 'loads', 'name', 'size']),
                       close=rng.choice(['close', 'with', 'raise', 'close2']), seed=rng.randrange(1 << 30)))
    for x in rng.sample(ex, min(500 if tier == 'quick' else 10000, len(ex))):
        add('model', 1, x['d'])
    for _ in range(2500 if tier == 'quick' else 40000):
        k = rng.choice([1, rng.randint(1, len(ss)), rng.randint(2, 5)])
        b = tree.render(tree.rand_doc(rng, ss[k - 1], budget=rng.choice([0, 2, 5, 12]), header=rng.choice([0, 0.8, 1]), p_unk=rng.choice([0, 0.3])))
        add('random', k, b)
    for k in range(1, len(ss) + 1):
        s = ss[k - 1]
        # header variants: empty, repeated and unusual children, header not first, two headers, header of unknown size
        if tree.EBML in s['by']:
            for _ in range(12 if tier == 'quick' else 200):
                t = tree.rand_doc(rng, s, budget=4, header=0)
                for _ in range(rng.choice([1, 1, 2])):
                    ch = [i for i in s['by'][tree.EBML]['ch']]
                    hk = []
                    for _ in range(rng.randint(0, 6)):
                        r = rng.random()
                        if r < 0.15:
                            hk.append(dict(id=tree.rand_id(rng, set(s['by'])), sw=rng.choice([1, 1, 3]), pay=list(tree.payload(rng, 'bin'))))
                        elif r < 0.25 and 0xEC in s['by']:
                            hk.append(dict(id=0xEC, sw=1, pay=[0] * rng.choice([0, 1, 9])))
                        elif ch:
                            i = rng.choice(ch)
                            if tree.ty_of(s, i) != 'master':
                                hk.append(dict(id=i, sw=rng.choice([1, 2]), pay=list(tree.payload(rng, tree.ty_of(s, i)))))
                    t.insert(rng.choice([0, 0, 0, len(t)]), dict(id=tree.EBML, sw=rng.choice([1, 3, 8]), kids=hk, unk=int(rng.random() < 0.3)))
                add('header', k, tree.render(tree.settle_unknown(s, t)))
        add('empty', k, b'')
    for b in BAD:
        for k in (1, 2, 6):
            cs.append(dict(kind='refuse', sc=k, bad=b))
    return cs


class Sub(io.BytesIO):
    pass


def bad(kind):
    class O:
        def read(self, n=-1):
            return b''

        def seek(self, *a):
            return 0

        def tell(self):
            return 0
    if kind in ('noread', 'noseek', 'notell'):
        class P:
            pass
        for m in ('read', 'seek', 'tell'):
            if m != kind[2:]:
                setattr(P, m, getattr(O, m))
        return P()
    return dict(none=None, int=5, bytes=b'\xa1\x80', object=object(), list=[1])[kind]


def observe(c):
    if c['kind'] == 'refuse':
        sch = tree.lib_schema(c['sc'])
        ev = [dict(op='new')]
        for f in (sch.load, sch.document, sch):
            try:
                f(bad(c['bad']))
                ok = 1
            except Exception:
                ok = 0
            ev.append(dict(op='refuse', ok=ok, bad=c['bad']))
        return ev
    rng = random.Random(c['seed'])
    pre = bytes(rng.randrange(256) for _ in range(c['s']))
    data = pre + bytes(c['d'])
    s = access.Session(())
    p = access.scratch_file(data)
    hdr, how = c['hdr'], c['how']
    sch = tree.lib_schema(c['sc'])
    k, extra = c['io'], []
    own = int(k in PATHS)
    try:
        if k == 'str':
            f = p
        elif k == 'Path':
            f = pathlib.Path(p)
        elif k == 'relative':
            f = os.path.relpath(p)
        elif k == 'rel-Path':
            f = pathlib.Path(os.path.relpath(p))
        elif k == 'bytesio':
            f = io.BytesIO(data)
        elif k == 'sub':
            f = Sub(data)
        elif k == 'shim':
            f = tree.Shim(data)
        elif k == 'file':
            f = open(p, 'rb')
        elif k == 'raw':
            f = open(p, 'rb', buffering=0)
        elif k == 'buffered':
            f = io.BufferedReader(io.BytesIO(data))
        elif k == 'bytename':
            f = open(p.encode(), 'rb')
        elif k == 'fd':
            f = open(os.open(p, os.O_RDONLY), 'rb')
        elif k == 'mmap':
            import mmap
            f0 = open(p, 'rb')
            extra.append(f0)
            f = mmap.mmap(f0.fileno(), 0, access=mmap.ACCESS_READ) if data else io.BytesIO()
        elif k == 'gzip':
            import gzip
            with gzip.open(p, 'wb') as g:
                g.write(data)
            f = gzip.open(p, 'rb')
        elif k == 'tafile':
            from ebmlite.threaded_file import ThreadAwareFile
            f = ThreadAwareFile(p, 'rb')
        else:
            f = dict(temp=tempfile.TemporaryFile, named=tempfile.NamedTemporaryFile, spooled=tempfile.SpooledTemporaryFile)[k]()
            f.write(data)
        extra.append(f)
        if not own:                          # the position may have been reached in any way
            there = c['seed'] % 3
            if there == 0:
                f.seek(0)
                f.read(c['s'])
            elif there == 1:
                f.seek(0)
                f.read(c['s'] + 5)
            f.seek(c['s'])
            if there == 0:
                f.seek(0)
                f.read(c['s'])
        if how == 'loads' and k == 'bytesio' and c['s'] == 0:
            hdr, go = 0, lambda: sch.loads(data)
        elif how == 'document':
            hdr, go = (1, lambda: sch.document(f)) if hdr else (0, lambda: sch.document(f, headers=False))
        elif how == 'default':
            hdr, go = 0, lambda: sch.load(f)
        elif how == 'call':
            hdr, go = 0, lambda: sch(f)
        elif how == 'name':
            go = lambda: sch.load(f, name='a name', headers=bool(hdr))          # noqa: E731
        elif how == 'size':
            go = lambda: sch.load(f, headers=bool(hdr), size=len(data))         # noqa: E731
        else:
            go = lambda: sch.load(f, headers=bool(hdr))                         # noqa: E731
        loads = how == 'loads' and k == 'bytesio' and c['s'] == 0
        s.src_plain(data, f)
        if s.open(1, c['sc'], c['s'], hdr, how=go, own=own)['failed']:
            return s.finish()
        for mode in rng.sample(['plain', 'siblings', 'late', 'len'], 2):
            s.do(dict(op='nodes', o=1, mode=mode))
        if rng.random() < 0.3:
            s.do(dict(op='dump', o=1))
        s.do(dict(op='info', o=1))
        doc = s.objs[0]
        if loads:
            return s.finish()
        close = c['close']
        s.do(dict(op='close', o=1, how='close' if close == 'close2' else close))
        if close == 'close2':
            s.do(dict(op='close', o=1, how='close'))
        # metadata survives; a stream of the caller still works
        s.do(dict(op='info', o=1))
        if not own:
            s.do(dict(op='nodes', o=1, mode='plain'))
        del doc
        if not own:                          # not even dropping the document closes it
            s.objs, s.docs, s.its, s.kids = [], [], [], {}
            gc.collect(0)
            s.ev.append(dict(op='closed', src=1, failed=0, r=int(bool(getattr(f, 'closed', False)))))
        return s.finish()
    finally:
        for x in extra:
            if hasattr(x, 'close') and not isinstance(x, (str, pathlib.Path)):
                try:
                    (x.closeAll if k == 'tafile' else x.close)()
                except Exception:
                    pass
        os.unlink(p)
