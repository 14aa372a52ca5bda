"""A thread-aware file is read-only and closes exactly what it says (specs/ThreadFile.tla, ThreadMC.tla, ThreadTrace.tla)."""
import io
import itertools
import os
import pathlib
import random

from vf import access, threads, tree
from vf.props import C14
from vf.threads import TRACE  # noqa: F401

CASE_TIMEOUT = 60


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, n=1)


def MC(tier):
    q = tier == 'quick'
    return [dict(module='ThreadMC', cfg='ThreadMC.cfg', name='hist', env=dict(THREADS='2', STEPS='3' if q else '4', EXPORT='1'), export=True, workers=3, timeout=1500),
            dict(module='ThreadMC', cfg='ThreadView.cfg', name='deep', env=dict(THREADS='3', STEPS='6' if q else '9', EXPORT='0'), workers=3, timeout=1500)]


CLOSING = ('close', 'closeall', 'cleanup', 'with', 'exit')
WRITING = ('write', 'writelines', 'truncate')


def op(rng):
    r = rng.random()
    if r < 0.2:
        return dict(a=rng.choice(CLOSING), n=rng.choice([0, 1, 2]), w=0)
    if r < 0.35:
        return dict(a=rng.choice(WRITING), n=rng.randint(0, 3), w=rng.randint(0, 1))
    if r < 0.5:
        return dict(a='closed', n=0, w=0)
    return C14.op(rng, own=False)


def cases(tier, rng, exported):
    cs = []
    q = tier == 'quick'
    ex = [h for h in exported['hist'] if any(x['e']['a'] in CLOSING + WRITING for x in h)]
    for h in rng.sample(ex, min(1500 if q else 20000, len(ex))):
        cs.append(dict(kind='model', hist=h, by=1, wrap=rng.choice([None, None, 0, 2])))
    for _ in range(1200 if q else 12000):
        n = rng.choice([1, 2, 2, 3, 4])
        hist = [dict(t=rng.randint(1, n), e=op(rng)) for _ in range(rng.randint(2, 12))]
        cs.append(dict(kind='scripted', hist=hist, by=rng.randint(1, n), wrap=rng.choice([None, None, rng.randint(0, 8)]),
                       d=[rng.choice([10, 65, rng.randint(0, 255)]) for _ in range(rng.randint(0, 12))]))
    # closing under every interleaving
    for _ in range(60 if q else 800):
        n = rng.choice([2, 2, 3])
        progs = {str(t): [dict(a='read', n=rng.randint(1, 2), w=0) for _ in range(rng.randint(0, 2))] +
                 [dict(a=rng.choice(['close', 'with', 'close', 'exit', 'cleanup']), n=1, w=0), dict(a='closed', n=0, w=0)] +
                 ([dict(a=rng.choice(WRITING), n=0, w=0)] if rng.random() < 0.3 else []) for t in range(1, n + 1)}
        cs.append(dict(kind='threads', d=list(rng.randbytes(6)), progs=progs, by=rng.choice([0, 1]), limit=60 if q else 250,
                       wrap=rng.choice([None, None, 3]), seed=rng.randrange(1 << 30)))
    # closing all streams while other threads open, read and ask
    for _ in range(45 if q else 600):
        n = rng.choice([2, 2, 3])
        who = rng.randint(1, n)
        progs = {str(t): [dict(a=rng.choice(['read', 'read', 'tell', 'line', 'closed', 'seek']), n=1, w=0) for _ in range(rng.randint(1, 3))] for t in range(1, n + 1)}
        progs[str(who)].insert(rng.choice([0, 0, 1]), dict(a='closeall', n=0, w=0))
        if rng.random() < 0.15:
            progs[str(rng.randint(1, n))].append(dict(a='closeall', n=0, w=0))
        cs.append(dict(kind='threads', d=list(rng.randbytes(6)), progs=progs, by=rng.choice([0, 0, 1]), limit=25 if q else 150, pairs=90 if q else 900,
                       wrap=rng.choice([None, None, 3]), seed=rng.randrange(1 << 30)))
    # modes: every text of up to three letters; longer ones at random
    ms = [''.join(x) for k in range(4) for x in itertools.product('rwax+bUt', repeat=k)]
    for m in ms:
        cs.append(dict(kind='mode', mode=list(m), how=rng.randrange(8), exists=int(rng.random() < 0.6)))
    for m in ['w', 'a', 'x', 'r+', '+r', 'rb+', 'r+b', 'wb', 'bw', 'ab', 'xb', 'w+', 'r', 'rb', 'br', '', 'b', 'rw', 'bx', 'rba', '+b', 'rb+']:
        for how in range(8):
            for ex_ in (0, 1):
                cs.append(dict(kind='mode', mode=list(m), how=how, exists=ex_))
    for how in range(8):
        cs.append(dict(kind='mode', mode=None, how=how, exists=1))
    for w in range(len(WRAPS)):
        cs.append(dict(kind='wrap', which=w))
    return cs


class Name(str):
    pass


def mode_event(c):
    from ebmlite.threaded_file import ThreadAwareFile
    path = access.scratch_file(b'content\n')
    if not c['exists']:
        os.unlink(path)
    folder = os.path.dirname(path)
    h = c['how']
    before = (sorted(os.listdir(folder)), os.stat(path) if c['exists'] else None)
    name = pathlib.Path(path) if h & 1 and c['exists'] else path
    args, kw = [], {}
    m = None if c['mode'] is None else (Name if h & 4 else str)(''.join(c['mode']))
    if h & 2:
        args.append(name)
        if m is not None:
            kw['mode'] = m
    elif h & 1 and h & 4:
        kw['file'] = name
        if m is not None:
            kw['mode'] = m
    else:
        args.append(name)
        if m is not None:
            args.append(m)
    f, ok = None, 0
    try:
        f = ThreadAwareFile(*args, **kw)
        ok = 1
        ok = int(f.read() == b'content\n')
        f.close()
    except Exception:
        pass
    finally:
        for s in list(getattr(f, 'threads', {}).values()):
            s.close()
    touched = int(os.path.exists(path) != bool(c['exists']))
    if c['exists'] and not touched:
        a, b = os.stat(path), before[1]
        with open(path, 'rb') as g:
            touched = int(g.read() != b'content\n' or (a.st_mtime_ns, a.st_ino, a.st_size) != (b.st_mtime_ns, b.st_ino, b.st_size))
    if os.path.exists(path):
        os.unlink(path)
    mode = ['r'] if c['mode'] is None else c['mode']
    return [dict(op='mode', mode=mode, ok=ok, touched=touched, valid=int(bool(c['exists']) and ''.join(mode) in ('r', 'rb')))]


class Fake:
    """Reads, but is no file."""
    name, mode = 'x', 'rb'

    def read(self, n=-1):
        return b''

    def seek(self, *a):
        return 0

    def tell(self):
        return 0


def _wrapped_twice(p):
    from ebmlite.threaded_file import ThreadAwareFile
    with open(p, 'rb') as g:
        a = ThreadAwareFile.makeThreadAware(g)
        return ThreadAwareFile.makeThreadAware(a) is a and ThreadAwareFile.makeThreadAware(a) is a and list(a.threads.values()) == [g]


def _own_twice(p):
    from ebmlite.threaded_file import ThreadAwareFile
    a = ThreadAwareFile(p, 'rb')
    try:
        a.seek(3)
        return ThreadAwareFile.makeThreadAware(a) is a and a.tell() == 3
    finally:
        a.close()


def _again(kind):
    """Wrapped again in another state of the file: closed, all closed, or by a thread without a stream."""
    def run(p):
        import threading
        from ebmlite.threaded_file import ThreadAwareFile
        with open(p, 'rb') as g:
            f = ThreadAwareFile.makeThreadAware(g) if kind & 1 else ThreadAwareFile(p)
            if kind & 2:
                f.close()
            if kind & 4:
                f.closeAll()
            r = []
            if kind & 8:
                t = threading.Thread(target=lambda: r.append(ThreadAwareFile.makeThreadAware(f)))
                t.start()
                t.join()
            else:
                r.append(ThreadAwareFile.makeThreadAware(f))
            f.closeAll()
            return len(r) == 1 and r[0] is f
    return run


def _sub(p):
    from ebmlite.threaded_file import ThreadAwareFile

    class Mine(ThreadAwareFile):
        pass
    a = Mine(p)
    try:
        return ThreadAwareFile.makeThreadAware(a) is a
    finally:
        a.close()


def _opened(*a, **k):
    def run(p):
        from ebmlite.threaded_file import ThreadAwareFile
        with open(p, *a, **k) as g:
            f = ThreadAwareFile.makeThreadAware(g)
            try:
                return isinstance(f, ThreadAwareFile) and f.read() == b'content\n' and f.closed is False
            finally:
                for s in list(f.threads.values()):
                    s.close()
    return run


def _raw(p):
    from ebmlite.threaded_file import ThreadAwareFile
    with io.FileIO(p) as g:
        f = ThreadAwareFile.makeThreadAware(g)
        g.seek(2)
        return f.tell() == 2 and f.read(1) == b'n'


def _no(x):
    def run(p):
        from ebmlite.threaded_file import ThreadAwareFile
        ThreadAwareFile.makeThreadAware(p if x is str else pathlib.Path(p) if x is pathlib.Path else x)
        return True
    return run


# (function, is it to succeed)
WRAPS = [(_again(k), 1) for k in range(16)] + [(_wrapped_twice, 1), (_own_twice, 1), (_sub, 1), (_raw, 1), (_opened('rb'), 1), (_opened('rb', buffering=0), 1),
         (_opened('r+b'), 0), (_opened('rb+', buffering=0), 0), (_opened('ab'), 0), (_opened('a+b'), 0), (_no(None), 0), (_no(str), 0), (_no(pathlib.Path), 0), (_no(7), 0), (_no(b'abc'), 0),
         (_no(Fake()), 0), (_no(Fake), 0), (_no([]), 0)]


def wrap_event(c):
    fn, want = WRAPS[c['which']]
    path = access.scratch_file(b'content\n')
    try:
        ok = int(bool(fn(path)))
    except Exception:
        ok = 0
    with open(path, 'rb') as g:
        content = g.read()
    os.unlink(path)
    return [threads.file_event(b'content\n', 1, 1, 0, 0, 0), dict(op='wrap', ok=ok, want=want), dict(op='content', c=list(content))]


def observe(c):
    if c['kind'] == 'mode':
        return mode_event(c)
    if c['kind'] == 'wrap':
        return wrap_event(c)
    if c['kind'] == 'model':
        return threads.scripted(bytes([161, 10, 7, 10, 9]), c['hist'], c['by'], None if c['wrap'] is None else 0)
    if c['kind'] == 'scripted':
        return threads.scripted(bytes(c['d']), c['hist'], c['by'], c['wrap'])
    rng = random.Random(c['seed'])
    return threads.sweep(rng, bytes(c['d']), {int(t): p for t, p in c['progs'].items()}, c['limit'], pairs=c.get('pairs'), by=c['by'], wrap=c['wrap'], sc=0)
