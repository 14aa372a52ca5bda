"""Real threads on a thread-aware file under a controlled scheduler (specs/ThreadFile.tla).

Every line executed in threaded_file.py is a point at which the scheduler may switch to
another thread; its Event and Lock are replaced by cooperative ones for the time of a run."""
import io
import os
import queue
import sys
import threading
import time
import _thread

from . import access, tree

TRACE = ('ThreadTrace', 'ThreadTrace.cfg')


class Sched:
    """Runs one thread at a time.  switches: {number of the point: thread to switch to}."""
    def __init__(self, n, switches):
        self.gate = {t: _thread.allocate_lock() for t in range(1, n + 1)}
        for g in self.gate.values():
            g.acquire()
        self.mu = _thread.allocate_lock()
        self.started, self.done, self.cond = set(), set(), {}
        self.switches, self.step, self.cur = switches, 0, None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.deadlock = 0
        self.idents, self.native, self.waits = {}, {}, set()

    def me(self):
        return self.idents.get(_thread.get_ident())

    def runnable(self, t):
        return t in self.started and t not in self.done and (t not in self.cond or self.cond[t]())

    def pick(self, but=()):
        return next((t for t in sorted(self.gate) if t not in but and self.runnable(t)), None)

    def give(self, t):
        with self.mu:
            self.cur = t
            if t in self.waits:
                self.waits.discard(t)
                self.gate[t].release()

    def wait(self, t):
        """Wait until it is t's turn."""
        with self.mu:
            if self.cur == t:
                return
            self.waits.add(t)
        self.gate[t].acquire()

    def asleep(self):
        """Is the thread whose turn it is blocked by something else?  What is seen of it, or None."""
        try:
            with open('/proc/self/task/%d/status' % self.native[self.cur]) as f:
                d = dict(x.split(':', 1) for x in f.read().splitlines() if ':' in x)
            return (self.cur, self.step, d['voluntary_ctxt_switches'], d['nonvoluntary_ctxt_switches']) if d['State'].split()[0] == 'S' else None
        except (OSError, KeyError):
            return None

    def enter(self, t):
        self.idents[_thread.get_ident()] = t
        self.native[t] = _thread.get_native_id()
        self.started.add(t)
        self.wait(t)

    def point(self, t):
        """A point at which thread t may lose control."""
        if self.cur != t:                     # lost it already (blocked outside): wait for our turn
            self.wait(t)
            return
        self.step += 1
        u = self.switches.get(self.step)
        if u is not None and u != t and self.runnable(u):
            self.give(u)
            self.wait(t)

    def block(self, t, cond):
        """Wait until cond(); False if that can never happen (all threads wait)."""
        while not cond():
            self.cond[t] = cond
            u = self.pick((t,))
            if u is None:
                del self.cond[t]
                self.deadlock += 1
                return False
            self.give(u)
            self.wait(t)
            self.cond.pop(t, None)
        return True

    def finish(self, t):
        self.done.add(t)
        self.idents.pop(_thread.get_ident(), None)
        self.main.release()                   # the main thread goes on: starts others, picks the next


def coop(sched):
    class Event:
        def __init__(self):
            self.f = False

        def set(self):
            self.f = True

        def clear(self):
            self.f = False

        def is_set(self):
            return self.f
        isSet = is_set

        def wait(self, timeout=None):
            t = sched.me()
            if t is None:
                return self.f
            sched.block(t, lambda: self.f)
            return self.f

    class Lock:
        def __init__(self):
            self.owner, self.n = None, 0

        def acquire(self, blocking=True, timeout=-1):
            me = _thread.get_ident()
            t = sched.me()
            if t is not None and blocking:
                if not sched.block(t, lambda: self.owner is None or (self.reentrant and self.owner == me)):
                    if timeout is not None and timeout >= 0:
                        return False
                    raise RuntimeError('deadlock')
            if self.owner is not None and not (self.reentrant and self.owner == me):
                return False
            self.owner, self.n = me, self.n + 1
            return True
        reentrant = False

        def release(self):
            self.n -= 1
            if self.n == 0:
                self.owner = None

        def locked(self):
            return self.owner is not None
        __enter__ = acquire

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        reentrant = True

    class Condition:
        def __init__(self, lock=None):
            self.lock = RLock() if lock is None else lock
            self.acquire, self.release = self.lock.acquire, self.lock.release
            self.waiting = []

        def __enter__(self):
            return self.lock.acquire()

        def __exit__(self, *a):
            self.lock.release()

        def wait(self, timeout=None):
            me = [0]
            self.waiting.append(me)
            n, self.lock.n, self.lock.owner = self.lock.n, 0, None
            t = sched.me()
            ok = t is None or sched.block(t, lambda: me[0])
            if me in self.waiting:
                self.waiting.remove(me)
            if t is not None:
                sched.block(t, lambda: self.lock.owner is None)
            self.lock.n, self.lock.owner = n, _thread.get_ident()
            return ok

        def wait_for(self, predicate, timeout=None):
            while not predicate():
                if not self.wait(timeout):
                    return predicate()
            return True

        def notify(self, n=1):
            for w in self.waiting[:n]:
                w[0] = 1
            del self.waiting[:n]

        def notify_all(self):
            self.notify(len(self.waiting))
        notifyAll = notify_all

    class Semaphore:
        def __init__(self, value=1):
            self.k = value

        def acquire(self, blocking=True, timeout=None):
            t = sched.me()
            if t is not None and blocking and not sched.block(t, lambda: self.k > 0):
                raise RuntimeError('deadlock')
            if self.k <= 0:
                return False
            self.k -= 1
            return True
        __enter__ = acquire

        def release(self, n=1):
            self.k += n

        def __exit__(self, *a):
            self.release()

    class BoundedSemaphore(Semaphore):
        pass
    return dict(Event=Event, Lock=Lock, RLock=RLock, Condition=Condition, Semaphore=Semaphore, BoundedSemaphore=BoundedSemaphore)


class Module:
    """The threading module, with cooperative primitives."""
    def __init__(self, new):
        self.__dict__.update(new)

    def __getattr__(self, name):
        return getattr(threading, name)


INTS = {'tell', 'seek', 'closed', 'able'}


def perform(f, e, sc=0, shared=None, box=None):
    """One operation; [ok, v] (and nodes)."""
    a, ints = e['a'], e['a'] in INTS
    out = dict(ok=1, v=0 if ints else [])
    try:
        if a == 'read':
            if e['w'] == 2 and e['n'] >= 0:
                r = bytearray(b'?' * e['n'])
                k = f.readinto(r)
                r = r[:k] if isinstance(k, int) and 0 <= k <= e['n'] and r[k:] == b'?' * (e['n'] - k) else None
            elif e['n'] < 0:
                r = f.read() if e['w'] == 1 else f.readall() if e['w'] == 2 else f.read(e['n'])
            else:
                r = f.read(e['n'])
        elif a == 'line':
            r = next(f, b'') if e['w'] else f.readline()
        elif a == 'lines':
            r = list(f) if e['w'] else f.readlines()
        elif a == 'able':
            f.seekable()             # (a failed relative seek makes Python's own files deny it)
            r = int((bool(f.readable()), bool(f.writable()), bool(f.isatty()), f.mode, os.path.samestat(os.fstat(f.fileno()), os.stat(f.name)))
                    == (True, False, False, 'rb', True))
        elif a == 'enter':
            g = f.__enter__()
            if box is not None:
                box['f'] = g
            return out
        elif a == 'exit':
            f.__exit__(None, None, None)
            return out
        elif a == 'tell':
            r = f.tell()
        elif a == 'seek':
            r = f.seek(e['n'], e['w']) if e['w'] else f.seek(e['n'])
        elif a == 'closed':
            r = int(bool(f.closed))
        elif a == 'close':
            f.close()
            return out
        elif a == 'closeall':
            f.closeAll()
            return out
        elif a == 'cleanup':
            f.cleanup()
            return out
        elif a == 'with':
            with f as g:
                r = g.read(e['n'])
        elif a == 'parse':
            if shared is None:
                f.seek(0)
                doc = tree.lib_schema(sc).load(f, headers=True)
            else:
                doc = shared
            out['nodes'] = tree.walk(doc, 'siblings' if e['w'] else 'plain')
            return out
        elif a == 'write':
            f.write(b'x')
            return out
        elif a == 'writelines':
            f.writelines([b'x'])
            return out
        elif a == 'truncate':
            f.truncate(*([e['n']] if e['w'] else []))
            return out
        else:
            raise AssertionError(a)
    except Exception as err:
        out['ok'] = 0
        out['err'] = '%s: %s' % (type(err).__name__, str(err)[:150])
        if a == 'parse':
            out['nodes'] = []
        return out
    if a == 'able':
        out['v'] = r
    elif ints:
        out['v'] = r if isinstance(r, int) else -9
    elif a == 'lines':
        out['v'] = [list(x) for x in r] if isinstance(r, list) else [[-9]]
    else:
        out['v'] = list(r) if isinstance(r, (bytes, bytearray)) else [-9]
    return out


def make(path, wrap=None):
    """A thread-aware file; wrap: the position of an already open file to be wrapped."""
    from ebmlite.threaded_file import ThreadAwareFile
    if wrap is None:
        return ThreadAwareFile(path, 'rb'), None
    orig = open(path, 'rb')
    orig.seek(wrap)
    return ThreadAwareFile.makeThreadAware(orig), orig


def file_event(content, n, by, at, wrapped, sc):
    return dict(op='file', c=list(content), n=n, by=by, at=at, wrapped=wrapped, sc=sc)


def scripted(content, hist, by=1, wrap=None, after=None, sc=0):
    """Whole operations, one at a time, in the order of hist: [{t, e}]; threads are real."""
    path = access.scratch_file(content)
    n = max([by] + [h['t'] for h in hist])
    after = {int(k): v for k, v in (after or {}).items()}
    ev = [file_event(content, n, by, wrap or 0, int(wrap is not None), sc)]
    qs, th, box = {}, {}, {}
    back = queue.Queue()

    def body(t):
        while True:
            fn = qs[t].get()
            if fn is None:
                return
            try:
                back.put(fn())
            except BaseException as err:
                back.put(err)

    def run(t, fn):
        if t not in th:
            p = after.get(t)
            if p is not None and p in th:
                qs[p].put(None)
                th[p].join()
            qs[t] = queue.Queue()
            th[t] = threading.Thread(target=body, args=(t,), daemon=True)
            th[t].start()
        qs[t].put(fn)
        r = back.get(timeout=8)
        if isinstance(r, BaseException):
            raise r
        return r

    def ctor():
        box['f'], box['orig'] = make(path, wrap)
    try:
        run(by, ctor)
        for h in hist:
            e = h['e']
            r = run(h['t'], lambda: perform(box['f'], e, sc, None, box))
            ev.append(dict(op='do', t=h['t'], o=0, **e, **r))
            if box['orig'] is not None:
                o = box['orig']
                ev.append(dict(op='orig', closed=int(o.closed), tell=-1 if o.closed else o.tell()))
        with open(path, 'rb') as g:
            ev.append(dict(op='content', c=list(g.read())))
        for x in list(getattr(box['f'], 'threads', {}).values()):
            x.close()
    except queue.Empty:
        ev.append(dict(op='hang'))
    finally:
        for t in th:
            qs[t].put(None)
        os.unlink(path)
    return ev


def concurrent(content, progs, switches, by=0, wrap=None, after=None, sc=0, share=False):
    """Programs {t: [e]} of threads, under one schedule.  by = 0: the file is made by the main thread."""
    from ebmlite import threaded_file
    path = access.scratch_file(content)
    n = max(progs)
    after = {int(k): v for k, v in (after or {}).items()}
    sched = Sched(n, switches)
    new = coop(sched)
    old = {}
    for k, c in new.items():
        for name, x in list(vars(threaded_file).items()):
            if x is getattr(threading, k):
                old[name] = x
                setattr(threaded_file, name, c)
    for name, x in list(vars(threaded_file).items()):
        if x is threading:
            old[name] = x
            setattr(threaded_file, name, Module(new))
    src = threaded_file.__file__
    ev = [file_event(content, n + 1, by or n + 1, wrap or 0, int(wrap is not None), sc)]
    box = {}

    def tracer(t):
        def local(frame, event, arg):
            if event == 'line':
                sched.point(t)
            return local

        def top(frame, event, arg):
            return local if frame.f_code.co_filename == src else None
        return top

    def body(t):
        sched.enter(t)
        try:
            if by == t:
                box['f'], box['orig'] = make(path, wrap)
            sys.settrace(tracer(t))
            for e in progs[t]:
                sched.point(t)
                if e['a'] == 'closeall':
                    ev.append(dict(op='begin', t=t))
                k = len(ev)
                r = perform(box['f'], e, sc, box.get('doc') if share else None, box)
                # o: a closeAll() ended between the beginning and the end of this operation
                o = int(any(x['op'] == 'do' and x['a'] == 'closeall' for x in ev[k:]))
                ev.append(dict(op='do', t=t, o=o, **e, **r))
        finally:
            sys.settrace(None)
            sched.finish(t)
    th = {}

    def start(t):
        th[t] = threading.Thread(target=body, args=(t,), daemon=True)
        th[t].start()
        while t not in sched.started:
            pass
    stuck = False
    try:
        if not by:
            box['f'], box['orig'] = make(path, wrap)
            if share:
                box['doc'] = tree.lib_schema(sc).load(box['f'], headers=True)
                ev.append(dict(op='do', t=n + 1, a='parse', n=0, w=0, o=0, ok=1, v=[], nodes=tree.walk(box['doc'])))
        for t in sorted(progs):
            if t not in after:
                start(t)
        sched.give(by or sched.pick())
        waiting, seen, stuck_at, blocked = 0, None, 0, set()
        while len(sched.done) < len(progs):
            if not sched.main.acquire(timeout=0.4):
                # is the running thread blocked outside of our control?  Let another one go on then
                last, seen = seen, sched.asleep()
                if seen is None or seen != last:
                    continue
                seen = None
                if stuck_at != sched.step:
                    waiting, stuck_at, blocked = 0, sched.step, set()
                waiting += 1
                blocked.add(sched.cur)
                if waiting > 8:
                    stuck = True
                    break
                u = sched.pick(blocked)
                if u is None:
                    blocked = set()
                if u is not None:
                    sched.give(u)
                continue
            waiting = 0
            for t in sorted(progs):
                if t not in th and after[t] in sched.done:
                    th[after[t]].join()
                    start(t)
            if sched.cur in sched.started and sched.cur not in sched.done:
                continue                      # another one finished, which had been blocked outside of our control
            u = sched.pick()
            if u is None and len(sched.done) < len(progs):      # all wait for something that never comes
                sched.deadlock += 1
                u = next(t for t in sorted(progs) if t in sched.started and t not in sched.done)
                sched.cond.pop(u, None)
            if u is not None:
                sched.give(u)
        if stuck:
            ev.append(dict(op='hang'))
        elif sched.deadlock:
            ev.append(dict(op='deadlock'))
        with open(path, 'rb') as g:
            ev.append(dict(op='content', c=list(g.read())))
    finally:
        for k, c in old.items():
            setattr(threaded_file, k, c)
        if 'f' in box and not stuck:
            for s in list(getattr(box['f'], 'threads', {}).values()):
                s.close()
        os.unlink(path)
    return ev, sched.step


def sweep(rng, content, progs, limit, pairs=None, **kw):
    """Schedules with every single preemption (or limit of them), and random pairs; distinct histories only."""
    seen, out = set(), []
    until = time.monotonic() + 30             # (code that blocks outside of our control makes schedules slow)

    def one(sw):
        if time.monotonic() > until:
            return 1
        ev, steps = concurrent(content, progs, sw, **kw)
        k = repr(ev)
        if k not in seen:
            seen.add(k)
            out.extend(ev)
        return steps
    total = one({})
    singles = [(k, u) for k in range(1, total + 1) for u in progs]
    rng.shuffle(singles)
    for k, u in singles[:limit]:
        one({k: u})
    for _ in range(limit // 2 if pairs is None else pairs):
        ks = rng.sample(range(1, total + 10), min(rng.choice([2, 2, 3, 5]), total))
        one({k: rng.choice(list(progs)) for k in ks})
    return out
