"""Threads on one thread-aware file never disturb each other (specs/ThreadFile.tla, ThreadMC.tla, ThreadImpl.tla, ThreadTrace.tla)."""
import random

from vf import threads, tree
from vf.threads import TRACE  # noqa: F401

CASE_TIMEOUT = 60


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, n=2)


def MC(tier):
    q = tier == 'quick'
    return [dict(module='ThreadMC', cfg='ThreadMC.cfg', name='hist', env=dict(THREADS='2', STEPS='3' if q else '4', EXPORT='1'), export=True, workers=3, timeout=1500),
            dict(module='ThreadMC', cfg='ThreadView.cfg', name='deep', env=dict(THREADS='3', STEPS='6' if q else '9', EXPORT='0'), workers=3, timeout=1500),
            dict(module='ThreadImpl', cfg='ThreadImpl.cfg', name='impl', env=dict(STEPS='1' if q else '2'), workers=3, timeout=1500)]


def op(rng, own=True):
    a = rng.choice(['read'] * 4 + ['seek'] * 3 + ['tell', 'tell', 'line', 'lines', 'closed', 'able'] + (['close', 'cleanup', 'cleanup', 'with', 'enter', 'enter', 'exit'] if own else []))
    if a == 'seek':
        w = rng.choice([0, 0, 1, 2])
        return dict(a=a, n=rng.randint(0, 12) if w == 0 else rng.randint(-4, 4), w=w)
    return dict(a=a, n=rng.choice([1, 2, 3, -1, 100]) if a in ('read', 'with') else 0, w=rng.randint(0, 2) if a == 'read' else rng.randint(0, 1) if a in ('line', 'lines') else 0)


def prog(rng, n):
    """A program that does nothing unspecified: after closing, the thread only asks whether it is closed."""
    out, shut = [], False
    for _ in range(n):
        e = op(rng)
        if shut and e['a'] not in ('close', 'cleanup', 'closed', 'exit') and rng.random() < 0.7:
            continue
        out.append(e)
        shut = shut or e['a'] in ('close', 'with', 'exit')
    return out or [dict(a='tell', n=0, w=0)]


def cases(tier, rng, exported):
    cs = []
    q = tier == 'quick'
    ex = [h for h in exported['hist'] if all(x['e']['a'] != 'closeall' for x in h)]
    for h in rng.sample(ex, min(1500 if q else 20000, len(ex))):
        cs.append(dict(kind='model', hist=h, by=1))
    ss = tree.descs()
    for _ in range(220 if q else 3000):
        n = rng.choice([2, 2, 2, 3])
        b = list(tree.render(tree.rand_doc(rng, ss[0], budget=rng.choice([1, 2, 3]), p_unk=0.1)))
        progs = {str(t): prog(rng, rng.choice([1, 2, 3])) for t in range(1, n + 1)}
        after = {}
        if rng.random() < 0.4:                # a thread that starts when another has finished
            after = {str(n): rng.randint(1, n - 1)}
        cs.append(dict(kind='threads', d=b, progs=progs, after=after, by=rng.choice([0, 0, 1]), limit=60 if q else 200,
                       wrap=rng.choice([None, None, None, rng.randint(0, 5)]), seed=rng.randrange(1 << 30)))
    for _ in range(40 if q else 500):
        n = rng.choice([2, 3])
        b = list(tree.render(tree.rand_doc(rng, ss[0], budget=rng.choice([2, 4]), p_unk=0.3)))
        share = int(rng.random() < 0.4)
        progs = {str(t): [dict(a='parse', n=0, w=rng.randint(0, 1))] + (prog(rng, 1) if rng.random() < 0.5 else []) for t in range(1, n + 1)}
        cs.append(dict(kind='parse', d=b, progs=progs, after={}, by=0, limit=40 if q else 150, wrap=None, seed=rng.randrange(1 << 30), share=share))
    for _ in range(500 if q else 6000):
        n = rng.choice([2, 3, 4])
        ps = {t: prog(rng, rng.randint(1, 5)) for t in range(1, n + 1)}
        after = {str(n): 1} if n > 2 and rng.random() < 0.5 else {}
        order = [t for t in ps for _ in ps[t]]
        rng.shuffle(order)
        if after:
            order = [t for t in order if t != n] + [n] * len(ps[n])
        its = {t: iter(p) for t, p in ps.items()}
        cs.append(dict(kind='scripted', hist=[dict(t=t, e=next(its[t])) for t in order], by=1, after=after,
                       wrap=rng.choice([None, None, 2]), d=[rng.choice([10, 65, rng.randint(0, 255)]) for _ in range(rng.randint(0, 12))]))
    return cs


def observe(c):
    if c['kind'] == 'model':
        return threads.scripted(bytes([161, 10, 7, 10, 9]), c['hist'], c['by'])
    if c['kind'] == 'scripted':
        return threads.scripted(bytes(c['d']), c['hist'], c['by'], c['wrap'], c['after'])
    rng = random.Random(c['seed'])
    return threads.sweep(rng, bytes(c['d']), {int(t): p for t, p in c['progs'].items()}, c['limit'], by=c['by'], wrap=c['wrap'],
                         after=c['after'], sc=1, share=bool(c.get('share')))
