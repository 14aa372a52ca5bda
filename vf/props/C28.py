"""Failing streams (specs/Fault.tla, FaultMC.tla, FaultTrace.tla)."""
import random

from vf import access, fault, tree
from vf.fault import TRACE  # noqa: F401
from vf.props.C11 import setup  # noqa: F401

CASE_TIMEOUT = 60


def MC(tier):
    q = tier == 'quick'
    return [dict(module='FaultMC', cfg='FaultMC.cfg', name='hist', env=dict(STEPS='2' if q else '3', MAXOBJ='6', EXPORT='1'), export=True, workers=3, timeout=1500),
            dict(module='FaultMC', cfg='FaultView.cfg', name='deep', env=dict(STEPS='3' if q else '5', MAXOBJ='6', EXPORT='0'), workers=3, timeout=3000)]


def cases(tier, rng, exported):
    q, cs, n = tier == 'quick', [], len(tree.descs())
    ex = exported['hist']

    def seed():
        return rng.randrange(1 << 30)
    for x in rng.sample(ex, min(4000 if q else 60000, len(ex))):
        cs.append(dict(kind='model', doc=x['doc'], ops=x['ops'], io=rng.choice(['shim', 'bytesio', 'file']), seed=seed()))
    for _ in range(2500 if q else 50000):
        cs.append(dict(kind='random', sc=rng.randint(1, n), seed=seed(), n=rng.choice([8, 16, 30]), hdr=rng.randint(0, 1), s=rng.choice([0, 0, 3]),
                       io=rng.choice(['shim', 'shim', 'bytesio', 'file']), p=rng.choice([0.1, 0.3, 0.6])))
    for _ in range(500 if q else 10000):
        cs.append(dict(kind='reading', sc=rng.randint(1, n), seed=seed()))
        cs.append(dict(kind='writing', sc=rng.randint(1, n), seed=seed(), what=rng.choice(['encode', 'encode', 'x2e', 'x2e', 'print', 'codec-text', 'codec-bytes', 'schemata'])))
    for _ in range(60 if q else 1000):
        cs.append(dict(kind='loading', sc=rng.randint(1, n), seed=seed()))
        cs.append(dict(kind='shared', seed=seed()))
    for k in range(32 if q else 400):
        cs.append(dict(kind='commands', sc=rng.choice([1, 2, 3, 6, 7]), seed=seed(), tool=['ebml2xml', 'xml2ebml', 'view', 'list'][k % 4], to=['stdout', 'file'][k // 4 % 2]))
    return cs


def observe(c):
    if c['kind'] == 'model':
        s = fault.Session()
        d = access.docs()[c['doc'] - 1]
        s.open(s.src(d['d'], c['io']), d['sc'], d['s'], d['hdr'])
        fault.replay(c['ops'], s, random.Random(c['seed']))
        return s.finish()
    return getattr(fault, 'history' if c['kind'] == 'random' else c['kind'])(c)
