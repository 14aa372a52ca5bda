"""Several documents, schemata and conversions in one process (specs/Session.tla, SessionMC.tla, SessionTrace.tla)."""
from vf import session, tree
from vf.session import TRACE  # noqa: F401

CASE_TIMEOUT = 60


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier, n=40)


def MC(tier):
    q = tier == 'quick'
    return [dict(module='SessionMC', cfg='SessionMC.cfg', name='hist', env=dict(STEPS='4' if q else '5', USERS='2', EXPORT='1'), export=True, workers=3, timeout=1500),
            dict(module='SessionMC', cfg='SessionView.cfg', name='deep', env=dict(STEPS='5' if q else '7', USERS='2', EXPORT='0'), workers=3, timeout=3000),
            dict(module='SessionMC', cfg='SessionView.cfg', name='three', env=dict(STEPS='4' if q else '5', USERS='3', EXPORT='0'), workers=3, timeout=3000)]


def cases(tier, rng, exported):
    q, ex = tier == 'quick', exported['hist']
    cs = [dict(kind='model', users=2, hist=h, seed=rng.randrange(1 << 30)) for h in rng.sample(ex, min(1200 if q else 20000, len(ex)))]
    cs += [dict(kind='keep', seed=rng.randrange(1 << 30)) for _ in range(150 if q else 5000)]
    return cs + [session.rand_case(rng) for _ in range(1500 if q else 20000)]


def observe(c):
    return session.observe(c)
