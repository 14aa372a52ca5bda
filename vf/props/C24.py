"""The command-line tools (specs/Cli.tla, CliMC.tla, CliTrace.tla)."""
from vf import cli, tree
from vf.cli import TRACE  # noqa: F401

CASE_TIMEOUT = 60


def setup(scratch, rng, tier):
    return tree.setup_schemas(scratch, rng, tier)


def MC(tier):
    q = tier == 'quick'
    return [dict(module='CliMC', cfg='CliMC.cfg', name='hist', env=dict(STEPS='2', EXPORT='1'), export=True, workers=3, timeout=1500),
            dict(module='CliMC', cfg='CliView.cfg', name='deep', env=dict(STEPS='2' if q else '4', EXPORT='0'), workers=3, timeout=3000)]


def cases(tier, rng, exported):
    q, cs, n = tier == 'quick', [], len(tree.descs())
    ex = exported['hist']

    def sc():
        return rng.randint(2, 5) if rng.random() < 0.25 else rng.randint(1, n)
    for h in rng.sample(ex, min(1500 if q else 40000, len(ex))):
        cs.append(dict(kind='model', hist=h, sc=sc(), seed=rng.randrange(1 << 30)))
    for _ in range(1000 if q else 20000):
        k = sc()
        cs.append(dict(kind='random', hist=[cli.rand_cmd(rng, k) for _ in range(rng.choice([1, 3, 6, 10]))], sc=k, seed=rng.randrange(1 << 30)))
    for _ in range(40 if q else 1000):
        k = sc()
        cs.append(dict(kind='process', sub=1, hist=[cli.rand_cmd(rng, k) for _ in range(3)], sc=k, seed=rng.randrange(1 << 30)))
    return cs


def observe(c):
    return cli.history(c)
