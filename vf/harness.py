"""One check: model checking of the specification, cases, execution on the real code,
validation of the recorded traces by TLC, verdict, evidence."""
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

from . import tlc

VERIF = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = min(8, os.cpu_count() or 4)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('fixed:') or line.startswith('#'):
                continue
            k = json.loads(line)
            if k['property'] == prop:
                res.append(k)
    return res


def matches(known, event, clauses):
    """A known finding names the event fields (exact values, or lists under "in") and clause."""
    m = known['match']
    if 'clause' in m and not set(clauses) <= set(m['clause']):
        return False
    for f, v in m.get('fields', {}).items():
        if event.get(f) != v:
            return False
    for f, vs in m.get('in', {}).items():
        if event.get(f) not in vs:
            return False
    return True


def split(cases, n):
    n = max(1, min(n, len(cases)))
    return [cases[i::n] for i in range(n)]


def run_workers(prop, cases, scratch, deadline):
    """Execute cases in subprocesses; returns list of (case, events)."""
    groups = split(cases, NPROC)
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPATH=REPO + os.pathsep + VERIF, HOME=scratch, TMPDIR=scratch)
    env.pop('EBMLITE_SCHEMA_PATH', None)

    def launch(g, first):
        cf, of = os.path.join(scratch, 'cases-%d' % g), os.path.join(scratch, 'out-%d' % g)
        wd = os.path.join(scratch, 'wd-%d' % g)
        os.makedirs(wd, exist_ok=True)
        return subprocess.Popen([PY, os.path.join(VERIF, 'vf', 'worker.py'), prop, cf, of, str(first)],
                                env=dict(env, TMPDIR=wd), cwd=wd, stdin=subprocess.DEVNULL,
                                stdout=subprocess.DEVNULL,
                                stderr=open(os.path.join(scratch, 'err-%d' % g), 'a'))
    for g, cs in enumerate(groups):
        with open(os.path.join(scratch, 'cases-%d' % g), 'w') as f:
            for c in cs:
                f.write(json.dumps(c, separators=(',', ':')) + '\n')
        open(os.path.join(scratch, 'out-%d' % g), 'w').close()
        procs.append(launch(g, 0))
    results = []
    for g, cs in enumerate(groups):
        p = procs[g]
        crashes = 0
        stall = getattr(importlib.import_module('vf.props.' + prop), 'CASE_TIMEOUT', 10) * 3 + 20
        while True:
            # a worker that makes no progress at all is killed: its case in progress hangs
            path = os.path.join(scratch, 'out-%d' % g)
            while True:
                try:
                    p.wait(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() - os.path.getmtime(path) > stall or time.time() > deadline:
                        p.kill()
                        p.wait()
                        break
            lines = open(path).read().split('\n')
            if '#end' in lines:
                break
            starts = [int(x[1:]) for x in lines if x.startswith('#') and x != '#end']
            if not starts:
                raise tlc.MachineryError('worker %d did not start: %s' % (
                    g, open(os.path.join(scratch, 'err-%d' % g)).read()[-3000:]))
            last = starts[-1]
            if time.time() > deadline:
                raise tlc.MachineryError('workers ran out of time')
            crashes += 1
            if crashes > 5:
                raise tlc.MachineryError('worker keeps dying: %s' % (
                    open(os.path.join(scratch, 'err-%d' % g)).read()[-3000:]))
            # drop the partial output of the case in progress, record the crash
            cut = len(lines) - 1 - lines[::-1].index('#%d' % last)
            with open(path, 'w') as f:
                f.write('\n'.join(lines[:cut + 1]) + '\n' + json.dumps(dict(op='hang')) + '\n')
            if last + 1 >= len(cs):
                with open(path, 'a') as f:
                    f.write('#end\n')
                break
            p = launch(g, last + 1)
        cur, ev = None, []
        for line in open(os.path.join(scratch, 'out-%d' % g)):
            line = line.rstrip('\n')
            if line.startswith('#'):
                if cur is not None:
                    results.append((cs[cur], ev))
                cur, ev = (None if line == '#end' else int(line[1:])), []
            elif line:
                ev.append(line)
    return results


def validate(spec, results, scratch, deadline, env, shards=None, heap='2g'):
    """Check recorded events with TLC; returns (bad list, states, number of validated cases)."""
    module, cfg = spec
    results = [r for r in results if r[1]]
    total = sum(sum(map(len, ev)) for _, ev in results)
    n = shards or max(1, min(NPROC, total // 30000 + 1))
    bins = [[0, []] for _ in range(n)]
    for r in sorted(results, key=lambda r: -sum(map(len, r[1]))):
        b = min(bins, key=lambda b: b[0])
        b[0] += sum(map(len, r[1])) + 50
        b[1].append(r)
    jobs = []
    for k, (_, rs) in enumerate(bins):
        if not rs:
            continue
        path = os.path.join(scratch, 'trace-%s-%d.ndjson' % (module, k))
        index = []
        with open(path, 'w') as f:
            for case, ev in rs:
                for j, line in enumerate(ev):
                    f.write(line + '\n')
                    index.append((case, ev, j))
        jobs.append((tlc.start(module, cfg, scratch, env=dict(env or {}, TRACE=path), heap=heap), index))
    bad, states, trans = [], 0, 0

    def note(bs, index):
        for b in bs:
            case, ev, j = index[b['line'] - 1]
            bad.append(dict(case=case, event=json.loads(ev[j]), step=j, clauses=b['bad'],
                            detail=b.get('detail')))
    for p, index in jobs:
        try:
            r = tlc.finish(p, deadline - time.time(), traced=True)
        except tlc.EvalError as err:
            # a recorded step that is nothing the specification knows of; the rest of the trace is not validated
            log('not explained by the specification:', str(err)[-1200:])
            note(err.bad, index)
            note([dict(line=min(err.line, len(index)), bad=['unexplained'])], index)
            states += err.distinct
            trans += err.states
            continue
        states += r.distinct
        trans += r.states
        note(r.bad, index)
    return bad, states, trans, len(results)


def run_check(prop, tier, seed, replay=None):
    t0 = time.time()
    if replay:
        r = json.load(open(replay))
        seed, tier = r.get('seed', seed), r.get('tier', tier)
    mod = importlib.import_module('vf.props.' + prop)
    limit = 840 if tier == 'quick' else int(os.environ.get('VERIF_LIMIT', '6000'))
    deadline = t0 + limit
    base = os.environ.get('VERIF_SCRATCH', '/tmp')
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir=base)
    try:
        return _run(prop, mod, tier, seed, t0, deadline, scratch, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, mod, tier, seed, t0, deadline, scratch, replay):
    rng = random.Random('%s-%d' % (prop, seed))
    env = {}
    if hasattr(mod, 'setup'):
        env.update(mod.setup(scratch, rng, tier) or {})
    os.environ.update(env)
    states = trans = 0
    mc_report, exported = [], {}
    mcs = mod.MC(tier) if hasattr(mod, 'MC') and not replay else []
    running = []
    for m in mcs:
        p = tlc.start(m['module'], m['cfg'], scratch, env=dict(env, **m.get('env', {})),
                      workers=m.get('workers', 4), heap=m.get('heap', '3g'), extra=m.get('extra', ()))
        running.append((m, p))

    def collect(m, p):
        nonlocal states, trans
        r = tlc.finish(p, min(deadline - time.time(), m.get('timeout', 600)), m.get('partial_ok', False))
        if 'is violated' in r.out:
            raise tlc.MachineryError('specification property violated in %s:\n%s' % (m['cfg'], r.out[-4000:]))
        states += r.distinct
        trans += r.states
        exported.setdefault(m.get('name', m['cfg']), []).extend(r.cases)
        mc_report.append(dict(config=m['cfg'], states=r.states, distinct=r.distinct, exported=len(r.cases),
                              complete=r.complete, wall_s=round(r.wall, 1)))

    later = []
    for m, p in running:
        if m.get('export'):
            collect(m, p)
        else:
            later.append((m, p))
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        cases = mod.cases(tier, rng, exported)
    t1 = time.time()
    results = run_workers(prop, cases, scratch, deadline) if cases else []
    t2 = time.time()
    bad, nval = [], 0
    specs = mod.TRACE if isinstance(mod.TRACE, list) else [mod.TRACE]
    if len(specs) == 1:
        b, s, t, nval = validate(specs[0], results, scratch, deadline, env)
        bad, states, trans = bad + b, states + s, trans + t
    else:                                    # events carry "t": index of the trace specification
        for k, sp in enumerate(specs):
            rs = [(c, [l for l in ev if json.loads(l).get('t', 0) == k]) for c, ev in results]
            rs = [r for r in rs if r[1]]
            if rs:
                b, s, t, n = validate(sp, rs, scratch, deadline, env)
                bad, states, trans, nval = bad + b, states + s, trans + t, nval + n
    for m, p in later:
        collect(m, p)
    t3 = time.time()
    known = load_known(prop)
    seen, violations = set(), []
    for b in bad:
        for k in known:
            if matches(k, b['event'], b['clauses']):
                seen.add(k['id'])
                break
        else:
            violations.append(b)
    for k in known:
        if k['id'] in seen:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what']))
    nev = sum(len(ev) for _, ev in results)
    samples = []
    for c, ev in results[:: max(1, len(results) // 4)][:4]:
        samples.append(dict(case=_short(c), events=[_short(e) for e in ev[:2]]))
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=nval,
               samples=samples, events_validated=nev, model_runs=mc_report,
               distinct_cases=len({json.dumps(c, sort_keys=True) for c, _ in results}),
               case_kinds=_kinds(results),
               phases_s=dict(model_and_cases=round(t1 - t0, 1), execution=round(t2 - t1, 1),
                             validation=round(t3 - t2, 1)))
    if hasattr(mod, 'coverage'):
        cov.update(mod.coverage(results))
    evd = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
               wall_s=round(time.time() - t0, 2), violations=len(violations),
               assumptions=getattr(mod, 'ASSUMPTIONS', []))
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evd, f, indent=1)
            f.write('\n')
    if violations:
        out = os.path.join(VERIF, 'out', 'replay')
        os.makedirs(out, exist_ok=True)
        kinds = {}
        for b in violations:
            kinds.setdefault(json.dumps([b['clauses'], b['event'].get('op')]), []).append(b)
        n = 0
        for kind, bs in list(kinds.items())[:8]:
            b = min(bs, key=lambda b: len(json.dumps(b['case'])))
            b.update(occurrences=len(bs), property=prop, seed=seed, tier=tier)
            text = json.dumps(b, indent=1)
            path = os.path.join(out, '%s-%s.json' % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
            open(path, 'w').write(text + '\n')
            log('violated clauses %s in %d cases; smallest: %s' % (kind, len(bs), _short(b['event'], 1500)))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s %s: ok, %d cases, %d events validated, %d states, %.1fs' % (
        prop, tier, len(results), nev, states, time.time() - t0))
    return 0


def _short(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x, separators=(',', ':'))
    return s if len(s) <= n else s[:n] + '...(%d more)' % (len(s) - n)


def _kinds(results):
    d = {}
    for c, _ in results:
        k = str(c.get('kind', c.get('op', '')))
        d[k] = d.get(k, 0) + 1
    return d


def selftest():
    """Parses every specification (setup_cmd); nothing is built, checks need only java and python."""
    import glob
    scratch = tempfile.mkdtemp(prefix='vf-setup-')
    try:
        for f in sorted(glob.glob(os.path.join(tlc.SPECS, '*.tla'))):
            r = subprocess.run(['java', '-Djava.io.tmpdir=' + scratch, '-cp', tlc.CP, 'tla2sany.SANY', f],
                               capture_output=True, text=True, cwd=tlc.SPECS)
            if r.returncode != 0 or '*** Errors' in r.stdout:
                print(r.stdout[-3000:], r.stderr[-1000:])
                print('cannot parse', f)
                return 1
        print('specifications parsed')
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
