"""Running TLC on the specifications."""
import atexit
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.normpath(os.path.join(HERE, '..', 'specs'))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class EvalError(MachineryError):
    """TLC could not evaluate a step of a recorded trace; line: which one."""
    line = None


class Result:
    def __init__(self, states, distinct, bad, cases, wall, out):
        self.states, self.distinct, self.bad, self.cases = states, distinct, bad, cases
        self.wall, self.out = wall, out


def _unquote(line):
    # PrintT shows the string with \" and \\ escapes
    return json.loads(line)


_running = []


def kill_all():
    for p in _running:
        if p.poll() is None:
            p.kill()


atexit.register(kill_all)


def start(module, cfg, scratch, env=None, workers=1, heap='1500m', extra=()):
    meta = tempfile.mkdtemp(prefix='md-', dir=scratch)
    cmd = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-noGenerateSpecTE', '-metadir', meta, '-config', os.path.join(SPECS, cfg),
           *extra, os.path.join(SPECS, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    out = open(os.path.join(meta, 'stdout'), 'w+')
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, cwd=meta)
    _running.append(p)
    p._meta, p._out, p._t0, p._what = meta, out, time.time(), '%s/%s' % (module, cfg)
    return p


def finish(p, timeout, partial_ok=False, traced=False):
    """partial_ok: a timeout is an incomplete but valid exploration (returns what was found)."""
    complete = True
    try:
        p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        complete = False
        if not partial_ok:
            raise MachineryError('TLC timeout: ' + p._what)
    p._out.seek(0)
    bad, cases, rest = [], [], []
    states = distinct = 0
    for line in p._out:
        if line.startswith('"@BAD '):
            bad.append(json.loads(_unquote(line)[5:]))
        elif line.startswith('"@CASE '):
            cases.append(json.loads(_unquote(line)[6:]))
        else:
            rest.append(line)
            m = re.match(r'(\d+) states generated, (\d+) distinct', line)
            if m:
                states, distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r'Progress\(\d+\).*?: ([\d,]+) states generated.*?, ([\d,]+) distinct', line)
            if m:
                states, distinct = (int(x.replace(',', '')) for x in m.groups())
    p._out.close()
    shutil.rmtree(p._meta, ignore_errors=True)
    text = ''.join(rest)
    if complete and p.returncode != 0 and traced and 'StackOverflow' not in text and 'OutOfMemory' not in text:
        at = re.findall(r'^(?:/\\ )?i = (\d+)$', text, re.M)
        if at and 'Error: ' in text:
            err = EvalError(text[-2000:])
            err.line, err.bad, err.states, err.distinct = int(at[-1]), bad, states, distinct
            raise err
    if complete and p.returncode != 0:
        raise MachineryError('TLC failed (%d) on %s:\n%s' % (p.returncode, p._what, re.sub(r'(Semantic processing|Parsing file).*\n', '', text)[-3000:]))
    r = Result(states, distinct, bad, cases, time.time() - p._t0, text)
    r.complete = complete
    return r


def run(module, cfg, scratch, timeout=300, **kw):
    partial = kw.pop('partial_ok', False)
    return finish(start(module, cfg, scratch, **kw), timeout, partial)
