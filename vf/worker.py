"""Executes cases against the real library and records events (runs in a subprocess).

usage: worker.py PROP CASES.ndjson OUT.ndjson FIRST
"""
import importlib
import json
import os
import resource
import signal
import sys
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')))
sys.setrecursionlimit(5000)
warnings.simplefilter('ignore')


class CaseTimeout(BaseException):
    pass


def _alarm(_s, _f):
    raise CaseTimeout()


def main():
    prop, cases, out, first = sys.argv[1:5]
    first = int(first)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = importlib.import_module('vf.props.' + prop)
    import ebmlite
    if not os.path.realpath(ebmlite.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print('ebmlite imported from', ebmlite.__file__, file=sys.stderr)
        return 3
    limit = getattr(mod, 'CASE_TIMEOUT', 10)
    signal.signal(signal.SIGALRM, _alarm)
    with open(cases) as f, open(out, 'a') as o:
        for k, line in enumerate(f):
            if k < first:
                continue
            case = json.loads(line)
            o.write('#%d\n' % k)
            o.flush()
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                events = mod.observe(case)
            except CaseTimeout:
                events = [dict(op='hang')]
            except Exception as err:
                # an operation the property says succeeds has failed
                events = [dict(op='crash', err='%s: %s' % (type(err).__name__, str(err)[:300]),
                               tb=traceback.format_exc()[-1500:])]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            for e in events:
                o.write(json.dumps(e, separators=(',', ':')))
                o.write('\n')
        o.write('#end\n')
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
