"""Runs harness cases against the real code (no transformation) with concrete inputs.

usage: native.py JOBS.json RESULTS.json, run by the interpreter the repository uses."""
import importlib
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

from vlib import normal, stubs  # noqa: E402

stubs.install()


class Excluded(BaseException):
    """The inputs lie outside the assumptions."""


class Hang(BaseException):
    pass


class NativeCtx(object):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failures = []
        self.observed = []
        self.covered = []
        self.obligations = 0

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise Excluded(name)
        return v

    def byte(self, name):
        return self.int(name, 0, 255)

    def bytes(self, name, n):
        return bytes(bytearray(self.byte('%s[%d]' % (name, i)) for i in range(n)))

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def choice(self, name, seq):
        return seq[self.int(name, 0, len(seq) - 1)]

    pick = choice

    def assume(self, cond):
        if not cond:
            raise Excluded()

    def check(self, cond, label):
        self.obligations += 1
        if not cond:
            self.failures.append(label)

    def fail(self, label):
        self.obligations += 1
        self.failures.append(label)

    def observe(self, label, value):
        self.observed.append([label, normal.norm(value)])

    def cover(self, label):
        self.covered.append(label)

    def stop(self):
        raise Excluded()

    def fork(self, cond):
        return bool(cond)

    def unsupported(self, why):
        raise Excluded()


def _alarm(*_):
    raise Hang()


def run(job):
    mod = importlib.import_module('checks.' + job['module'])
    cases = {c[0]: c for c in mod.cases(job['tier'])}
    c = cases[job['case']]
    ctx = NativeCtx(job['inputs'])
    out = {'status': 'ok', 'exception': None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(job.get('limit', 30)))
    try:
        c[1](ctx, **c[2])
    except Excluded:
        out['status'] = 'excluded'
    except Hang:
        out['status'] = 'hang'
        ctx.failures.append('terminates within %s s' % job.get('limit', 30))
    except Exception as e:
        out['status'] = 'exception'
        out['exception'] = traceback.format_exc(limit=-8)
        ctx.failures.append('raises no unexpected exception (%s)' % type(e).__name__)
    finally:
        signal.alarm(0)
    out['failures'] = ctx.failures
    out['observed'] = ctx.observed
    out['obligations'] = ctx.obligations
    return out


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    results = []
    for j in jobs:
        try:
            results.append(run(j))
        except Exception:
            results.append({'status': 'error', 'exception': traceback.format_exc(limit=-8), 'failures': [],
                            'observed': [], 'obligations': 0})
    with open(sys.argv[2], 'w') as f:
        json.dump(results, f)


if __name__ == '__main__':
    main()
