"""Decides one property: python3-vt /verif/run.py C01 [--tier quick|thorough] [--case NAME] [-v]

Every case of /verif/checks/cNN.py is executed symbolically over the current source of the repository (symx); each
check of the harness is a query to z3.  Counterexamples are replayed natively (native.py); so are solver-made witnesses
of explored paths, whose observed values must agree with the symbolic run.

exit 0: held on everything explored; 1: VIOLATION (reproduced natively); 2: the check itself is broken."""
import argparse
import fnmatch
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
PYPY = '/opt/venv-pypy/bin/python'
JOBS = 8
BUDGET = {'quick': 240, 'thorough': 780}
CHECK_MS = {'quick': 30000, 'thorough': 120000}

sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


# -- one case, in a child process --------------------------------------------------------------------------------------

def make_ctx(tier):
    import z3
    from symx import evalm, hooks, values as V
    from symx.engine import ENG, Abort, Infeasible, z_not

    class SymCtx(object):
        symbolic = True

        def __init__(self):
            self.failures = {}
            self.observed = []
            self.covered = set()
            self.obligations = {}
            self.unknown = []
            self.domains = {}
            self.failpc = []

        def _var(self, name, lo, hi):
            v = ENG.inputs.get(name)
            if v is None:
                v = ENG.inputs[name] = z3.Int(name)
                self.domains[name] = (lo, hi)
                ENG.domains[v.get_id()] = (v, lo, hi)
                V.leaf(v, lo, hi)
                ENG.add_side(z3.And(v >= lo, v <= hi))
            return v

        def int(self, name, lo, hi):
            if lo == hi:
                return lo
            return V.SymInt(self._var(name, lo, hi), lo, hi)

        def byte(self, name):
            return self.int(name, 0, 255)

        def bytes(self, name, n):
            return V.SymBytes([self.byte('%s[%d]' % (name, i)) for i in range(n)])

        def bool(self, name):
            return V.mkbool(self._var(name, 0, 1) == 1)

        def choice(self, name, seq):
            seq = list(seq)
            if len(seq) == 1:
                return seq[0]
            v = self._var(name, 0, len(seq) - 1)
            return seq[ENG.decide([v == i for i in range(len(seq))])]

        def pick(self, name, seq):
            seq = list(seq)
            if len(seq) == 1:
                return seq[0]
            from symx.merge import merge
            v = self._var(name, 0, len(seq) - 1)
            return merge([(v == i, x) for i, x in enumerate(seq)])

        def assume(self, cond):
            c = hooks.cond(cond)
            if c is True:
                return
            if c is False:
                raise Infeasible()
            ENG.assume(c.z)

        def check(self, cond, label):
            key = (label, tuple(c.get_id() for c in ENG.pc))
            c = hooks.cond(cond)
            if c is True:
                self.obligations.setdefault(key, 'trivial')
                return
            neg = z3.BoolVal(True) if c is False else z_not(c.z)
            key += (neg.get_id(),)
            ENG.keep.append((list(ENG.pc), neg))
            if key in self.obligations:
                return
            ENG.stats.obligations += 1
            r = ENG.check(neg, timeout=CHECK_MS[tier])
            if r == z3.unsat:
                self.obligations[key] = 'discharged'
            elif r == z3.sat:
                self.obligations[key] = 'failed'
                got = self.failures.setdefault(label, [])
                if len(got) < 4:
                    r, m = ENG.check(neg, timeout=CHECK_MS[tier], want_model=True)
                    if r == z3.sat:
                        got.append(self.inputs_of(m))
            else:
                self.obligations[key] = 'unknown'
                ENG.note_incomplete('solver answered unknown: ' + label)
                self.failpc.append(list(ENG.pc))

        def fail(self, label):
            self.check(False, label)

        def observe(self, label, value):
            self.observed.append((list(ENG.pc), label, evalm.snap(value)))

        def cover(self, label):
            self.covered.add(label)

        def fork(self, cond):
            """Goes on with cond true, and again with cond false"""
            c = hooks.cond(cond)
            return c if c is True or c is False else ENG.branch(c.z)

        def unsupported(self, why):
            V.unsupported(why)

        def stop(self):
            ENG.regions[-1].assumed = True
            raise Infeasible()

        def inputs_of(self, m):
            return {n: m.eval(v, model_completion=True).as_long() for n, v in ENG.inputs.items()}

    return SymCtx()


def witness_models(ctx, pcs, seed, limit):
    """Diverse models, each of one of the path conditions."""
    import z3
    from symx.engine import ENG
    rnd = random.Random(seed)
    out = []
    pcs = list(pcs)
    names = sorted(ENG.inputs)
    end = time.time() + 10
    k = 0
    while len(out) < limit and time.time() < end and k < limit * 2:
        pc = pcs[k % len(pcs)]
        k += 1
        ENG.pc = list(pc)
        fixed = []
        want = []
        for n in names:
            lo, hi = ctx.domains[n]
            c = rnd.random()
            v = rnd.randint(lo, hi) if c < 0.7 else (lo if c < 0.85 else hi)
            want.append(ENG.inputs[n] == v)
        rnd.shuffle(want)
        stack = [want]
        tries = 0
        best = None
        while stack and tries < 24:
            part = stack.pop()
            tries += 1
            r, m = ENG.check(None, timeout=2000, want_model=True, extra=tuple(fixed + part))
            if r == z3.sat:
                best = m
                fixed += part
            elif len(part) > 1:
                h = len(part) // 2
                stack.append(part[h:])
                stack.append(part[:h])
        if best is None:
            r, best = ENG.check(None, timeout=5000, want_model=True)
            if r != z3.sat:
                continue
        out.append(best)
    return out


def run_case(case, tier, seed, deadline, verbose=False):
    from symx import engine, evalm
    from symx.engine import ENG, Abort, Control, Infeasible
    engine.reset()
    t0 = time.time()
    ENG.deadline = deadline
    ctx = make_ctx(tier)
    name, f, kw = case[0], case[1], case[2]
    raw = getattr(f, '__wrapped__', f)
    done = [0]
    abortpcs = []
    stop = [False]

    def alarm(*_):
        stop[0] = True
        ENG.note_incomplete('time budget exhausted')
        raise Abort('time budget exhausted')
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1, deadline - time.time()), 2)

    def root():
        try:
            raw(ctx, **kw)
            done[0] += 1
        except Abort as e:
            if verbose:
                sys.stderr.write('[%s] path aborted: %s\n%s\n' % (name, e, traceback.format_exc(limit=-12)))
            if not ENG.incomplete:
                ENG.note_incomplete('aborted: %s' % e)
            abortpcs.append(list(ENG.pc))
            if stop[0] or time.time() > deadline:
                raise
        except Control:
            raise
        except Exception as e:
            if verbose:
                sys.stderr.write('[%s] uncaught: %s\n' % (name, traceback.format_exc(limit=-12)))
            done[0] += 1
            ctx.fail('raises no unexpected exception (%s)' % type(e).__name__)
        return None
    try:
        ENG.explore(root)
    except Infeasible:
        pass
    except Control as e:
        if not ENG.incomplete:
            ENG.note_incomplete('aborted: %s' % e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        del ENG.regions[:]
    wall = time.time() - t0
    ENG.deadline = None
    seen = {}
    for pc, label, v in ctx.observed:
        seen.setdefault(tuple(c.get_id() for c in pc), pc)
    pcs = list(seen.values())
    rnd = random.Random(seed)
    rnd.shuffle(pcs)
    pcs = abortpcs[:20] + ctx.failpc[:6] + pcs + [[]]
    limit = {'quick': 5, 'thorough': 12}[tier] + (60 if ENG.incomplete else 0)
    witnesses = []
    stats = dict(ENG.stats.__dict__)
    for m in witness_models(ctx, pcs, seed, limit):
        obs = []
        for pc, label, v in ctx.observed:
            try:
                if all(evalm.z_bool(m, c) for c in pc):
                    obs.append([label, evalm.observe(v, m)])
            except evalm.Skip:
                obs = None
                break
        witnesses.append({'inputs': ctx.inputs_of(m), 'observed': obs})
    counts = {}
    for v in ctx.obligations.values():
        counts[v] = counts.get(v, 0) + 1
    return {'case': name, 'bounds': case[3] if len(case) > 3 else '', 'completed_paths': done[0],
            'paths': stats['region_runs'], 'decisions': stats['decisions'], 'queries': stats['queries'],
            'solver_s': round(stats['solver_s'], 2), 'obligations': counts,
            'failures': {k: v for k, v in ctx.failures.items()}, 'witnesses': witnesses,
            'incomplete': dict(ENG.incomplete), 'functions': dict(ENG.functions), 'covered': sorted(ctx.covered),
            'inputs': len(ENG.inputs), 'wall_s': round(wall, 2)}


# -- parent ------------------------------------------------------------------------------------------------------------

def load(module):
    from symx import loader
    loader.install(REPO, VERIF)
    from vlib import stubs
    stubs.install()
    return importlib.import_module('checks.' + module)


def run_all(cases, tier, seed, deadline, verbose, jobs=JOBS, first=False):
    """Forks one child per case, at most `jobs` at a time."""
    pending = list(enumerate(cases))
    pending.sort(key=lambda ic: -(ic[1][4] if len(ic[1]) > 4 else 1))
    results = [None] * len(cases)
    running = {}
    while pending or running:
        while pending and len(running) < jobs:
            i, c = pending.pop(0)
            if time.time() > deadline:
                results[i] = {'case': c[0], 'incomplete': {'not started: time budget exhausted': 1}}
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    try:
                        res = run_case(c, tier, seed + i, deadline, verbose)
                    except MemoryError:
                        res = {'case': c[0], 'incomplete': {'out of memory': 1}}
                    except BaseException:
                        res = {'case': c[0], 'error': traceback.format_exc(limit=-15)}
                    data = json.dumps(res).encode()
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                sys.stderr.flush()
                os._exit(code)
            os.close(w)
            running[r] = (i, pid, [], c)
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1)
        for r in ready:
            i, pid, buf, c = running[r]
            d = os.read(r, 1 << 16)
            if d:
                buf.append(d)
                continue
            os.close(r)
            del running[r]
            os.waitpid(pid, 0)
            try:
                results[i] = json.loads(b''.join(buf))
            except ValueError:
                results[i] = {'case': c[0], 'incomplete': {'the worker died': 1}}
            if verbose:
                x = dict(results[i])
                x.pop('witnesses', None)
                x.pop('functions', None)
                sys.stderr.write('%s\n' % json.dumps(x))
        failed = first and any(r and (r.get('failures') or r.get('error')) for r in results)
        if failed:
            for i, c in pending:
                results[i] = {'case': c[0], 'incomplete': {'not started: another case failed': 1}}
            pending = []
        if failed or time.time() > deadline + 60:
            for r, (i, pid, buf, c) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                results[i] = {'case': c[0], 'incomplete': {'time budget exhausted (killed)': 1}}
            break
    return results


def native(jobs, limit=200):
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix='verif-')
    try:
        # Four processes at most
        k = max(1, min(4, len(jobs) // 40 + 1))
        procs = []
        for n in range(k):
            part = jobs[n::k]
            a, b = os.path.join(d, 'jobs%d.json' % n), os.path.join(d, 'results%d.json' % n)
            with open(a, 'w') as f:
                json.dump(part, f)
            env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
            procs.append((n, b, subprocess.Popen([PYPY, '-B', os.path.join(VERIF, 'native.py'), a, b], env=env,
                                                 cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        results = [None] * len(jobs)
        for n, b, p in procs:
            try:
                _, err = p.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise RuntimeError('native replay timed out')
            if p.returncode:
                raise RuntimeError('native replay failed: %s' % err.decode()[-2000:])
            with open(b) as f:
                for i, x in enumerate(json.load(f)):
                    results[n + i * k] = x
        return results
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--first', action='store_true', help='stop at the first case that fails')
    ap.add_argument('--jobs', type=int, default=JOBS)
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
    os.environ['TZ'] = 'UTC'
    time.tzset()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    pid = a.property
    module = pid.lower()
    evidence = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'coverage': {}, 'wall_s': 0}
    path = os.path.join(EVIDENCE, pid + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)

    def finish(code, **more):
        evidence.update(more)
        evidence['wall_s'] = round(time.time() - t0, 2)
        with open(path, 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write('\n')
        sys.stdout.flush()
        sys.exit(code)

    try:
        mod = load(module)
        cases = [c for c in mod.cases(a.tier) if fnmatch.fnmatch(c[0], a.case)]
    except Exception:
        err = traceback.format_exc(limit=-12)
        sys.stderr.write(err)
        return finish(broken_import(pid, module, a.tier, err), broken=err)
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        known = [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']
    deadline = t0 + (a.budget or BUDGET[a.tier])
    results = run_all(cases, a.tier, seed, deadline, a.v, a.jobs, a.first)
    errors = []
    unfaithful = {}      # case: why its encoding cannot be relied upon

    def disbelieve(case, why):
        unfaithful.setdefault(case, []).append(why)
    # native replays of counterexamples and witnesses
    jobs = []
    for r in results:
        if r.get('error'):
            disbelieve(r['case'], 'the encoding failed: %s' % r['error'])
        for label, models in r.get('failures', {}).items():
            for m in models:
                jobs.append(('cex', r, label, m))
        for w in r.get('witnesses', []):
            jobs.append(('witness', r, w, w['inputs']))
    try:
        outs = native([{'module': module, 'case': j[1]['case'], 'tier': a.tier, 'inputs': j[3]} for j in jobs])
    except RuntimeError as e:
        errors.append(str(e))
        outs = []
    violations = {}
    unreproduced = {}
    validated = compared = 0
    for j, o in zip(jobs, outs):
        case = j[1]['case']
        if o['status'] == 'error':
            disbelieve(case, 'a native replay failed: %s' % o['exception'])
            continue
        for label in o['failures']:
            violations.setdefault((case, label), (j[3], o))
        if j[0] == 'cex':
            if not o['failures']:
                unreproduced.setdefault((case, j[2]), (j[3], o))
        else:
            validated += 1
            if o['failures']:
                continue
            exp = j[2]['observed']
            if exp is None:
                continue
            if o['status'] == 'excluded':
                if not j[1]['incomplete'] and exp:
                    disbelieve(case, 'a witness is outside the assumptions natively: %s' % json.dumps(j[3]))
                continue
            diff = compare(exp, o['observed'], bool(j[1]['incomplete']))
            compared += len(exp)
            if diff:
                disbelieve(case, 'symbolic and native run disagree: %s; inputs %s' % (diff, json.dumps(j[3])))
    for (case, label), (m, o) in unreproduced.items():
        if not any(c == case for c, _ in violations):
            disbelieve(case, 'the counterexample to "%s" does not reproduce: %s (%s)' % (label, json.dumps(m), o['status']))
    # vacuity
    for r, c in zip(results, cases):
        if r.get('error') or r['case'] in unfaithful:
            continue
        want = getattr(mod, 'COVER', {}).get(c[0])
        if not r['incomplete']:
            if not r['completed_paths'] or not sum(r['obligations'].values()):
                errors.append('case %s is vacuous' % r['case'])
            missing = set(want or ()) - set(r['covered'])
            if missing and not any(cc == r['case'] for cc, _ in violations):
                errors.append('case %s never reaches %s' % (r['case'], sorted(missing)))
    inconclusive = {r['case']: r['incomplete'] for r in results if r.get('incomplete')}
    for case, why in unfaithful.items():
        inconclusive[case] = dict.fromkeys(list(inconclusive.get(case, ())) + why[:3], 1)
    tot = {}
    for r in results:
        if r['case'] in unfaithful:
            continue
        for k, v in r.get('obligations', {}).items():
            tot[k] = tot.get(k, 0) + v
    fns = {}
    for r in results:
        for k, v in r.get('functions', {}).items():
            if k.startswith('weatherlink'):
                fns[k] = fns.get(k, 0) + v

    def total(k):
        return sum(r.get(k) or 0 for r in results)
    n_obl = sum(tot.values())
    evidence['coverage'] = {
        'states': total('paths'), 'transitions': total('decisions'), 'complete_paths': total('completed_paths'),
        'traces_validated_against_impl': validated, 'values_compared': compared,
        'samples': [{'case': r['case'], 'bounds': r.get('bounds'), 'symbolic_inputs': r.get('inputs'),
                     'paths': r.get('paths'), 'obligations': r.get('obligations'), 'queries': r.get('queries'),
                     'solver_s': r.get('solver_s'), 'wall_s': r.get('wall_s'),
                     'incomplete': r.get('incomplete') or None} for r in results][:400],
        'functions_encoded': sorted(fns), 'bounds': getattr(mod, 'BOUNDS', ''),
        'queries': total('queries'), 'solver_s': round(total('solver_s'), 2),
        'obligations': n_obl, 'discharged_by_solver': tot.get('discharged', 0),
        'discharged_by_simplification': tot.get('trivial', 0), 'obligations_unknown': tot.get('unknown', 0),
        'obligations_failed': tot.get('failed', 0), 'inconclusive_cases': inconclusive,
    }
    evidence['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', [])) + [
        'the interpreter of the encoding (symx) models CPython 3 integers, Decimal (28 digits, half even), struct, '
        'datetime and str exactly; its runs are compared with native runs of the same inputs']
    print('%s (%s): %d cases, %d paths, %d obligations (%d by the solver, %d by simplification), %d queries, '
          '%.1f s in the solver, %d native replays, %d values compared' % (
              pid, a.tier, len(results), total('paths'), n_obl, tot.get('discharged', 0), tot.get('trivial', 0),
              total('queries'), total('solver_s'), len(outs), compared))
    for c, why in sorted(inconclusive.items()):
        print('INCONCLUSIVE: property=%s case %s: %s' % (pid, c, '; '.join(sorted(why))))
    shown = set()
    reported = []
    for (case, label), (m, o) in sorted(violations.items()):
        k = match_known(known, case, label, m)
        if k is not None:
            if k['id'] not in shown:
                shown.add(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            continue
        reported.append((case, label, m, o))
    if reported:
        rd = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.json')
        with open(rp, 'w') as f:
            json.dump([{'module': module, 'case': c, 'tier': a.tier, 'label': la, 'inputs': m, 'native': o}
                       for c, la, m, o in reported], f, indent=1)
        for c, la, m, o in reported[:5]:
            print('violated: case %s: %s; inputs %s' % (c, la, json.dumps(m)[:600]))
            if o.get('exception'):
                print(o['exception'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return finish(1, violations=[{'case': c, 'label': la, 'inputs': m} for c, la, m, o in reported[:20]])
    if errors:
        for e in errors[:10]:
            sys.stderr.write('ERROR: %s\n' % e)
            print('ERROR: %s' % e)
        return finish(2, errors=errors[:20])
    if not n_obl:
        print('ERROR: nothing was decided')
        return finish(2)
    finish(0)


def broken_import(pid, module, tier, err):
    print('ERROR: %s' % err)
    return 2


def match_known(known, case, label, m):
    for k in known:
        if fnmatch.fnmatchcase(case, k['case']) and k['label'] == label:
            return k
    return None


def compare(exp, got, partial):
    from vlib import normal
    if partial:
        n = min(len(exp), len(got))
        exp, got = exp[:n], got[:n]
    # one path of the symbolic run can log an observation of a nested region several times
    e2, g2 = {}, {}
    for la, v in exp:
        e2[la] = v
    for la, v in got:
        g2[la] = v
    for la in e2:
        if la not in g2:
            if partial:
                continue
            return '%s was not observed natively' % la
        if not normal.same(e2[la], g2[la]):
            return '%s is %s symbolically and %s natively' % (la, json.dumps(e2[la])[:700], json.dumps(g2[la])[:700])
    for la in g2:
        if la not in e2 and not partial:
            return '%s was observed natively only' % la
    return None


if __name__ == '__main__':
    main()
