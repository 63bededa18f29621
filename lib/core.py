'''Runner shared by all checks: case scheduling, verdicts, evidence, replay files.

A check is a set of *cases*.  A case is a JSON-able dict; running it is a pure function of that
dict (plus the code under test and scheduling noise).  Every case runs in a forked child with its
own scratch directory.  A case either returns a `Stats`-like dict, or raises `Violation`.
'''
from __future__ import annotations

import hashlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SCRATCH_BASE = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()


class Violation(Exception):
    '''The property is broken. *kind* is a stable mechanism key (for known findings).'''

    def __init__(self, kind, msg, detail=None):
        super().__init__(kind, msg, detail)
        self.kind = kind
        self.msg = msg
        self.detail = detail

    def __str__(self):
        return f'[{self.kind}] {self.msg}'


class HarnessError(Exception):
    '''The machinery (not the code under test) failed: the run is inconclusive.'''


class Inconclusive(Exception):
    '''This case could not be decided (e.g. out of time); counted, never a violation.'''


class Tally:
    '''What the monitors of one case observed.'''

    def __init__(self):
        self.counts = {}
        self.sigs = set()
        self.samples = []

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(x)

    def merge(self, other):
        for k, v in other.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.sigs |= other.sigs
        for s in other.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def rng_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def load_known():
    '''Return {property: [(kind, text)]} of the recorded findings that are not repaired.'''
    res = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if not os.path.exists(path):
        return res
    for line in open(path):
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        # finding: property=P09 kind=<kind> <text>
        parts = line.split(None, 3)
        pid = parts[1].split('=', 1)[1]
        kind = parts[2].split('=', 1)[1]
        res.setdefault(pid, []).append((kind, parts[3] if len(parts) > 3 else ''))
    return res


def describe_exc(exc):
    return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))


class _Slot:
    __slots__ = ('pid', 'case', 'out', 'dir', 'start', 'deadline', 'killed')


def _child(fn, case, out, scratch):
    os.setpgid(0, 0)
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            tally = fn(case, scratch)
            res = ('ok', tally)
        except Violation as exc:
            res = ('violation', (exc.kind, exc.msg, exc.detail))
        except Inconclusive as exc:
            res = ('inconclusive', str(exc))
        except BaseException as exc:  # noqa: BLE001
            res = ('harness', describe_exc(exc))
        with open(out + '.new', 'wb') as fh:
            pickle.dump(res, fh)
        os.rename(out + '.new', out)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 9
    finally:
        os._exit(code)


def dump_tasks(fh):
    '''Print where every trio task waits.'''
    import gc
    import trio
    for t in gc.get_objects():
        if type(t) is not trio.lowlevel.Task or t.coro.cr_frame is None:
            continue
        print('task', t.name, file=fh)
        c = t.coro
        while c is not None:
            f = getattr(c, 'cr_frame', None) or getattr(c, 'gi_frame', None) or \
                getattr(c, 'ag_frame', None)
            if f is None:
                break
            print('   ', f.f_code.co_filename, f.f_lineno, f.f_code.co_name, file=fh)
            c = getattr(c, 'cr_await', None) or getattr(c, 'gi_yieldfrom', None) or \
                getattr(c, 'ag_await', None)


class Alarm:
    '''Ends the case with a violation if it is still running after *secs* of real time.'''

    def __init__(self, scratch, secs, kind, msg):
        import threading
        self.args = scratch + '.res', kind, msg
        self.timer = threading.Timer(secs, self._fire)
        self.timer.daemon = True

    def _fire(self):
        import faulthandler
        out, kind, msg = self.args
        tmp = out + '.trace'
        with open(tmp, 'w+') as fh:
            faulthandler.dump_traceback(fh)
            fh.seek(0, 2)
            try:
                dump_tasks(fh)
            except Exception as exc:  # noqa: BLE001
                print('(no tasks: %s)' % exc, file=fh)
            fh.seek(0)
            trace = fh.read()
        os.unlink(tmp)
        with open(out + '.new', 'wb') as fh:
            pickle.dump(('violation', (kind, msg, trace)), fh)
        os.rename(out + '.new', out)
        os._exit(0)

    def __enter__(self):
        self.timer.start()
        return self

    def __exit__(self, *exc):
        self.timer.cancel()


class Runner:
    def __init__(self, pid, level, rule, *, assumptions=(), jobs=8, case_timeout=260):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.jobs = jobs
        self.case_timeout = case_timeout
        self.start = time.time()
        self.tally = Tally()
        self.evaluations = 0
        self.inconclusive = []
        self.violations = []
        self.known_hits = {}
        self.harness_errors = []
        self.slowest = 0
        self.extra = {}
        self.known = load_known().get(pid, [])
        self.scratch = tempfile.mkdtemp(prefix='s3qlv-%s-' % pid.lower(), dir=SCRATCH_BASE)
        os.chmod(self.scratch, 0o755)

    # -- running ---------------------------------------------------------

    def run(self, fn, cases, *, budget=None, max_violations=3, require=(), min_evaluations=0,
            grace=240):
        '''Run *fn* over *cases* (an iterable), in parallel, until exhausted or out of budget (which
        is extended by up to *grace* seconds while a required monitor has not been reached).'''
        t_end = time.time() + budget if budget else None

        def over():
            if not t_end or time.time() < t_end:
                return False
            return time.time() > t_end + grace or self.evaluations >= min_evaluations and all(
                self.tally.counts.get(x) for x in require)

        it = iter(cases)
        slots = []
        n = 0
        done = False
        try:
            while True:
                while not done and len(slots) < self.jobs:
                    if over() or len(self.violations) >= max_violations \
                            or len(self.harness_errors) >= 3:
                        done = True
                        break
                    try:
                        case = next(it)
                    except StopIteration:
                        done = True
                        break
                    n += 1
                    s = _Slot()
                    s.case = case
                    s.dir = tempfile.mkdtemp(prefix='c%d-' % n, dir=self.scratch)
                    s.out = s.dir + '.res'
                    s.killed = False
                    sys.stdout.flush()
                    sys.stderr.flush()
                    s.start = time.time()
                    s.deadline = s.start + self.case_timeout
                    s.pid = os.fork()
                    if s.pid == 0:
                        _child(fn, case, s.out, s.dir)
                    slots.append(s)
                if not slots:
                    break
                self._poll(slots)
        finally:
            for s in slots:
                self._kill(s)
        return n

    def _kill(self, s):
        for f in (lambda: os.killpg(s.pid, signal.SIGKILL), lambda: os.kill(s.pid, signal.SIGKILL)):
            try:
                f()
            except (ProcessLookupError, PermissionError):
                pass

    def _poll(self, slots):
        progressed = False
        for s in list(slots):
            pid, status = os.waitpid(s.pid, os.WNOHANG)
            if pid == 0:
                if time.time() > s.deadline:
                    s.killed = True
                    self._kill(s)
                continue
            progressed = True
            slots.remove(s)
            self.slowest = max(self.slowest, time.time() - s.start)
            if float(os.environ.get('VERIF_SLOW', 1e9)) < time.time() - s.start:
                print('slow case: %.1fs %r' % (time.time() - s.start, s.case))
            # anything the case left running
            try:
                os.killpg(s.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            self._account(s, status)
            shutil.rmtree(s.dir, ignore_errors=True)
            if os.path.exists(s.out):
                os.unlink(s.out)
        if not progressed:
            time.sleep(0.01)

    def _account(self, s, status):
        if s.killed or not os.path.exists(s.out):
            txt = 'timeout' if s.killed else 'case process died, status %d' % status
            self.inconclusive.append((s.case, txt))
            return
        with open(s.out, 'rb') as fh:
            kind, val = pickle.load(fh)
        if kind == 'ok':
            self.evaluations += 1
            self.tally.merge(val)
        elif kind == 'violation':
            self.evaluations += 1
            for k, text in self.known:
                if k == val[0]:
                    self.known_hits[k] = text
                    return
            self.violations.append((s.case, val))
            print('--- %s: %s: %s' % (self.pid, val[0], val[1]))
            if val[2]:
                print(str(val[2])[-3000:])
            sys.stdout.flush()
        elif kind == 'inconclusive':
            self.inconclusive.append((s.case, val))
        else:
            self.harness_errors.append((s.case, val))
            print('--- %s: machinery error in case %s\n%s' % (self.pid, s.case, val))
            sys.stdout.flush()

    # -- verdict ---------------------------------------------------------

    def finish(self, *, require=(), min_evaluations=1):
        '''Write evidence, print the verdict and exit. *require*: counters that must be > 0.'''
        shutil.rmtree(self.scratch, ignore_errors=True)
        wall = time.time() - self.start
        cov = dict(
            evaluations=self.evaluations,
            distinct_nontrivial=len(self.tally.sigs),
            rule=self.rule,
            samples=self.tally.samples or ['(none)'],
            observed=dict(sorted(self.tally.counts.items())),
            inconclusive_cases=len(self.inconclusive),
        )
        cov.update(self.extra)
        ev = dict(
            property=self.pid, tier=tier(), seed=seed(), level=self.level, coverage=cov,
            assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations),
        )
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=repr)
        for k, text in sorted(self.known_hits.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, text))
        print('%s: %d cases, %d distinct, %s, %.1fs' % (
            self.pid, self.evaluations, len(self.tally.sigs),
            ' '.join('%s=%d' % x for x in sorted(self.tally.counts.items())), wall))
        if self.violations:
            rdir = os.path.join(VERIF, 'replay')
            os.makedirs(rdir, exist_ok=True)
            for i, (case, val) in enumerate(self.violations[:4]):
                path = os.path.join(rdir, '%s-%d-%d.json' % (self.pid, seed(), i))
                with open(path, 'w') as fh:
                    json.dump(dict(property=self.pid, case=case, kind=val[0], message=val[1],
                                   detail=val[2]), fh, indent=1, default=repr)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.exit(1)
        if self.harness_errors:
            print('INCONCLUSIVE property=%s: %d machinery errors' % (
                self.pid, len(self.harness_errors)))
            sys.exit(4)
        for c, txt in self.inconclusive[:3]:
            print('inconclusive case: %s: %s' % (c, txt))
        missing = [r for r in require if not self.tally.counts.get(r)]
        if missing or self.evaluations < min_evaluations:
            print('INCONCLUSIVE property=%s: monitors not reached: %s (%d cases, %d undecided)' % (
                self.pid, missing, self.evaluations, len(self.inconclusive)))
            sys.exit(5)
        sys.exit(0)


def main(pid, level, rule, fn, gen, *, quick_budget, thorough_budget, require=(), min_cases=1,
         assumptions=(), jobs=8, case_timeout=260, pre=None, post=None):
    '''Standard main: gen(rng, tier) yields cases.'''
    r = Runner(pid, level, rule, assumptions=assumptions, jobs=jobs, case_timeout=case_timeout)
    if '--replay' in sys.argv:
        case = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))['case']
        n = int(os.environ.get('REPEAT', '1'))
        r.run(fn, [case] * n)
        r.finish()
    if pre:
        pre(r)
    budget = quick_budget if tier() == 'quick' else thorough_budget
    if os.environ.get('VERIF_BUDGET'):
        budget = float(os.environ['VERIF_BUDGET'])
    r.run(fn, gen(rng_for(pid, seed()), tier()), budget=budget, require=require,
          min_evaluations=min_cases)
    if post:
        post(r)
    r.finish(require=require, min_evaluations=min_cases)
