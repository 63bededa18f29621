'''P26: backup expiration keeps exactly the backups its schedule calls for.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import ast
import importlib.util
import io
import logging
import os
from datetime import datetime, timedelta

from lib import core
from lib.core import Tally, Violation, rng_for

LEVEL = 'fault_injection'
RULE = ('A case is a history of backups (also several between two runs, irregular times, some '
        'removed by hand) and runs of contrib/expire_backups.py with a random schedule and random '
        'options, in a directory with other entries; after every run, what was removed and kept '
        'is judged by an independent evaluation of the schedule for all future cycles. Runs are '
        'also killed at random file operations and repeated. '
        'distinct: (schedule shape, options, outcome).')
FMT = '%Y-%m-%d_%H:%M:%S'


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40),
                   kind=rng.choice(['history', 'history', 'history', 'reconstruct', 'crash',
                                    's3qlrm']))


def load():
    import s3ql
    script = os.path.join(os.path.dirname(s3ql.__file__), '..', '..', 'contrib',
                          'expire_backups.py')
    spec = importlib.util.spec_from_file_location('expire_backups', script)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def run(mod, *args):
    '''Returns None or the error.'''
    from s3ql.logging import QuietError
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        mod.main([str(x) for x in args])
    except QuietError as exc:
        return 'QuietError: %s' % exc
    except SystemExit as exc:
        return 'exit %s' % exc.code
    except BaseExceptionGroup as exc:
        raise Violation('crash', 'expire_backups.py %r raised %r' % (args, exc.exceptions[0]),
                        core.describe_exc(exc)) from exc
    except Exception as exc:
        raise Violation('crash', 'expire_backups.py %r raised %r' % (args, exc),
                        core.describe_exc(exc)) from exc
    finally:
        sys.stderr = err
    return None


def ranges(cycles):
    res = []
    lo = 0
    for c in cycles:
        if c > lo:
            res.append((lo, c))
        lo = c
    return res


def covered(ages, cycles):
    '''Set of (step, range) covered if *ages* is kept and a backup is made in every cycle.'''
    res = set()
    for step in range(max(cycles)):
        for lo, hi in ranges(cycles):
            if any(lo <= a + step < hi for a in ages) or lo < hi and lo < step:
                res.add((step, lo, hi))
    return res


def schedule(rng):
    r = rng.random()
    if r < 0.15:
        return [1, 3, 7, 14, 31]
    if r < 0.3:
        return list(range(1, rng.randrange(2, 9)))
    n = rng.choice([1, 2, 3, 4, 6])
    return sorted(rng.sample(range(1, rng.choice([8, 20, 40])), n))


class Dir:
    def __init__(self, rng, t):
        self.rng, self.t = rng, t
        self.when = datetime(2020, 1, 1) + timedelta(seconds=rng.randrange(10**7))
        self.ages = {}      # known to the tool
        self.new = []
        self.other = {}
        for n in rng.sample(['foo', '2020-01-01', '2020-01-01_00:00:00.bak', 'x2020-01-01_00:00:00',
                             '2020-01-01_00:00', 'a-dir', '2020-01-01-00:00:00',
                             '2020-01-01_00:00:00 '], 3):
            os.mkdir(n)
            open(n + '/keep', 'w').write('x')
        open('a-file', 'w').write('y')
        self.others = sorted(os.listdir('.'))

    def make(self):
        self.when += timedelta(seconds=self.rng.choice([1, 60, 3600, 86400, 86400, 86400 * 40]))
        n = self.when.strftime(FMT)
        os.mkdir(n)
        os.mkdir(n + '/sub')
        for f in ('a', 'sub/b'):
            open(n + '/' + f, 'w').write(n)
        self.new.append(n)
        return n

    def pending(self):
        '''Ages after the tool has seen the new ones.'''
        ages = dict(self.ages)
        for n in sorted(self.new):
            for k in ages:
                ages[k] += 1
            ages[n] = 0
        return {k: v for k, v in ages.items() if os.path.isdir(k)}

    def present(self):
        return {x for x in os.listdir('.') if x not in self.others and not x.startswith('.')}

    def complete(self, n):
        return sorted(os.listdir(n)) == ['a', 'sub'] and os.listdir(n + '/sub') == ['b'] and \
            open(n + '/a').read() == n

    def check_others(self):
        left = set(os.listdir('.'))
        if set(self.others) - left:
            raise Violation('foreign-removed', 'removed, but not a backup: %r' % sorted(
                set(self.others) - left))
        for n in self.others:
            if os.path.isdir(n) and os.listdir(n) != ['keep']:
                raise Violation('foreign-removed', '%r was emptied' % n)


def judge(d, cycles, before, where, t):
    '''*before*: ages of the backups before the run.'''
    now = d.present()
    if now - set(before):
        raise Violation('appeared', '%r' % (now - set(before)))
    gone = set(before) - now
    kept = {n: a for n, a in before.items() if n in now}
    lost = covered(before.values(), cycles) - covered(kept.values(), cycles)
    if lost:
        raise Violation('needed-backup-removed', '%s: schedule %s, ages %s: kept only the ages %s, '
                        'nothing for %s' % (where, cycles, sorted(before.values()),
                                            sorted(kept.values()), ['ages %d to %d, %d cycles later'
                                                                    % (lo, hi, s) for s, lo, hi in
                                                                    sorted(lost)[:4]]))
    old = [n for n, a in kept.items() if a >= max(cycles)]
    if old:
        raise Violation('unneeded-backup-kept', '%s: %r are older than all age ranges of %s' % (
            where, old, cycles))
    for n in kept:
        if not d.complete(n):
            raise Violation('kept-backup-damaged', '%r' % n)
    d.check_others()
    # each one alone is needed
    for n in kept:
        rest = [a for m, a in kept.items() if m != n]
        if covered(rest, cycles) >= covered(before.values(), cycles):
            t.add('single_redundant')
    t.add('removed', len(gone))
    t.add('kept', len(kept))
    t.sig('run', len(cycles), min(5, len(gone)), min(9, len(kept)))
    d.ages = kept
    d.new = []


def state_of(path):
    if not os.path.exists(path):
        return None
    return ast.literal_eval(open(path).read())


def history(c, rng, t, mod, extra=(), runner=run):
    d = Dir(rng, t)
    cycles = schedule(rng)
    state = rng.choice([None, None, '.other-state'])
    base = (['--state', state] if state else []) + list(extra)
    spath = state or '.expire_backups.dat'
    made = 0
    regular = rng.random() < 0.5
    for i in range(rng.choice([10, 30, 60])):
        k = 1
        if not regular and i:
            k = rng.choice([0, 1, 1, 1, 2, 3])
        for _ in range(k):
            d.make()
            made += 1
        if not regular and rng.random() < 0.05 and d.ages:
            import shutil
            n = rng.choice(sorted(d.ages))
            if os.path.isdir(n):
                shutil.rmtree(os.path.abspath(n))
                t.add('removed_by_hand')
        if rng.random() < 0.05 and i == 0:
            continue
        before = d.pending()
        if not before:
            continue
        r = rng.random()
        snap = {n: d.complete(n) for n in d.present()}
        raw = open(spath, 'rb').read() if os.path.exists(spath) else None
        if raw is None and len(before) > 1:
            err = runner(mod, *base, *cycles)
            if not err or d.present() != set(before) or os.path.exists(spath):
                raise Violation('no-records-accepted', 'ran without a state file and %d backups: %r'
                                % (len(before), err))
            t.add('missing_records_refused')
            return
        if r < 0.15:
            err = runner(mod, '-n', *base, *cycles)
            if err and 'Would remove' not in err:
                raise Violation('dry-run-failed', err)
            new = open(spath, 'rb').read() if os.path.exists(spath) else None
            if {n: d.complete(n) for n in d.present()} != snap or raw != new:
                raise Violation('dry-run-changed', 'a dry run changed something')
            d.check_others()
            t.add('dry_runs')
        p = rng.choice([None, None, 1, 0.9, 0.1, 0.3])
        err = runner(mod, *base, *(['-p', p] if p else []), *cycles)
        if err and 'Would remove' in err:
            new = open(spath, 'rb').read() if os.path.exists(spath) else None
            if {n: d.complete(n) for n in d.present()} != snap or raw != new:
                raise Violation('refusal-changed', 'a refused run changed something')
            if p == 1:
                raise Violation('refused', 'refused although everything may be removed')
            t.add('refused_proportion')
            err = runner(mod, *base, '-p', 1, *cycles)
        elif not err:
            ngone = len(set(before) - d.present())
            if ngone > (p or 0.5) * len(before) + 1e-9:
                raise Violation('too-many-removed', 'removed %d of %d, allowed is %s' % (
                    ngone, len(before), p or 0.5))
        if err:
            raise Violation('failed', 'expire_backups.py failed: %s' % err)
        judge(d, cycles, before, 'run %d' % i, t)
        t.add('runs')
        # everything that the history is long enough for
        if regular:
            for lo, hi in ranges(cycles):
                if made > lo and not any(lo <= a < hi for a in d.ages.values()):
                    raise Violation('range-empty', 'after %d backups with schedule %s there is '
                                    'none for ages %d to %d: %s' % (
                                        made, cycles, lo, hi, sorted(d.ages.values())))
                t.add('ranges_filled', made > lo)
        # once more
        if rng.random() < 0.4:
            now = d.present()
            err = runner(mod, *base, *cycles)
            if err or d.present() != now:
                raise Violation('second-run', 'running it again removed %r (%s)' % (
                    sorted(now - d.present()), err))
            t.add('second_runs')
        if rng.random() < 0.03:
            # records are gone
            os.unlink(spath)
            if len(d.present()) > 1:
                now = d.present()
                err = runner(mod, *base, *cycles)
                if not err or d.present() != now or os.path.exists(spath):
                    raise Violation('no-records-accepted', 'ran without a state file: %r' % err)
                t.add('missing_records_refused')
            return
        if rng.random() < 0.03:
            cycles = schedule(rng)
            t.add('schedule_changed')
            # what the old schedule removed cannot come back
            regular = False
    bad = runner(mod, *base, 5, 3, 1)
    if not bad or set(d.ages) != d.present():
        raise Violation('bad-schedule-accepted', 'a schedule that is not increasing: %r' % bad)


def reconstruct(c, rng, t, mod):
    d = Dir(rng, t)
    cycles = schedule(rng)
    n = rng.choice([2, 3, 5, 20])
    step = timedelta(seconds=rng.choice([60, 3600, 86400]))
    last = datetime.now() - timedelta(seconds=rng.randrange(int(step.total_seconds())))
    d.when = (last - n * step).replace(microsecond=0)
    for i in range(n):
        d.when += step
        nm = d.when.strftime(FMT)
        os.mkdir(nm)
        os.mkdir(nm + '/sub')
        for f in ('a', 'sub/b'):
            open(nm + '/' + f, 'w').write(nm)
        d.new.append(nm)
    before = d.pending()
    err = run(mod, *cycles)
    if not err or d.present() != set(before):
        raise Violation('no-records-accepted', 'ran without a state file: %r' % err)
    t.add('missing_records_refused')
    err = run(mod, '--reconstruct-state', '-n', '-p', 1, *cycles)
    if err or os.path.exists('.expire_backups.dat') or d.present() != set(before):
        raise Violation('dry-run-changed', 'dry run with --reconstruct-state: %r' % err)
    err = run(mod, '--reconstruct-state', '-p', 1, *cycles)
    if err:
        raise Violation('failed', '--reconstruct-state: %s' % err)
    got = state_of('.expire_backups.dat')
    want = {k: before[k] for k in got}
    if got != want:
        raise Violation('wrong-ages', 'the ages of regular backups were reconstructed as %r instead '
                        'of %r' % (got, want))
    judge(d, cycles, before, 'after reconstruction', t)
    t.add('reconstructed')


def crash(c, rng, t, mod):
    '''Kill a run, then run it again.'''
    d = Dir(rng, t)
    cycles = schedule(rng)
    for i in range(rng.choice([5, 12, 25])):
        d.make()
        before = d.pending()
        if rng.random() < 0.3:
            at = rng.randrange(1, 25)
            pid = os.fork()
            if pid == 0:
                n = [0]

                def hook(ev, args):
                    if ev in ('os.remove', 'os.rmdir', 'os.rename', 'open') and (
                            ev != 'open' or isinstance(args[2], int) and args[2] & 3):
                        n[0] += 1
                        if n[0] == at:
                            os._exit(9)
                sys.addaudithook(hook)
                try:
                    run(mod, '-p', 1, *cycles)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            t.add('killed', os.waitstatus_to_exitcode(st) == 9)
            d.check_others()
            left = d.present()
            kept = {n: a for n, a in before.items() if n in left and d.complete(n)}
            lost = covered(before.values(), cycles) - covered(kept.values(), cycles)
            if lost:
                raise Violation('needed-backup-removed', 'a killed run (point %d) removed a needed '
                                'backup' % at)
            if os.waitstatus_to_exitcode(st) == 9:
                t.sig('killed', at, len(set(before) - left))
            # a new backup that the killed run has removed never counted
            if os.waitstatus_to_exitcode(st) == 9:
                d.new = [x for x in d.new if os.path.isdir(x)]
                before = d.pending()
            if i and not os.path.exists('.expire_backups.dat'):
                t.add('killed_between_renames')
                return
        err = run(mod, '-p', 1, *cycles)
        if err and not os.path.exists('.expire_backups.dat'):
            if d.present() - set(before):
                raise Violation('appeared', 'after a killed run')
            t.add('killed_between_renames')
            return
        if err:
            raise Violation('failed', 'after a killed run: %s' % err)
        judge(d, cycles, before, 'after a killed run', t)
        t.add('runs_after_kill')


def s3qlrm(c, rng, t, mod):
    '''Deletion is left to s3qlrm, whose request to the file system is intercepted.'''
    import shutil

    import pyfuse3

    import s3ql.remove
    done = []

    def setxattr(path, name, value):
        parent, nm = ast.literal_eval(value.decode())
        assert name == 'rmtree'
        if parent != os.stat('.').st_ino:
            raise Violation('wrong-directory', 'removal in inode %d requested' % parent)
        done.append(nm.decode())
        shutil.rmtree(os.path.abspath(nm.decode()))

    old = pyfuse3.setxattr, pyfuse3.syncfs, s3ql.remove.assert_fs_owner
    pyfuse3.setxattr = setxattr
    pyfuse3.syncfs = lambda p: None
    s3ql.remove.assert_fs_owner = lambda p, mountpoint=False: 'ctrl'
    try:
        history(c, rng, t, mod, ['--use-s3qlrm'])
    finally:
        pyfuse3.setxattr, pyfuse3.syncfs, s3ql.remove.assert_fs_owner = old
    t.add('removed_by_s3qlrm', len(done))


def case(c, scratch):
    rng = rng_for('p26', c['seed'])
    t = Tally()
    t.sample(c, 1)
    logging.disable(logging.CRITICAL)
    os.chdir(scratch)
    out = os.open('/dev/null', os.O_WRONLY)
    os.dup2(out, 1)
    mod = load()
    for i in range(3):
        os.mkdir(scratch + '/w%d' % i)
        os.chdir(scratch + '/w%d' % i)
        globals()[c['kind']](c, rng, t, mod)
    os.chdir('/')
    return t


if __name__ == '__main__':
    import s3ql.remove  # noqa: F401
    core.main('P26', LEVEL, RULE, case, gen, quick_budget=20, thorough_budget=300,
              require=['runs', 'removed', 'kept', 'dry_runs', 'refused_proportion', 'second_runs',
                       'missing_records_refused', 'reconstructed', 'killed', 'runs_after_kill',
                       'ranges_filled', 'removed_by_s3qlrm'], min_cases=20)
