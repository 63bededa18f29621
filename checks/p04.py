'''P04: a crash of the mount process loses nothing that was synced or settled.'''
import os
import shutil
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, crash, hist, world
from lib.core import Tally, Violation, rng_for
from lib.treeops import small_batches

LEVEL = 'fault_injection'
RULE = ('A case is a file system with a first session and a script of 15-50 calls for a second one; '
        'all states of a model in between are recorded. A dry run counts the crash points (before '
        'and after every backend request, before every SQL statement that modifies, at every '
        'file operation in the cache directory, from the start of the mount to its exit). Then '
        'the process dies at several of them, each on its own copy. Recovery: fsck (sometimes '
        'killed as well and run again), a second fsck finds nothing, SQL invariants, stored '
        'objects, mount, whole tree compared with the states since the last sync, new writes, '
        'unmount, fsck. distinct: crash point kind and call in progress.')
KINDS = ('backend', 'sql', 'file')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(rng, delay=rng.choice([None, 'slow']),
                                                                   icache=rng.choice([8, 8, None])),
                   na=rng.choice([0, 10, 25]), nb=rng.choice([8, 15, 30, 50]),
                   batch=rng.choice([None, 1, 3]), points=rng.choice([3, 5]),
                   late=rng.random() < 0.3, maint=rng.random() < 0.3)


def pick(r, n, late):
    x = r.random()
    if x < 0.15:
        return r.randrange(1, min(n, 25) + 1)
    if late or x < 0.4:
        return n - r.randrange(0, min(n, 40))
    return r.randrange(1, n + 1)


def judge_crash(w, c, script, r, where, t, rng, exact_only=False):
    '''After a crash on *w* (log in w.root/events): recover and judge. Local cache is kept.'''
    cfg = c['cfg']
    done, start, ended, params, ev = crash.progress(w.root + '/events')
    e = start if start > done else done
    s = 0
    for i in range(done):
        if script.ops[i][0] in crash.SYNCS:
            s = i + 1
    if r.status != 'crash':
        s = e = len(script.ops)
    what = script.ops[done][0] if start > done else 'unmount' if ended else (
        'start' if not ev else 'idle')
    at = open(w.root + '/points').read() if os.path.exists(w.root + '/points') else ''
    t.sig(at.split('"')[1] if at else '', what)
    t.add('crash_in_' + what)
    where = '%s after a crash in %s at %s' % (where, what, at)
    code = None
    if rng.random() < 0.25:
        n = rng.choice([1, 2, 3, 5, 8, 13, 20, 30, 50, 80])
        ctl = world.BackendCtl()

        def su():
            ctl.points = world.Points(w.root + '/points2', KINDS, n, prefix=w.cachedir())
            ctl.points.install()
            world.install_backend(ctl)

        f = w.fsck(setup=su)
        if f.status == 'crash':
            t.add('fsck_killed')
            where += ' and a killed fsck (%s)' % open(w.root + '/points2').read()
        elif f.status == 'exit' and f.code in (0, 128):
            code = f.code
        else:
            crash.must_fsck(w, what=where)
    f = crash.must_fsck(w, what=where)
    t.add('fsck_code_%d' % f.code)
    if r.status == 'exit' and code is None and f.code:
        raise Violation('fsck-after-clean', 'fsck after a clean unmount exited with %d' % f.code,
                        f.describe())
    snap = crash.recovered(w, cfg, seed=c['seed'], tally=t, where=where, force=rng.random() < 0.6)
    bs = cfg['block_kib'] * 1024
    try:
        t.merge(crash.Judge(script, s, e, bs, done=done, where=where).check(snap))
    except Violation as exc:
        exc.detail = 'fsck log:\n' + f.log[-3000:]
        raise
    t.add('crashes_judged')
    t.add('states_in_window', e - s + 1)


def prepare(scratch, c, t):
    cfg = c['cfg']
    w = hist.new_world(scratch, cfg)
    rng = rng_for('crash', c['seed'])
    m = crash.base_model(w)
    bs = cfg['block_kib'] * 1024
    wts = dict(cp=4, rmtree=3, link=6) if c.get('maint') else {}
    if c['na']:
        a = crash.Gen(m, rng, bs, wts).script(c['na'])
        r = crash.play(w, cfg, a, seed=c['seed'], setup=lambda: small_batches(c['batch']))
        world.check_result(r)
    b = crash.Gen(m, rng, bs, wts).script(c['nb'])
    return w, m, b, rng


def case(c, scratch):
    t = Tally()
    cfg = c['cfg']
    w, m, b, rng = prepare(scratch, c, t)
    su = lambda: small_batches(c['batch'])  # noqa: E731
    dry = w.copy(scratch + '/dry')
    n, _ = crash.count_points(dry, cfg, b, seed=c['seed'], kinds=KINDS)
    shutil.rmtree(scratch + '/dry')
    t.add('crash_points_seen', n)
    for x in range(c['points']):
        at = pick(rng, n, c['late'])
        wc = w.copy(scratch + '/c%d' % x)
        r = crash.play(wc, cfg, b, seed=c['seed'], kinds=KINDS, at=at,
                       logpath=wc.root + '/events', setup=su)
        if r.status != 'crash':
            world.check_result(r)
            t.add('not_reached')
        try:
            judge_crash(wc, c, b, r, 'point %d of %d' % (at, n), t, rng)
        except Violation as exc:
            exc.detail = '%s\nscript:\n%s' % (exc.detail or '', '\n'.join(
                '%d %s' % (i, crash._short(o)) for i, o in enumerate(b.ops)))
            raise
        shutil.rmtree(wc.root)
    t.sample(dict(points=n, ops=[crash._short(o) for o in b.ops[:8]]), 1)
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P04', LEVEL, RULE, case, gen, quick_budget=45, thorough_budget=780,
              require=['crashes_judged', 'paths_exact', 'paths_modified', 'fsck_killed'],
              min_cases=8,
              assumptions=['Process death, not power loss: data handed to the operating system '
                           'survives.', 'Crash points lie between system-level steps of the process; '
                           'object writes of the local backend are atomic (P19 checks that).'])
