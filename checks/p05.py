'''P05: every stored metadata backup restores to a consistent file system.'''
import os
import shutil
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, crash, dbcheck, hist, world
from lib.core import HarnessError, Tally, Violation, rng_for
from lib.treeops import small_batches

LEVEL = 'fault_injection'
RULE = ('A case is a file system with two sessions of scripted calls with many metadata uploads '
        '(requested and periodic); the second one dies before or after a random backend request '
        '(mostly inside metadata uploads and the expiration of old backups, which keeps 3-32 '
        'backups), or one of its backend requests fails for good. All local state is lost. On '
        'another machine: fsck from the backend alone, second fsck, SQL invariants, stored '
        'objects, mount, tree compared with the states since the last finished upload, new '
        'writes. Then every backup that restore-metadata offers is restored on yet another '
        'machine and its names and attributes compared with the state recorded when it was '
        'made, and one of them is taken through fsck and mount. In \'cycles\' cases the database '
        'grows and shrinks over several sessions, some of them killed and followed by fsck (which '
        'compacts it): every backup that is kept must restore, and to the same content whenever '
        'it is tried. distinct: request kind at which the process died, call in progress.')


def gen(rng, tier):
    n = 0
    while True:
        n += 1
        cfg = hist.rand_config(rng, delay=rng.choice([None, 'slow']), keep=False,
                               icache=rng.choice([8, None]), clock=50,
                               meta_kib=rng.choice([1, 1, 4, 16]))
        if n % 6 == 2:
            cfg = dict(cfg, delay=None, clock=None, meta_kib=rng.choice([1, 1, 4]))
            yield dict(kind='cycles', seed=rng.randrange(2**40), cfg=cfg,
                       generations=rng.choice([5, 8]), keepv=rng.choice([2, 3, 5, 32]))
            continue
        yield dict(kind='script', seed=rng.randrange(2**40), cfg=cfg, na=rng.choice([0, 10]),
                   nb=rng.choice([10, 20, 40]), batch=rng.choice([None, 1, 3]),
                   points=rng.choice([2, 3]), interval=rng.choice([0, 0, 5]),
                   keepv=rng.choice([32, 32, 3, 6]), fault=rng.random() < 0.15)


def keep_versions(n):
    '''Keep fewer old backups (the production value is 32).'''
    if n == 32:
        return
    import s3ql.database
    f = getattr(s3ql.database, 'expire_objects', None)
    if f is not None and f.__defaults__ == (32,):
        f.__defaults__ = (n,)


def stored_backups(w):
    '''{seq_no: params} of all the backups in the backend'''
    from s3ql.common import thaw_basic_mapping
    res = {}
    for k, v in dbcheck.read_objects(w, only='s3ql_params_', raw=True).items():
        if v[0] == 'error':
            raise Violation('params-unreadable', '%s: %s' % (k, v))
        res[int(k[12:], 16)] = thaw_basic_mapping(v[0])
    return res


def restore(w, seqs, seq, machine):
    r = w.adm('restore-metadata', w.url, machine=machine, stdin='%d\n' % seqs.index(seq))
    return r


def judge_loss(w, c, script, ev, r, where, t, rng, prior):
    '''*prior*: {seq_no: state or None} of the backups made before the script began.'''
    cfg = c['cfg']
    bs = cfg['block_kib'] * 1024
    done = start = 0
    for x in ev:
        if x[0] == 'start':
            start = x[1] + 1
        elif x[0] == 'done':
            done = x[1] + 1
    e = max(start, done)
    s = 0
    for i in range(done):
        if script.ops[i][0] in crash.UPSYNCS:
            s = i + 1
    clean = r.status == 'exit' and r.code == 0
    if clean:
        s = e = len(script.ops)
    windows = crash.backups(ev)
    at = open(w.root + '/points').read() if os.path.exists(w.root + '/points') else ''
    what = script.ops[start - 1][0] if start > done else 'other'
    words = at.split('"')
    t.sig(' '.join(words[3].split()[:2]) if len(words) > 3 else at, what)
    where = '%s, machine lost in %s at %s' % (where, what, at or r)
    stored = stored_backups(w)
    seqs = sorted(stored)
    # Objects of a newer upload than the last complete backup: it was interrupted
    newest = seqs[-1]
    torn = stored[newest]['is_mounted'] and any(
        o.startswith('s3ql_metadata_') and int(o.rsplit('_', 1)[1], 16) == newest
        for o in objects(w))
    good = [q for q in seqs if q != newest or not torn]
    # -- fsck on another machine
    lost = w.copy(w.root + '-m1')
    shutil.rmtree(lost.cachedir('m0'))
    su = lambda: keep_versions(c['keepv'])  # noqa: E731
    f = lost.fsck('--force-remote', machine='m1', setup=su)
    if torn:
        t.add('interrupted_uploads')
    if f.status == 'exit' and f.code not in (0, 128) and torn:
        # Half of a newer state has been stored: the user has to go back to a complete backup
        t.add('had_to_restore')
        rr = restore(lost, seqs, good[-1], 'm1')
        if rr.status != 'exit' or rr.code != 0:
            raise Violation('restore-failed', '%s: fsck refuses (%s) and the last complete backup '
                            'cannot be restored' % (where, f.code), f.describe() + rr.describe())
        f = crash.must_fsck(lost, machine='m1', what='fsck after restoring, ' + where, setup=su)
        s = windows[good[-1]][0] if good[-1] in windows else 0
    else:
        if f.status != 'exit' or f.code not in (0, 128):
            raise Violation('fsck-failed:%s' % f.code, '%s: fsck ended with %r' % (where, f),
                            f.describe())
    t.add('fsck_code_%d' % f.code)
    crash.LAST[0] = f.log
    if clean and not r.code and f.code:
        raise Violation('fsck-after-clean', 'fsck from the backend after a clean unmount exited '
                        'with %d' % f.code, f.describe())
    snap = crash.recovered(lost, cfg, seed=c['seed'], tally=t, where=where, machine='m1',
                           force=rng.random() < 0.6)
    try:
        t.merge(crash.Judge(script, s, e, bs, exact_only=True, where=where).check(snap))
    except Violation as exc:
        exc.detail = 'torn: %s\nfsck log:\n%s' % (torn, f.log[-3000:])
        raise
    t.add('losses_judged')
    shutil.rmtree(lost.root)
    # -- older backups
    want = dict(prior)
    for q, (a, b, complete) in windows.items():
        sts = {repr_state(x): x for x in script.states[a:b + 1]}
        # the attributes have been flushed if nothing happened since an explicit flush
        i = b
        while i > a and script.ops[i - 1][0] in ('sync', 'sleep', 'forget', 'upmeta', 'read'):
            i -= 1
        flushed = i < b or i and script.ops[i - 1][0] in crash.SYNCS
        want[q] = script.states[b] if len(sts) == 1 and flushed else None
        if q != newest and not complete and want[q] is not None:
            t.add('placeholders')
    if clean:
        want[newest] = script.states[-1]
    todo = [q for q in seqs if not (torn and q == newest)]
    rng.shuffle(todo)
    for no, q in enumerate(todo[:4]):
        rw = w.copy(w.root + '-m2')
        shutil.rmtree(rw.cachedir('m0'))
        rr = restore(rw, seqs, q, 'm2')
        wh = '%s: backup %d of %d (seq %010x)' % (where, seqs.index(q) + 1, len(seqs), q)
        if rr.status != 'exit' or rr.code != 0:
            raise Violation('restore-failed', '%s cannot be restored: %r' % (wh, rr),
                            rr.describe())
        t.add('backups_restored')
        conn = dbcheck.open_copy(rw.cachepath('m2') + '.db', os.path.join(rw.root, 'dbcopy'))
        try:
            tree = crash.dbtree(conn)
            bad = [x for x in conn.execute('PRAGMA integrity_check')]
        finally:
            conn.close()
        if bad != [(b'ok',)]:
            raise Violation('restored-corrupt', '%s: database corrupted: %r' % (wh, bad[:3]))
        if want.get(q) is not None:
            d = crash.tree_difference(tree, want[q])
            if d:
                raise Violation('restored-tree', '%s does not have the tree of that time: %s' % (
                    wh, d), rr.describe())
            t.add('backups_compared')
        if no == 0:
            crash.must_fsck(rw, machine='m2', what='fsck after restoring ' + wh, setup=su)
            crash.recovered(rw, cfg, seed=c['seed'], tally=t, where='restored ' + wh,
                            machine='m2')
            t.add('restored_and_used')
        shutil.rmtree(rw.root)


def repr_state(st):
    return repr(sorted((p, x.tag, x.mode, x.uid, x.gid, x.data, sorted(x.xattr.items()))
                       for p, x in st.items()))


def objects(w):
    return list(dbcheck.read_objects(w, only='s3ql_metadata_', raw=False))


class FaultCtl(crash.Ctl):
    '''The *n*-th request that concerns metadata fails, and all after it.'''

    def __init__(self, n):
        super().__init__()
        self.left = n
        self.broken = False
        self.fault = self.check_fault

    def check_fault(self, op, key):
        if not key or not key.startswith(('s3ql_metadata_', 's3ql_params')):
            return None
        self.left -= 1
        if self.left > 0:
            return None
        return OSError(5, 'injected')


def examine(w, seqs, q, where):
    """Restore backup *q* on a new machine; returns names, attributes and size of the database."""
    rw = w.copy(w.root + '-m2')
    shutil.rmtree(rw.cachedir('m0'))
    r = restore(rw, seqs, q, 'm2')
    wh = '%s: backup %d of %d (seq %010x)' % (where, seqs.index(q) + 1, len(seqs), q)
    if r.status != 'exit' or r.code != 0:
        raise Violation('restore-failed', '%s cannot be restored: %r' % (wh, r), r.describe())
    conn = dbcheck.open_copy(rw.cachepath('m2') + '.db', os.path.join(rw.root, 'dbcopy'))
    try:
        tree = crash.dbtree(conn)
        bad = [x for x in conn.execute('PRAGMA integrity_check')]
    finally:
        conn.close()
    if bad != [(b'ok',)]:
        raise Violation('restored-corrupt', '%s: database corrupted: %r' % (wh, bad[:3]))
    shutil.rmtree(rw.root)
    return {p: {k: v for k, v in d.items() if k not in ('atime', 'ctime', 'mtime')}
            for p, d in tree.items()}


def cycles(c, scratch):
    """The file system grows and shrinks a lot, is killed and compacted by fsck, while backups of
    all these times are kept and expire."""
    t = Tally()
    cfg = c['cfg']
    rng = rng_for('p05', c['seed'])
    w = hist.new_world(scratch, cfg)
    su = lambda: keep_versions(c['keepv'])  # noqa: E731
    known = {}
    sizes = []

    def check(where, all_=False):
        stored = stored_backups(w)
        seqs = sorted(stored)
        if len(seqs) > 1 and len(seqs) < min(c['keepv'], len(known)):
            raise Violation('backup-missing', '%s: only %d backups left, %d have to be kept' % (
                where, len(seqs), c['keepv']))
        for q in seqs:
            if all_ or q not in known:
                d = examine(w, seqs, q, where)
                t.add('backups_restored')
                if q in known:
                    if d != known[q]:
                        x = [p for p in sorted(set(d) | set(known[q])) if d.get(p) != known[q].get(p)]
                        raise Violation('backup-changed', '%s: backup %010x now restores '
                                        'something else (%r)' % (where, q, x[:3]))
                    t.add('backups_compared')
                known[q] = d
        sizes.append(stored[seqs[-1]]['db_size'])

    shrunk = 0
    for g in range(c['generations']):
        grow = g % 3 == 0 or rng.random() < 0.3
        kill = not grow and rng.random() < 0.8

        async def body(k, ses):
            if grow:
                await k.mkdir((b'g%d' % g,))
                for i in range(rng.choice([10, 60])):
                    p = (b'g%d' % g, b'f%d' % i)
                    h, _ = await k.create(p)
                    if rng.random() < 0.2:
                        await k.write(h, 0, rng.randbytes(10))
                    await k.release(h)
                    await k.setxattr(p, b'user.x', rng.randbytes(rng.choice([100, 1000])))
                    if rng.random() < 0.03:
                        await k.ctrl(b'upload-meta')
            else:
                for name in [e[0] for e in await k.readdir(())]:
                    if name.startswith(b'g') and rng.random() < 0.8:
                        await k.rmtree((name,))
                h, _ = await k.create((b'note %d' % g,))
                await k.release(h)
                if not kill and rng.random() < 0.3:
                    await k.ctrl(b'upload-meta')
            if kill:
                await k.flushcache()
                os._exit(world.CRASH_CODE)
            await k.forget_all()
            return t

        where = 'generation %d (%s%s)' % (g, 'grows' if grow else 'shrinks', ', killed' if kill else '')
        r = hist.session(w, cfg, body, seed=c['seed'] + g, setup=su)
        if kill:
            if r.status != 'crash':
                raise HarnessError('the session was not killed: %s' % r.describe())
            crash.must_fsck(w, what='fsck in ' + where, setup=su)
            t.add('killed_sessions')
        else:
            t.merge(world.check_result(r))
            if rng.random() < 0.3:
                crash.must_fsck(w, '--force', what='fsck in ' + where, setup=su, codes=(0,))
        check(where)
        shrunk += len(sizes) > 1 and sizes[-1] < sizes[-2]
    check('at the end', True)
    t.add('shrunk', shrunk)
    t.sig('cycles', c['keepv'], shrunk, len(known))
    lost = w.copy(w.root + '-m1')
    shutil.rmtree(lost.cachedir('m0'))
    crash.must_fsck(lost, '--force', machine='m1', what='fsck on another machine', codes=(0,), setup=su)
    crash.recovered(lost, cfg, seed=c['seed'], tally=t, where='at the end', machine='m1')
    return t


def case(c, scratch):
    if c['kind'] == 'cycles':
        return cycles(c, scratch)
    t = Tally()
    cfg = c['cfg']
    rng = rng_for('p05', c['seed'])
    bs = cfg['block_kib'] * 1024
    w = hist.new_world(scratch, cfg)
    m = crash.base_model(w)
    wts = dict(sync=3, upmeta=3, flush=3, cp=1, rmtree=1, sleep=1)
    if c['interval']:
        wts.update(tsync=2)
    prior = {}
    su = lambda: (small_batches(c['batch']), keep_versions(c['keepv']))  # noqa: E731
    s0 = {}
    if c['na']:
        a = crash.Gen(m, rng, bs, wts).script(c['na'])
        log = w.root + '/events-a'
        world.check_result(crash.play(w, cfg, a, seed=c['seed'], setup=su, logpath=log,
                                      backup_interval=c['interval']))
        win = crash.backups(world.EventLog.read(log))
        prior = dict.fromkeys(win)
        prior[max(win)] = a.states[-1]
    b = crash.Gen(m, rng, bs, wts).script(c['nb'])
    dry = w.copy(scratch + '/dry')
    n, _ = crash.count_points(dry, cfg, b, seed=c['seed'], kinds=('backend',),
                              backup_interval=c['interval'])
    shutil.rmtree(scratch + '/dry')
    t.add('crash_points_seen', n)
    for x in range(c['points']):
        wc = w.copy(scratch + '/c%d' % x)
        y = rng.random()
        at = rng.randrange(1, n + 1) if y < 0.6 else n - rng.randrange(0, min(n, 30)) \
            if y < 0.9 else 0
        if c['fault']:
            at = 0
            k = rng.randrange(1, 60)
            r = crash.play(wc, cfg, b, seed=c['seed'], kinds=('backend',), at=0,
                           logpath=wc.root + '/events', setup=su, ctl=FaultCtl(k),
                           backup_interval=c['interval'])
            t.add('faults_injected')
        else:
            r = crash.play(wc, cfg, b, seed=c['seed'], kinds=('backend',), at=at,
                           logpath=wc.root + '/events', setup=su, backup_interval=c['interval'])
            if r.status != 'crash':
                world.check_result(r)
                t.add('clean_ends')
        ev = world.EventLog.read(wc.root + '/events')
        try:
            judge_loss(wc, c, b, ev, r, 'point %d of %d' % (at, n), t, rng, prior)
        except Violation as exc:
            exc.detail = '%s\nsession: %r\nscript:\n%s' % (exc.detail or '', r, '\n'.join(
                '%d %s' % (i, crash._short(o)) for i, o in enumerate(b.ops)))
            raise
        shutil.rmtree(wc.root)
    t.sample(dict(points=n, ops=[crash._short(o) for o in b.ops[:8]]), 1)
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P05', LEVEL, RULE, case, gen, quick_budget=45, thorough_budget=780,
              require=['losses_judged', 'backups_compared', 'restored_and_used',
                       'interrupted_uploads', 'paths_exact', 'shrunk', 'killed_sessions'], min_cases=8)
