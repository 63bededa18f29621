'''P13: unclean, outdated or doubly mounted file systems are always detected.'''
import os
import pickle
import shutil
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, crash, hist, kern, treeops, world
from lib.core import HarnessError, Tally, Violation, rng_for

LEVEL = 'fault_injection'
RULE = ('A case is a history of 8-18 steps over one backend and three machines with their own '
        'cache directories: mount sessions that change files shared by all machines, fsck (plain, '
        'forced, with --force-remote), loss of a machine, damage found while reading. Commands are '
        'killed at random backend requests, file operations or SQL statements anywhere from start '
        'to exit, or lose the backend for good before or after the workload. From the recorded '
        'events alone it is known what the next command must do: a session after a clean end has '
        'to start on every machine and show exactly the newest tree (contents included, with kept '
        'caches); after an unclean one it has to be refused on every machine and to change '
        'nothing; fsck has to lead back; sequence numbers never decrease. While a session runs, '
        'its backend is copied, on which other machines must refuse. Kind here: fsck, mount, '
        'shrink-db, clear and passphrase on the computer that has the file system mounted - under '
        'URLs that the list of mounts shows escaped - are refused and change nothing, while other '
        'mounts are no reason to refuse. distinct: sequence of '
        '(command, machine relative to the last session, outcome), and requests at which a '
        'command died.')

NAMES = ['w', 'my files', 'tab\there', 'back\\slash', 'no#1', 'a\\040b', '\xe9t\xe9', 'x']
MACHINES = ('m0', 'm1', 'm2')


def gen(rng, tier):
    yield dict(kind='finding', seed=rng.randrange(2**40), cfg=hist.rand_config(
        rng, plain=True, delay=None, clock=50, keep=False))
    n = 0
    while True:
        n += 1
        if n % 8 == 1:
            cfg = hist.rand_config(rng, delay=None, clock=None, meta_kib=4, keep=False)
            yield dict(kind='here', seed=rng.randrange(2**40), cfg=cfg,
                       name=NAMES[n // 8 % len(NAMES)] if n > 1 else 'w x')
        cfg = hist.rand_config(rng, delay=None, clock=50, meta_kib=rng.choice([1, 4, 64]),
                               plain=rng.random() < 0.7)
        yield dict(kind='history', seed=rng.randrange(2**40), cfg=cfg, steps=rng.randrange(8, 19),
                   calm=rng.random() < 0.25)


def params(path):
    from s3ql.common import thaw_basic_mapping
    with open(path, 'rb') as fh:
        return thaw_basic_mapping(fh.read())


class Net:
    '''The backend is gone from request *n* on, except while the workload runs.'''

    def __init__(self, n, ctl):
        self.left = n
        self.ctl = ctl

    def __call__(self, op, key):
        if self.ctl.body:
            return None
        self.left -= 1
        return None if self.left > 0 else OSError(5, 'injected')


class History:
    def __init__(self, c, scratch):
        self.c = c
        self.cfg = c['cfg']
        self.t = Tally()
        self.rng = rng_for('p13', c['seed'])
        self.scratch = scratch
        self.bs = self.cfg['block_kib'] * 1024
        self.w = hist.new_world(scratch, self.cfg)
        self.n = 0
        self.trace = []
        self.maxseq = 0
        self.points = 150       # number of crash points of the last complete session
        self.unclean = None     # what is known after a command that did not end
        self.needs_fsck = False
        self.last = 'm0'        # machine used last
        self.truth = None
        s, r = self.session('m0', None, [None])
        if s is None:
            world.raise_for(r, 'first mount')

    # -- plumbing

    def note(self, *x):
        self.trace.append(' '.join(str(y) for y in x))

    def fail(self, kind, msg, r=None):
        raise Violation(kind, msg, 'history:\n' + '\n'.join(self.trace) +
                        ('\n' + r.describe() if r is not None else ''))

    def backend_state(self):
        res = {}
        for d, _, files in os.walk(self.w.backend_dir):
            for f in files:
                with open(os.path.join(d, f), 'rb') as fh:
                    res[f] = hash(fh.read())
        return res

    def check_seq(self):
        names = [f for d, _, files in os.walk(self.w.backend_dir) for f in files]
        seqs = [int(x[12:], 16) for x in names if x.startswith('s3ql_params_') and '#' not in x]
        top = max(seqs)
        if top < self.maxseq:
            self.fail('sequence-decreased', 'the newest sequence number was %x and is now %x' % (
                self.maxseq, top))
        self.maxseq = top
        self.t.add('sequence_checks')

    def unpublished(self, m):
        '''Has *m* local parameters that are ahead of the backend's? By how much?'''
        p = self.w.cachepath(m) + '.params'
        if not os.path.exists(p):
            return 0
        # the backend's own are encrypted: the names of the objects have the number
        return params(p)['seq_no'] - self.maxseq

    def published(self):
        for d, _, files in os.walk(self.w.backend_dir):
            if 's3ql_params' in files:
                with open(os.path.join(d, 's3ql_params'), 'rb') as fh:
                    return fh.read()

    def wipe(self, m):
        if os.path.exists(self.w.cachedir(m)):
            shutil.rmtree(self.w.cachedir(m))
            self.note('machine', m, 'lost')
            self.t.add('machines_lost')
        if self.unclean and self.unclean['machine'] == m:
            self.unclean['machine'] = None

    # -- sessions

    def session(self, m, disturb, expected, damage=False):
        '''A mount. *expected*: trees of which one must be seen (None: any). Returns (tree at the
        end or None, Result); records how far it came in self.phase.'''
        self.n += 1
        n = self.n
        w, cfg, rng = self.w, self.cfg, rng_for('p13-s', self.c['seed'], self.n)
        keep = rng.random() < 0.5
        side = w.root + '-side'
        evlog = w.root + '/events'
        for p in (evlog, w.root + '/after', w.root + '/points'):
            if os.path.exists(p):
                os.unlink(p)
        ctl = world.BackendCtl()
        ctl.body = False
        pts = world.Points(w.root + '/points', ('backend', 'file', 'sql') if disturb and
                           disturb[0] == 'kill-sql' else ('backend', 'file'),
                           disturb[1] if disturb and disturb[0].startswith('kill') else 0,
                           prefix=w.cachedir(m))
        ctl.points = pts
        if disturb and disturb[0] == 'net':
            ctl.fault = Net(disturb[1], ctl)
        ev = {}
        docopy = rng.random() < 0.3 and not disturb
        before = self.truth
        published = self.published()
        quiet = [x for x in MACHINES if not self.unpublished(x)]
        touched = []

        def su():
            ev['log'] = world.EventLog(evlog)
            pts.install()

        async def change(k, s):
            # files that all machines use, so that old cached blocks would be seen
            names = sorted(p for p in s if s[p]['type'] == 0o100000 and len(p) == 1)
            for name in (b'shared1', b'shared2'):
                if (name,) not in s:
                    ev['log'].put('touch', (name,))
                    h, _ = await k.create((name,))
                    await k.write(h, 0, rng.randbytes(4 * self.bs))
                    await k.fsync(h)
                    await k.release(h)
            for _ in range(rng.randrange(1, 4)):
                p = (rng.choice([b'shared1', b'shared2']),)
                ev['log'].put('touch', p)
                h = await k.open(p, os.O_RDWR)
                await k.write(h, rng.randrange(5) * self.bs, rng.randbytes(self.bs))
                await k.fsync(h)
                await k.release(h)
                if rng.random() < 0.3:
                    await k.flushcache()
            if len(s) < 60 and rng.random() < 0.7:
                p = (b'dir%d-%d' % (n, rng.randrange(10**6)),)
                ev['log'].put('touch', p)
                await k.mkdir(p, 0o755)
                for f in await treeops.build(k, rng, Tally(), p, self.bs, depth=2):
                    h = await k.open(f, os.O_RDWR)
                    await k.fsync(h)
                    await k.release(h)
            old = sorted(p for p in s if len(p) == 1 and p[0].startswith(b'dir'))
            if old and rng.random() < 0.3:
                p = rng.choice(old)
                ev['log'].put('touch', p)
                await k.rmtree(p)
            elif names and rng.random() < 0.3:
                p = rng.choice(names)
                new = (b'renamed%d-%d' % (n, rng.randrange(10**6)),)
                ev['log'].put('touch', p)
                ev['log'].put('touch', new)
                await k.rename(p, new)

        async def body(k, ses):
            ctl.body = True
            ev['log'].put('body')
            if damage:
                # some object cannot be found (for a while)
                from s3ql.backends.common import NoSuchObject
                ctl.fault = lambda op, key: NoSuchObject(key) if op == 'read' and \
                    key.startswith('s3ql_data_') else None
                hit = 0
                k.kerr_ok = True
                for p in damage:
                    try:
                        h = await k.open(p, os.O_RDONLY)
                        await k.read(h, 0, 100000)
                        await k.release(h)
                    except kern.KErr:
                        hit += 1
                ctl.fault = None
                return 'damaged', hit
            s = await kern.snapshot(k)
            diffs = [kern.diff_trees(e, s) for e in expected if e is not None]
            if diffs and all(diffs) and None not in expected:
                raise Violation('old-data-shown', '%s shows a tree that is not the newest (first: '
                                'expected, second: found): %s' % (m, '; '.join(diffs[0])))
            ev['log'].put('seen')
            if rng.random() < 0.8:
                await change(k, s)
                if docopy:
                    shutil.copytree(w.backend_dir, side)
                if rng.random() < 0.2:
                    await change(k, await kern.snapshot(k))
            await k.flushcache()
            s = await kern.snapshot(k)
            with open(w.root + '/after.tmp', 'wb') as fh:
                pickle.dump(s, fh)
            os.rename(w.root + '/after.tmp', w.root + '/after')
            if rng.random() < 0.5:
                await k.forget_all()
            ctl.body = False
            ev['log'].put('end')
            return s, None

        npath = w.root + '/npoints'

        def su2():
            su()
            orig = world.run_main

            def run_main(main, args):
                res = orig(main, args)
                with open(npath, 'w') as fh:
                    fh.write('%d' % pts.n)
                return res
            world.run_main = run_main

        r = hist.session(w, cfg, body, seed=self.c['seed'] + n, machine=m, setup=su2, ctl=ctl,
                         keep=keep, backup_interval=rng.choice([0, 0, 3]))
        events = world.EventLog.read(evlog)
        names = [e[0] for e in events]
        touched = [tuple(e[1]) for e in events if e[0] == 'touch']
        phase = 'post' if 'end' in names else 'mid' if 'body' in names else 'pre'
        what = r.status if r.status != 'exit' else 'exit %s' % r.code
        at = open(w.root + '/points').read() if os.path.exists(w.root + '/points') else ''
        self.note('session %d on %s: %s %s (%s) %s' % (n, m, disturb or '', what, phase, at))
        self.t.add('sessions')
        if r.status == 'violation':
            raise Violation(r.value[0], r.value[1], 'history:\n' + '\n'.join(self.trace) +
                            '\n' + str(r.value[2] or ''))
        if r.status in ('harness', 'timeout'):
            world.raise_for(r, 'mount')
        self.phase = phase
        self.check_seq()
        if r.ok:
            if not disturb:
                self.points = int(open(npath).read())
            if damage:
                self.needs_fsck = r.value[1] > 0
                self.last = m
                self.unclean = None
                self.t.add('failsafe_sessions' if self.needs_fsck else 'damage_not_noticed')
                return before, r
            self.truth = r.value[0]
            self.unclean = None
            self.last = m
            self.t.add('clean_sessions')
            if os.path.exists(side):
                self.double(side, m, quiet)
            return self.truth, r
        if disturb and r.status in ('crash', 'exc', 'exit', 'cancelled'):
            if r.status == 'crash':
                self.t.add('killed_' + phase)
                self.t.sig('killed', phase, crash_point(at))
            elif phase == 'pre' and r.status == 'exit' and r.code in (30, 31):
                return None, r
            else:
                self.t.add('backend_lost_' + phase)
            after = None
            if os.path.exists(w.root + '/after') and phase == 'post':
                with open(w.root + '/after', 'rb') as fh:
                    after = pickle.load(fh)
            u = self.unclean
            if u is not None and u['phase'] == 'post' and phase != 'pre':
                before = u['after']
            if phase != 'pre' or u is None or self.published() != published:
                if u is not None and u['phase'] == 'mid':
                    self.fail('unclean-not-refused', 'mount on %s starts although the session on '
                              '%s did not end' % (m, u['machine']), r)
                # this session started
                self.unclean = dict(machine=m, phase=phase, before=before, touched=touched,
                                    after=after)
            # otherwise: an earlier command did not end, and this one did not start
            self.last = m
            return None, r
        return None, r

    def double(self, side, m, quiet):
        '''*side* is the backend as it was while *m* had the file system mounted.'''
        x = self.w.copy(self.w.root + '-double')
        shutil.rmtree(x.backend_dir)
        shutil.move(side, x.backend_dir)
        other = self.rng.choice([y for y in quiet if y != m] + ['m9'])

        async def body(k, ses):
            return 'started'

        r = hist.session(x, self.cfg, body, seed=1, machine=other)
        if r.status != 'exit' or r.code not in (30, 31):
            self.fail('mounted-twice', 'while %s has the file system mounted, mount on %s ends '
                      'with %r' % (m, other, r), r)
        r = x.fsck(*self.rng.choice([(), ('--force',)]), machine=other)
        if r.status != 'exit' or r.code != 41:
            self.fail('checked-while-mounted', 'while %s has the file system mounted, fsck --batch '
                      'on %s ends with %r' % (m, other, r), r)
        r = x.adm('shrink-db', x.url, machine=other)
        if r.status != 'exit' or r.code not in (30, 31):
            self.fail('changed-while-mounted', 'while %s has the file system mounted, shrink-db on '
                      '%s ends with %r' % (m, other, r), r)
        shutil.rmtree(x.root)
        self.t.add('double_mounts_refused')

    # -- steps

    def disturbance(self, what):
        rng = self.rng
        if self.c['calm'] or rng.random() < 0.45:
            return None
        if rng.random() < 0.25:
            return 'net', rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 30])
        kind = rng.choice(['kill', 'kill', 'kill-sql'])
        y = rng.random()
        top = self.points
        at = rng.randrange(1, 30) if y < 0.4 else rng.randrange(max(1, top - 40), top + 3) \
            if y < 0.75 else rng.randrange(1, top + 1)
        return kind, at

    def settle_others(self, m, disturb):
        '''Local parameters that were never published would be mistaken for the newest ones: the
        known finding. Keeps such machines only where that cannot happen.'''
        for x in MACHINES:
            d = self.unpublished(x) if x != m else 0
            if d > 0 and (disturb or d > 1 or self.unclean and self.unclean['machine'] != x):
                self.wipe(x)
            elif d > 0:
                self.t.add('unpublished_kept')

    def step_mount(self, m, disturb):
        u = self.unclean
        self.settle_others(m, disturb)
        prev = self.backend_state()
        last = self.last
        if u is None:
            ahead = self.unpublished(m) > 0
            s, r = self.session(m, disturb, [self.truth])
            if ahead and s is None and r.status == 'exit' and r.code == 30:
                # (fsck found nothing to do on another machine)
                self.t.add('refused_unpublished')
                self.unclean = dict(machine=m, phase='pre', before=self.truth, touched=[],
                                    after=None)
                return
            if self.needs_fsck:
                if r.status == 'exit' and r.code == 30:
                    self.t.add('refused_damaged')
                    if self.backend_state() != prev:
                        self.fail('refused-but-changed', 'a refused mount changed the backend', r)
                elif not disturb:
                    self.fail('damaged-not-refused', 'after a session with errors, mount on %s '
                              'ends with %r' % (m, r), r)
                elif self.phase != 'pre':
                    self.fail('damaged-not-refused', 'after a session with errors, mount on %s '
                              'starts: %r' % (m, r), r)
                else:
                    self.unclean = None     # (nothing has been changed)
                return
            if s is None and not disturb:
                self.fail('clean-not-mountable:%s' % r.code, 'mount on %s after a clean end: %r' % (
                    m, r), r)
            if s is None and r.status == 'exit' and r.code in (30, 31):
                self.fail('clean-refused:%s' % r.code, 'mount on %s after a clean end: %r' % (
                    m, r), r)
            self.t.add('outdated_machine' if m != last else 'same_machine')
            return
        # an earlier command did not end
        allowed = dict(pre=[u['before']], mid=[], post=[u['after'], ])[u['phase']]
        allowed = [x for x in allowed if x is not None]
        saved = u
        s, r = self.session(m, disturb, allowed or [self.truth])
        started = s is not None or self.phase != 'pre'
        if started:
            if not allowed:
                self.fail('unclean-not-refused', 'mount on %s starts although the session on %s '
                          'did not end' % (m, u['machine']), r)
            self.t.add('started_after_' + u['phase'])
            return
        if r.status == 'exit' and r.code in (30, 31):
            self.t.add('refused_after_' + u['phase'])
            self.unclean = saved
            if self.backend_state() != prev:
                self.fail('refused-but-changed', 'a refused mount changed the backend', r)
        elif not disturb:
            self.fail('refused-oddly:%s' % (r.exc_type or r.code), 'mount on %s after a session '
                      'that did not end: %r' % (m, r), r)

    def step_fsck(self, m, disturb, force_remote=False):
        u = self.unclean
        w = self.w
        self.settle_others(m, disturb)
        args = []
        if self.rng.random() < 0.4:
            args.append('--force')
        if self.rng.random() < 0.2:
            args.append('--fast')
        foreign = u is not None and u['machine'] != m
        if foreign and force_remote:
            args.append('--force-remote')
            own = u['machine']
            if own and (self.rng.random() < 0.4 or self.unpublished(own) > 0):
                self.wipe(own)
        prev = self.backend_state()
        if os.path.exists(w.root + '/points'):
            os.unlink(w.root + '/points')

        def su():
            ctl = world.BackendCtl()
            ctl.body = False
            pts = world.Points(w.root + '/points', ('backend', 'file', 'sql') if disturb and
                               disturb[0] == 'kill-sql' else ('backend', 'file'),
                               disturb[1] if disturb and disturb[0].startswith('kill') else 0,
                               prefix=w.cachedir(m))
            ctl.points = pts
            if disturb and disturb[0] == 'net':
                ctl.fault = Net(disturb[1], ctl)
            world.install_backend(ctl)
            pts.install()

        r = w.fsck(*args, machine=m, setup=su)
        at = open(w.root + '/points').read() if os.path.exists(w.root + '/points') else ''
        self.note('fsck', *args, 'on %s: %s %r %s' % (m, disturb or '', r, at))
        self.t.add('fscks')
        if r.status == 'timeout':
            raise core.Inconclusive('fsck timed out')
        self.check_seq()
        done = r.status == 'exit' and r.code in (0, 128)
        if done:
            self.after_fsck(m, u, r, '--force-remote' in args)
            return
        if r.status == 'exit' and r.code == 41:
            if not foreign:
                self.fail('own-session-not-recovered', 'fsck on %s, where the last session ran, '
                          'says the file system is mounted elsewhere' % m, r)
            if self.backend_state() != prev:
                self.fail('refused-but-changed', 'a refused fsck changed the backend', r)
            self.t.add('fsck_refused')
            return
        if disturb and r.status in ('crash', 'exc', 'exit'):
            self.t.add('fsck_killed' if r.status == 'crash' else 'fsck_backend_lost')
            if r.status == 'crash':
                self.t.sig('fsck killed', crash_point(at))
            new = u is None
            if new:
                u = dict(machine=m, phase='pre', before=self.truth, touched=[], after=None)
            if self.after_fsck(m, u, r, '--force-remote' in args, died=True):
                self.t.add('fsck_killed_after_the_end')
            elif new:
                self.unclean = u
            elif foreign:
                # may or may not have become the owner
                u['machine'] = None
                u['maybe'] = True
                if u['phase'] == 'post':
                    u.update(phase='mid', after=None)
            return
        if foreign and '--force-remote' in args:
            # part of a newer state may be all there is: back to the last complete backup
            self.restore(m, r)
            return
        self.fail('fsck-failed:%s' % (r.exc_type or r.code), 'fsck on %s: %r' % (m, r), r)

    def restore(self, m, f):
        w = self.w
        seqs = sorted(int(x[12:], 16) for d, _, files in os.walk(w.backend_dir) for x in files
                      if x.startswith('s3ql_params_') and '#' not in x)
        for i in range(len(seqs) - 1, -1, -1):
            r = w.adm('restore-metadata', w.url, machine=m, stdin='%d\n' % i)
            if r.ok:
                r = w.fsck(machine=m)
                if r.status == 'exit' and r.code in (0, 128):
                    break
        else:
            self.fail('not-recoverable', 'fsck ended with %r, and no backup can be restored' % f, f)
        self.note('restored backup %d of %d on %s' % (i, len(seqs), m))
        self.t.add('restored')
        self.check_seq()
        self.after_fsck(m, self.unclean, r, True)

    def after_fsck(self, m, u, r, lossy, died=False):
        '''fsck says that all is well (or *died*, maybe after the end): look at the tree'''
        if not died:
            self.t.add('fsck_code_%d' % r.code)
            self.needs_fsck = False
            if u is None:
                if r.code:
                    # (objects of interrupted uploads may have been left by killed commands)
                    self.t.add('fsck_cleaned_up')
                return True
            self.unclean = None

        async def body(k, ses):
            return await kern.snapshot(k)

        # through a copy: this must not count as a session
        x = self.w.copy(self.w.root + '-look')
        r2 = hist.session(x, dict(self.cfg, keep=False), body, seed=2, machine=m)
        shutil.rmtree(x.root)
        if not r2.ok:
            if r2.status in ('violation', 'harness', 'timeout'):
                world.raise_for(r2, 'mount')
            if died and r2.status == 'exit' and r2.code in (30, 31):
                return False
            self.fail('not-mountable-after-fsck:%s' % r2.code, 'fsck on %s ends with %r, but mount '
                      'with %r' % (m, r, r2), r2)
        self.unclean = None
        self.needs_fsck = False
        s = r2.value
        exact = None
        if u['phase'] == 'pre' and not u.get('maybe'):
            exact = u['before']
        elif u['phase'] == 'post' and not lossy and u['machine'] == m:
            exact = u['after']
        if exact is not None:
            # (removed while open, and the end never came)
            d = kern.diff_trees(exact, {p: e for p, e in s.items() if p in exact or
                                        p[:1] != (b'lost+found',)})
            if d:
                self.fail('lost-by-fsck', 'after fsck on %s the tree is not the newest one (first: '
                          'expected, second: found): %s' % (m, '; '.join(d)), r)
            self.t.add('exact_after_fsck')
        else:
            tops = {p[0] for p in u['touched']} | {b'lost+found'}
            want = {p: e for p, e in u['before'].items() if p and p[0] not in tops}
            got = {p: e for p, e in s.items() if p in want}
            d = kern.diff_trees(want, got)
            if d:
                self.fail('lost-by-fsck', 'after fsck on %s something that the last session did '
                          'not touch is not as it was (first: expected, second: found): %s' % (
                              m, '; '.join(d)), r)
            self.t.add('untouched_after_fsck')
        self.truth = s
        self.last = m
        return True

    def run(self):
        rng = self.rng
        for _ in range(self.c['steps']):
            m = rng.choice(MACHINES)
            y = rng.random()
            u = self.unclean
            if u is not None and u['machine'] and rng.random() < 0.4:
                m = u['machine']
            d = self.disturbance('step')
            if u is None and not self.needs_fsck:
                if y < 0.75:
                    self.step_mount(m, d)
                elif y < 0.87:
                    self.step_fsck(m, d)
                elif y < 0.93:
                    self.wipe(m)
                else:
                    files = [p for p, e in self.truth.items() if e.get('data')]
                    rng.shuffle(files)
                    self.session(m, None, [None], damage=files[:3])
            else:
                if y < 0.35:
                    self.step_mount(m, None if rng.random() < 0.7 else d)
                elif y < 0.93:
                    if d and rng.random() < 0.5:
                        d = None
                    self.step_fsck(m, d, force_remote=rng.random() < 0.6)
                else:
                    self.wipe(m)
            self.t.sig(self.trace[-1].split(':')[0].split(' ')[0] if self.trace else '',
                       bool(self.unclean), self.needs_fsck, m == self.last,
                       self.phase, self.trace[-1][-12:] if d is None else '')
        # the way back
        for m in rng.sample(MACHINES, 3):
            if self.unclean is None and not self.needs_fsck:
                break
            self.step_fsck(m, None, force_remote=self.unclean is not None and
                           self.unclean['machine'] in (None, m))
        if self.unclean is not None or self.needs_fsck:
            self.step_fsck(MACHINES[0], None, force_remote=True)
        if self.unclean is not None or self.needs_fsck:
            self.fail('no-way-back', 'fsck did not lead back to a clean file system')
        for m in rng.sample(MACHINES, 3):
            self.step_mount(m, None)
        crash.must_fsck(self.w, '--force', machine=self.last, what='fsck at the end', codes=(0, 128))
        crash.must_fsck(self.w, '--force', machine=self.last, what='second fsck at the end',
                        codes=(0,))
        self.t.add('histories')
        self.t.add('steps', len(self.trace))


def crash_point(at):
    import re
    return re.sub(r'[0-9a-f]{6,}|\d+', '#', at)[:70]


def finding(c, scratch):
    '''A mount that fails while it announces itself, a session elsewhere that is killed, and fsck
    on the first machine.'''
    cfg = c['cfg']
    w = hist.new_world(scratch, cfg)

    async def make(k, ses, name):
        h, _ = await k.create((name,))
        await k.write(h, 0, b'x' * 3000)
        await k.release(h)
        await k.flushcache()

    async def first(k, ses):
        await make(k, ses, b'first')

    async def second(k, ses):
        await make(k, ses, b'second')
        k.ctl.params = 0
        await k.ctrl(b'upload-meta')
        await crash.wait_params(k, 2)
        os._exit(world.CRASH_CODE)

    world.check_result(hist.session(w, cfg, first, seed=1))
    ctl = crash.Ctl()
    ctl.fault = lambda op, key: OSError(5, 'injected') if op == 'write' and \
        key == 's3ql_params' else None
    r = hist.session(w, cfg, first, seed=2, ctl=ctl)
    if r.status != 'exc':
        raise HarnessError('mount without backend: %r' % r)
    # (again: the second attempt is fsck, as mount asks for it)

    def su():
        ctl = world.BackendCtl()
        ctl.fault = lambda op, key: OSError(5, 'injected') if op == 'write' and \
            key == 's3ql_params' else None
        world.install_backend(ctl)

    w.fsck(setup=su)
    r = hist.session(w, cfg, lambda k, ses: make(k, ses, b'second'), seed=3, machine='m1')
    world.check_result(r)

    async def look(k, ses):
        return sorted(await kern.snapshot(k))

    r = hist.session(w, cfg, look, seed=4)
    if not r.ok:
        crash.must_fsck(w)
        r = hist.session(w, cfg, look, seed=4)
    t = Tally()
    t.add('histories')
    if (b'second',) not in world.check_result(r):
        raise Violation('unannounced-session-wins', 'm0: mount fails to store s3ql_params, so does '
                        'the fsck it asks for; m1: one clean session creates a file; m0: fsck uses '
                        'the local metadata, and the file is gone: %r' % r.value)
    return t


def mangle(s):
    """A name as the kernel shows it in /proc/mounts"""
    return ''.join('\\%03o' % ord(x) if x in ' \t\n\\#' else x for x in s)


def mounts(path, lines):
    with open(path, 'wb') as fh:
        fh.write(b'proc /proc proc rw,nosuid 0 0\n/dev/sda1 /mnt/caf\xe9 ext4 rw,relatime 0 0\n')
        for x in lines:
            fh.write(os.fsencode(x) + b' fuse.s3ql rw,nosuid,nodev,user_id=0,group_id=0 0 0\n')
        fh.write(b'tmpfs /run tmpfs rw 0 0\n')


def show_mounts(path):
    """In the process of a command: what it reads from the list of mounts"""
    import builtins
    import io
    real = io.open

    def fake(name, *a, **kw):
        if name in ('/proc/mounts', '/proc/self/mounts', '/etc/mtab'):
            name = path
        return real(name, *a, **kw)
    builtins.open = io.open = fake


def here(c, scratch):
    """Commands on the computer that has the file system mounted"""
    import multiprocessing
    import threading

    import trio
    t = Tally()
    rng = rng_for('p13h', c['seed'])
    cfg = c['cfg']
    w = hist.new_world(scratch, cfg, c['name'])
    pipe, end = multiprocessing.Pipe()
    box = {}
    table = scratch + '/mounts'
    su = lambda: show_mounts(table)     # noqa: E731

    async def body(k, ses):
        tt = Tally()
        await k.mkdir((b'd',))
        await treeops.build(k, rng, tt, (b'd',), cfg['block_kib'] * 1024)
        await k.flushcache()
        opts = sorted(ses.fuse_opts)
        await trio.to_thread.run_sync(end.send, opts)
        await trio.to_thread.run_sync(end.recv)
        h, _ = await k.create((b'later',))
        await k.write(h, 0, b'later')
        await k.release(h)
        snap = await kern.snapshot(k)
        await k.forget_all()
        return snap

    # another file system is mounted: no reason to refuse
    mounts(table, [mangle(w.url + 'x') + ' /mnt', mangle(w.url[:-2]) + ' /mnt2', '/dev/x ' + mangle(w.url)])
    r = w.fsck('--force', setup=su)
    if r.status != 'exit' or r.code != 0:
        raise Violation('refused-without-reason', 'fsck.s3ql %r with other file systems mounted ends '
                        'with %r' % (w.url, r), r.describe())
    t.add('not_mounted_here')

    def daemon():
        try:
            box['res'] = hist.session(w, cfg, body, seed=c['seed'])
        except BaseException as exc:
            box['exc'] = exc
            end.send(None)

    th = threading.Thread(target=daemon)
    th.start()
    if not pipe.poll(60):
        raise core.Inconclusive('session did not start')
    opts = pipe.recv()
    if opts is None:
        raise box['exc']
    fsname = [x[7:] for x in opts if x.startswith('fsname=')][0]
    mounts(table, [mangle(fsname) + ' ' + mangle(w.mnt)])

    def state():
        res = {}
        for top in (w.backend_dir, w.cachedir('m0')):
            for d, _, files in os.walk(top):
                for f in files:
                    if f.endswith(('.log', '-shm', '-wal')):
                        continue
                    if f.endswith('.db'):
                        # the session writes to it
                        res[os.path.join(d, f)] = 'there'
                        continue
                    with open(os.path.join(d, f), 'rb') as fh:
                        res[os.path.join(d, f)] = hash(fh.read())
        return res

    before = state()
    cmds = [('fsck', lambda: w.fsck(setup=su)), ('fsck --force', lambda: w.fsck('--force', setup=su)),
            ('mount', lambda: hist.session(w, cfg, body, seed=1, setup=su)),
            ('shrink-db', lambda: w.adm('shrink-db', w.url, setup=su)),
            ('clear', lambda: w.adm('clear', w.url, stdin='yes\n', setup=su)),
            ('passphrase', lambda: w.adm('passphrase', w.url, stdin='new\n', setup=su))]
    try:
        for what, fn in rng.sample(cmds, 3):
            r = fn()
            after = state()
            if r.ok or r.status not in ('exit', 'exc') or r.code == 0:
                raise Violation('not-refused-here', '%s of %r, which is mounted on this computer as %r, '
                                'ends with %r' % (what, w.url, fsname, r), r.describe())
            if r.status == 'exc':
                raise Violation('not-refused-here', '%s of %r, which is mounted on this computer: %r' % (
                    what, w.url, r), r.describe())
            if after != before:
                raise Violation('changed-here', '%s of %r, which is mounted on this computer, changed '
                                '%r' % (what, w.url, [x for x in set(before) | set(after)
                                                      if before.get(x) != after.get(x)][:4]))
            t.add('refused_here')
            t.sig('here', what, c['name'])
    finally:
        pipe.send('go on')
        th.join(100)
    if th.is_alive():
        raise core.Inconclusive('session does not end')
    if 'exc' in box:
        raise box['exc']
    snap = world.check_result(box['res'])

    async def look(k, ses):
        return await kern.snapshot(k)
    df = kern.diff_trees(world.check_result(hist.session(w, cfg, look, seed=4, machine='m1')), snap)
    if df:
        raise Violation('wrong-tree', 'after commands refused during a session: ' + '; '.join(df))
    return t


def case(c, scratch):
    if c['kind'] == 'here':
        return here(c, scratch)
    if c['kind'] == 'finding':
        return finding(c, scratch)
    h = History(c, scratch)
    h.run()
    h.t.sample(dict(trace=h.trace), 1)
    return h.t


if __name__ == '__main__':
    world.preimport()
    core.main('P13', LEVEL, RULE, case, gen, quick_budget=45, thorough_budget=780,
              require=['histories', 'clean_sessions', 'killed_pre', 'killed_mid', 'killed_post',
                       'refused_after_mid', 'fsck_refused', 'double_mounts_refused',
                       'exact_after_fsck', 'outdated_machine', 'refused_here',
                       'not_mounted_here'])
