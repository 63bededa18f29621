'''P28: the tools for mounted file systems do what they were asked to, to what they were given.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import errno
import os
import re
import stat

import trio

from lib import chaos, core, dbcheck, fakeos, hist, kern, world
from lib.core import Tally, Violation, rng_for
from lib.treeops import build

LEVEL = 'exploration'
RULE = ('A case mounts a file system with a random tree (odd names, links, special files) and runs the '
        'real s3qlrm, s3qlcp, s3qllock, s3qlctrl and s3qlstat in a thread, their system calls being '
        'redirected to the emulated kernel; arguments are relative, doubled, through symbolic links, '
        'outside, missing. The complete tree is recorded before and after each call and compared with '
        'what the command line asks for; refused commands must change nothing. Or: umount.s3ql against '
        'a mount in another process whose backend is slow: returns only once everything is stored. '
        'distinct: tool, kind of argument, outcome.')
ODD = [b"it's", b'a b', b'quote"s', b'back\\slash', b'\xff\xfe', b'new\nline', b'\xc3\xa4', b'-x', b"b'x'",
       b'%s%d', b'(1, 2)', b'..x', b'.hid', b'x' * 255]
ATTRS = ('nlink', 'grp')


def gen(rng, tier):
    i = 0
    while True:
        kind = ['tools', 'tools', 'ctrl', 'umount'][i % 4]
        i += 1
        yield dict(seed=rng.randrange(2**40), kind=kind, cfg=hist.rand_config(rng, clock=None),
                   steps=rng.choice([6, 12]), slow=[4, 0.02, 0, 0.05, 0.02][i // 4 % 5], lazy=i // 4 % 6 == 5)


def below(p, q):
    return p[:len(q)] == q


class Bench:
    def __init__(self, c, k, t, mnt):
        self.c, self.k, self.t, self.mnt = c, k, t, mnt
        self.rng = rng_for('p28', c['seed'])
        self.f = fakeos.FakeOS(k, self.mnt)
        self.locked = set()

    async def grow(self):
        rng, k = self.rng, self.k
        bs = self.c['cfg']['block_kib'] * 1024
        for d in ((b'A',), (b'B',), (b'A', b'D'), (b'B', b'D')):
            await k.mkdir(d)
            for n in rng.sample(ODD, 3):
                p = d + (n,)
                r = rng.random()
                if r < 0.3:
                    h, _ = await k.create(p)
                    await k.write(h, 0, rng.randbytes(rng.choice([1, bs, bs + 1])))
                    await k.release(h)
                elif r < 0.8:
                    await k.mkdir(p)
                    if rng.random() < 0.7:
                        await build(k, rng, self.t, p, bs, 3)
                else:
                    await k.symlink(p, rng.choice([b'../B', b'nowhere', b'.', b'..']))
        # the same names in several directories, links between them
        for n in (b'same', b'other'):
            for d in ((b'A',), (b'B',), (b'A', b'D'), (b'B', b'D'), ()):
                await k.mkdir(d + (n,))
                h, _ = await k.create(d + (n, b'file'))
                await k.write(h, 0, b''.join(d) + n)
                await k.release(h)
        for p, to in (((b'A', b'lnk'), b'../B/lnk2'), ((b'B', b'lnk2'), b'D/same'), ((b'lnk',), b'A/lnk'),
                      ((b'A', b'D', b'ln'), b'../../B'), ((b'A', b'out'), b'/etc'), ((b'dead',), b'none'),
                      ((b'B', b'abs'), os.fsencode(self.mnt) + b'/A/D'), ((b'B', b'D', b'lnk'), b'same')):
            await k.symlink(p, to)
        for d in ((b'B', b'D'), (b'B',)):       # what following a link too far would hit
            if rng.random() < 0.5:
                await k.mkdir(d + (b'ln',))
        h, _ = await k.create((b'A', b'hard'))
        await k.write(h, 0, b'linked')
        await k.release(h)
        await k.link((b'A', b'hard'), (b'B', b'hard'))

    async def tree(self):
        return await kern.snapshot(self.k)

    async def real(self, path, follow):
        '''What a path (str) refers to: tuple of names, None if it does not exist or is elsewhere.'''
        f = self.f

        def fn():
            fakeos._local.tool = f
            try:
                r = f.resolve(f.mine(path), follow)
                return r if isinstance(r, tuple) else None
            except OSError:
                return None
            finally:
                fakeos._local.tool = None
        if f.mine_any(path) is None:
            return None
        return await trio.to_thread.run_sync(fn)

    def spell(self, p):
        '''Some spelling of a path below the mount point; (argument, working directory).'''
        rng = self.rng
        full = self.mnt + ''.join('/' + os.fsdecode(x) for x in p)
        r = rng.random()
        if r < 0.3:
            return full, '/'
        if r < 0.45 and p:
            cut = rng.randrange(len(p))
            cwd = self.mnt + ''.join('/' + os.fsdecode(x) for x in p[:cut])
            arg = '/'.join(os.fsdecode(x) for x in p[cut:])
            if arg.startswith('-'):
                arg = './' + arg
            return arg, cwd
        if r < 0.6:
            return full.replace('/', '//', 3)[1:], '/'
        if r < 0.75:
            return self.mnt + '/A/../' + '/./'.join(os.fsdecode(x) for x in p), '/'
        if r < 0.85:
            return self.mnt + '/B/abs/../D/../../' + '/'.join(os.fsdecode(x) for x in p), '/'
        return full + rng.choice(['', '/', '//']), '/'

    def pick(self, tree, want=None):
        ps = [p for p in tree if p and p[0] != b'lost+found' and (want is None or tree[p]['type'] == want)]
        special = [p for p in ps if p[-1] in (b'same', b'lnk', b'ln', b'lnk2', b'abs', b'hard')]
        return self.rng.choice(special if special and self.rng.random() < 0.5 else ps) if ps else None

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    # ---------------------------------------------------------------- s3qlrm
    async def rm(self):
        import s3ql.remove
        rng, t = self.rng, self.t
        tree = await self.tree()
        args, cwd = [], '/'
        n = rng.choice([1, 1, 1, 2, 3])
        for i in range(n):
            r = rng.random()
            if r < 0.8 or i:
                p = self.pick(tree)
                if p is None:
                    return
                if n > 1:
                    a = self.mnt + ''.join('/' + os.fsdecode(x) for x in p)
                else:
                    a, cwd = self.spell(p)
                if tree[p]['type'] == stat.S_IFLNK:
                    a = a.rstrip('/')
            else:
                a = rng.choice([self.mnt + '/missing', self.mnt, self.mnt + '/', self.mnt + '/A/..', self.mnt + '/A/.', self.mnt + '/dead/x',
                                self.mnt + '/A/hard/x', self.mnt + '/A/out/passwd', '/etc/passwd', '/etc', self.mnt + '/..'])
            args.append(a)
        self.f.cwd = cwd
        euid = self.f.euid = 0 if rng.random() < 0.9 else 4711
        gone = []
        ok = euid == 0
        for a in args:
            x = a.rstrip('/')
            head, _, tail = ('./' + x if not x.startswith('/') else x).rpartition('/')
            d = await self.real(head or '/', True)
            if d is None or tail in ('', '.', '..') or not self.f.mine_any(a):
                ok = False
                break
            p = d + (os.fsencode(tail),)
            if p not in tree or d in self.locked or any(below(p, g) for g in gone):
                ok = False
                break
            if euid == 0:
                gone.append(p)
        code, exc, out = await self.f.run(s3ql.remove, '--', *args, cwd=cwd)
        self.f.euid = 0
        after = await self.tree()
        want = {p: d for p, d in tree.items() if not any(below(p, g) for g in gone)} if gone else tree
        df = kern.diff_trees(after, want, ignore=ATTRS if gone else ())
        what = 's3qlrm %r in %s: exit code %r (%r)' % (args, cwd, code, exc)
        if df:
            self.fail('rm-wrong', '%s: %s' % (what, '; '.join(df)))
        if (code == 0) != ok:
            self.fail('rm-result', what + (', should %s' % ('succeed' if ok else 'be refused')))
        t.add('rm_done' if ok else 'rm_refused')
        if any(tree[g]['type'] == stat.S_IFLNK for g in gone):
            t.add('rm_symlinks')
        t.sig('rm', len(args), cwd == '/', ok, len(gone))

    # ---------------------------------------------------------------- s3qlcp
    async def cp(self):
        import s3ql.cp
        rng, t = self.rng, self.t
        tree = await self.tree()
        r = rng.random()
        src = self.pick(tree, stat.S_IFDIR) if r < 0.75 else self.pick(tree)
        if src is None:
            return
        a, cwd = self.spell(src)
        if r > 0.9:
            a = rng.choice([self.mnt, self.mnt + '/missing', self.mnt + '/dead', '/etc', self.mnt + '/A/out', self.mnt + '/lnk'])
            cwd = '/'
        d = self.pick(tree, stat.S_IFDIR) or ()
        r = rng.random()
        dst = d + (rng.choice(ODD) if rng.random() < 0.5 else b'copy%d' % rng.randrange(100),)
        if r < 0.15:
            dst = self.pick(tree)
        elif r < 0.2:
            dst = (b'missing', b'x')
        elif r < 0.25:
            dst = (b'A', b'hard', b'x')
        b = self.mnt + ''.join('/' + os.fsdecode(x) for x in dst) + rng.choice(['', '', '/'])
        if r > 0.95:
            b = '/tmp/not-there/x'
        self.f.cwd = cwd
        euid = self.f.euid = 0 if rng.random() < 0.9 else 4711
        s = await self.real(a, True)
        bb = b.rstrip('/')
        pd = await self.real(os.path.dirname(bb), True) if bb.startswith(self.mnt) else None
        q = pd + (os.fsencode(os.path.basename(bb)),) if pd is not None else None
        ok = (euid == 0 and s is not None and s != () and tree[s]['type'] == stat.S_IFDIR
              and pd is not None and tree[pd]['type'] == stat.S_IFDIR and q not in tree)
        if q is not None and len(q[-1]) > 255:
            ok = False
        code, exc, out = await self.f.run(s3ql.cp, '--', a, b, cwd=cwd)
        self.f.euid = 0
        after = await self.tree()
        what = 's3qlcp %r %r in %s: exit code %r (%r)' % (a, b, cwd, code, exc)
        locked = ok and any(below(pd, x) and pd == x for x in self.locked)
        if locked:
            ok = False
        if (code == 0) != ok:
            self.fail('cp-result', what + (', should %s' % ('succeed' if ok else 'be refused')))
        if not ok:
            df = kern.diff_trees(after, tree)
            if df:
                self.fail('cp-refused-changed', '%s: %s' % (what, '; '.join(df)))
            t.add('cp_refused')
            t.sig('cp', False, s is None, q is None, type(exc).__name__)
            return
        rest = {p: x for p, x in after.items() if not below(p, q)}
        df = kern.diff_trees(rest, tree, ignore=ATTRS)
        # the new directory counts as link of its parent
        if df:
            self.fail('cp-elsewhere', '%s: %s' % (what, '; '.join(df)))
        x = {p[len(s):]: v for p, v in tree.items() if below(p, s)}
        y = {p[len(q):]: v for p, v in after.items() if below(p, q)}
        if below(q, s):         # into itself: the (empty) new directory may be part of the copy
            y = {p: v for p, v in y.items() if not below(p, q[len(s):])}
        df = kern.diff_trees(y, x, ignore=ATTRS)
        if df:
            self.fail('cp-differs', '%s: %s' % (what, '; '.join(df)))
        t.add('cp_done')
        t.add('entries_compared', len(after))
        t.sig('cp', True, below(q, s), len(x) > 1)
        # entries of the copy can be changed, even if those of the source are locked
        for p in list(y)[:3]:
            await self.chmod(q + p, y[p], False)

    async def chmod(self, p, d, locked):
        if d['type'] == stat.S_IFLNK:
            return
        try:
            await self.k.setattr(p, dict(mode=d['mode']))
        except kern.KErr as exc:
            if exc.errno == errno.EPERM and locked:
                return
            self.fail('locked-wrongly', 'chmod of %r: %s' % (p, exc))
        if locked:
            self.fail('not-locked', 'chmod of %r is possible' % (p,))

    # ---------------------------------------------------------------- s3qllock
    async def lock(self):
        import s3ql.lock
        rng, t = self.rng, self.t
        tree = await self.tree()
        ps = [p for p in tree if p and p[0] == b'L' and tree[p]['type'] in (stat.S_IFDIR, stat.S_IFLNK)]
        if not ps:
            return
        p = rng.choice(ps)
        a, cwd = self.spell(p)
        if rng.random() < 0.2:
            a, cwd = rng.choice([self.mnt, self.mnt + '/', self.mnt + '/missing', '/etc', self.mnt + '/dead']), '/'
        self.f.cwd = cwd
        s = await self.real(a, True)
        euid = self.f.euid = 0 if rng.random() < 0.8 else 4711
        ok = euid == 0 and s is not None and s != () and tree[s]['type'] == stat.S_IFDIR
        code, exc, out = await self.f.run(s3ql.lock, '--', a, cwd=cwd)
        self.f.euid = 0
        what = 's3qllock %r in %s: exit code %r (%r)' % (a, cwd, code, exc)
        if (code == 0) != ok:
            self.fail('lock-result', what + (', should %s' % ('succeed' if ok else 'be refused')))
        if ok:
            # hard links are locked under all their names
            grp = {tree[x]['grp'] for x in tree if below(x, s)}
            self.locked |= {x for x in tree if tree[x]['grp'] in grp}
        after = await self.tree()
        df = kern.diff_trees(after, tree)
        if df:
            self.fail('lock-changed', '%s: %s' % (what, '; '.join(df)))
        for x, d in tree.items():
            if x and x[0] != b'lost+found' and (below(x, (b'L',)) or rng.random() < 0.2):
                await self.chmod(x, d, x in self.locked)
                t.add('locked_entries' if x in self.locked else 'unlocked_entries')
        t.add('lock_done' if ok else 'lock_refused')
        t.sig('lock', ok, s == p)

    async def tools(self):
        k = self.k
        await self.grow()
        for d in ((b'L',), (b'L', b'a'), (b'L', b'b'), (b'L', b'a', b'c')):
            await k.mkdir(d)
            h, _ = await k.create(d + (b'f',))
            await k.release(h)
        await k.symlink((b'L', b'l'), b'a/c')
        async with self.f.installed():
            for i in range(self.c['steps']):
                r = self.rng.random()
                if r < 0.5:
                    await self.rm()
                elif r < 0.8:
                    await self.cp()
                else:
                    await self.lock()
                self.locked = {x for x in self.locked if await self.exists(x)}
                if self.rng.random() < 0.3:
                    await k.forget_random(0.5)
        return await self.tree()

    async def exists(self, p):
        try:
            await self.k.getattr(p)
        except kern.KErr:
            return False
        return True

    # ---------------------------------------------------------------- s3qlctrl, s3qlstat
    async def numbers(self, quiet):
        import s3ql.statfs
        code, exc, out = await self.f.run(s3ql.statfs, '--raw', self.mnt)
        if code:
            self.fail('stat-failed', 's3qlstat: %r' % exc)
        g = {}
        for line in out.splitlines():
            m = re.match(r'(.*?): +(\d+)(?: bytes)?(?:, (\d+) entries)?', line)
            if not m:
                self.fail('stat-output', 'unexpected line %r' % line)
            g[m.group(1)] = tuple(int(x) for x in m.groups()[1:] if x)
        inos = {}
        tree = await kern.snapshot(self.k, ino_out=inos)
        bs = self.c['cfg']['block_kib'] * 1024
        # entries: all names; root has none. inodes: root and control inode included
        want = {'Directory entries': len(tree) - 1, 'Inodes': len(inos) + 1,
                'Total data size': sum(tree[r[0]]['size'] for r in inos.values()
                                       if 'size' in tree[r[0]])}
        for key, val in want.items():
            if g[key] != (val,):
                self.fail('stat-wrong', 's3qlstat: %s is %r, should be %d' % (key, g[key], val))
        cd = self.k.ses.world.cachedir('m0')
        cache = None
        for name in os.listdir(cd):
            if name.endswith('-cache'):
                cache = os.path.join(cd, name)
        files = [os.path.getsize(os.path.join(cache, n)) for n in os.listdir(cache)] if cache else []
        # (reading the tree above may have changed the cache)
        self.t.add('stat_compared')
        if quiet:
            blocks = set()
            objs = 0
            for r in inos.values():
                d = tree[r[0]]
                if 'data' in d:
                    for i in range(0, len(d['data']), bs):
                        b = d['data'][i:i + bs]
                        blocks.add(b)
            if g['Cache size (dirty)'] != (0, 0):
                self.fail('stat-wrong', 'dirty after flush: %r' % (g,))
            nonzero = len(blocks)
            if g['Data objects'][0] > nonzero + 0:
                self.fail('stat-wrong', '%d data objects for %d different blocks' % (
                    g['Data objects'][0], nonzero))
            self.t.add('stat_objects')
        return g, files

    async def ctrl(self):
        import s3ql.ctrl
        import s3ql.statfs
        k, rng, t = self.k, self.rng, self.t
        bs = self.c['cfg']['block_kib'] * 1024
        await self.grow()
        n = 0
        limit = None
        async with self.f.installed():
            for i in range(self.c['steps'] * 2):
                h, _ = await k.create((b'new%d' % i,))
                for j in range(rng.randrange(6)):
                    await k.write(h, j * bs, rng.randbytes(rng.choice([bs, 10])))
                await k.release(h)
                if limit is not None:
                    st = await k.stat_counts()
                    # the limit holds for all but what is being transferred
                    if st['cache_size'] > max(limit, bs) + 10 * bs:
                        self.fail('cachesize-ignored', 'cache has %d bytes, limit is %d' % (
                            st['cache_size'], limit))
                    t.add('within_limit')
                r = rng.random()
                if r < 0.15:
                    mp = rng.choice([self.mnt + '/A', '/etc', self.mnt + '/missing', self.mnt + '/A/D/ln', '/tmp/nothing'])
                    cmd = rng.choice(['flushcache', 'dropcache', 'backup-metadata'])
                    before = await k.stat_counts()
                    code, exc, out = await self.f.run(s3ql.ctrl, cmd, mp)
                    if code == 0 or any(x[0] == 'setxattr' for x in self.f.calls):
                        self.fail('ctrl-not-refused', 's3qlctrl %s %s: %r %r' % (cmd, mp, code, self.f.calls))
                    t.add('ctrl_refused')
                    continue
                if r < 0.25:
                    self.f.euid = 4711
                    for mod, args in ((s3ql.ctrl, ('flushcache', self.mnt)), (s3ql.ctrl, ('cachesize', self.mnt, '1')),
                                      (s3ql.statfs, (self.mnt,))):
                        code, exc, out = await self.f.run(mod, *args)
                        if code == 0 or any(x[0] == 'setxattr' for x in self.f.calls):
                            self.fail('not-refused', '%s %r by another user: %r' % (mod.__name__, args, code))
                    self.f.euid = 0
                    t.add('ctrl_refused')
                    continue
                mp = self.mnt + rng.choice(['', '/'])
                if r < 0.45:
                    await self.ok(s3ql.ctrl, 'flushcache', mp)
                    st = await k.stat_counts()
                    if st['dirty_cnt'] or st['dirty_size']:
                        self.fail('not-flushed', 'after flushcache: %r' % (st,))
                    t.add('flushed')
                    await self.numbers(True)
                elif r < 0.6:
                    await self.ok(s3ql.ctrl, 'dropcache', mp)
                    st = await k.stat_counts()
                    if st['cache_cnt'] or st['cache_size']:
                        self.fail('not-dropped', 'after dropcache: %r' % (st,))
                    t.add('dropped')
                elif r < 0.8:
                    kib = rng.choice([1, 3, 20, 1000])
                    await self.ok(s3ql.ctrl, 'cachesize', mp, str(kib))
                    limit = kib * 1024
                    h, _ = await k.create((b'fill%d' % i,))
                    await k.write(h, 0, b'x')       # makes room
                    await k.release(h)
                    t.add('resized')
                elif r < 0.87:
                    await self.numbers(False)
                elif r < 0.93:
                    await self.loglevel(mp)
                else:
                    h, _ = await k.create((b'mark%d' % i,))
                    await k.release(h)
                    have = set(self.seqs())
                    await self.ok(s3ql.ctrl, 'backup-metadata', mp)
                    with trio.move_on_after(40) as cs:
                        while set(self.seqs()) == have:
                            await trio.sleep(0.02)
                    if cs.cancelled_caught:
                        self.fail('no-backup', 'no metadata backup 40 s after it was requested')
                    t.add('backups')
                t.sig('ctrl', int(r * 10), limit)
        return await self.tree()

    async def loglevel(self, mp):
        '''s3qlctrl log: which messages are emitted by which modules'''
        import logging

        import s3ql.ctrl
        rng, t = self.rng, self.t
        lvl = rng.choice(['debug', 'debug', 'info', 'warn'])
        mods = rng.sample(['s3ql.fs', 's3ql.block_cache', 's3ql.mount'], rng.randrange(3)) \
            if lvl == 'debug' else []
        root = logging.getLogger()
        saved = root.level, root.manager.disable
        names = ['s3ql.fs', 's3ql.block_cache', 's3ql.mount', 's3ql.fsck']
        levels = [(logging.getLogger(n), logging.getLogger(n).level) for n in names]
        for g, _ in levels:
            g.setLevel(logging.NOTSET)
        try:
            code, exc, out = await self.f.run(s3ql.ctrl, 'log', mp, lvl, *mods)
            got = {n: [x for x in (10, 20, 30, 40) if logging.getLogger(n).isEnabledFor(x)] for n in names}
        finally:
            for g, x in levels:
                g.setLevel(x)
            root.setLevel(saved[0])
            logging.disable(saved[1])
        want = {n: [20, 30, 40] if lvl == 'info' else [30, 40] if lvl == 'warn' else
                [10, 20, 30, 40] if not mods or n in mods else [20, 30, 40] for n in names}
        if code != 0 or got != want:
            self.fail('log-level', 's3qlctrl log %s %r: exit code %r, now emitted: %r' % (lvl, mods, code, got))
        if lvl != 'debug':
            code, exc, out = await self.f.run(s3ql.ctrl, 'log', mp, lvl, 's3ql.fs')
            if code == 0 or any(x[0] == 'setxattr' for x in self.f.calls):
                self.fail('log-not-refused', 's3qlctrl log %s with a module: %r' % (lvl, code))
        t.add('log_levels')

    def seqs(self):
        d = self.k.ses.world.backend_dir
        return [n for _, _, fs in os.walk(d) for n in fs if n.startswith('s3ql_params_') and '#' not in n
                and 'tmp' not in n]

    async def ok(self, mod, *args):
        code, exc, out = await self.f.run(mod, *args)
        if code:
            self.fail('tool-failed', '%s %r: exit code %r, %r' % (mod.__name__, args, code, exc))


def case(c, scratch):
    t = Tally()
    t.sample(c, 1)
    if c['kind'] == 'umount':
        return umount(c, scratch, t)
    w = hist.new_world(scratch, c['cfg'])

    async def body(k, ses):
        k.ses = ses
        b = Bench(c, k, t, scratch + '/mnt point')
        tree = await (b.tools() if c['kind'] == 'tools' else b.ctrl())
        await k.forget_all()
        return tree, t
    tree, t = world.check_result(hist.session(w, c['cfg'], body, seed=c['seed'],
                                              backup_interval=10**6 if c['kind'] == 'ctrl' else 0))
    dbcheck.check_db(w, 'after unmount')
    dbcheck.check_store(w, 'after unmount', tally=t)

    async def body2(k, ses):
        return await kern.snapshot(k)
    got = world.check_result(hist.session(w, c['cfg'], body2, seed=c['seed']))
    df = kern.diff_trees(got, tree)
    if df:
        raise Violation('remount-differs', '; '.join(df))
    return t


class FastTime:
    '''Clock of the waiting tool: minutes pass in seconds.'''
    RATE = 300

    def __init__(self):
        import time
        self.t = time
        self.start = time.monotonic()

    def sleep(self, s):
        self.t.sleep(s / self.RATE)

    def _gone(self):
        return (self.t.monotonic() - self.start) * self.RATE

    def time(self):
        return 1.7e9 + self._gone()

    def monotonic(self):
        return 1000 + self._gone()

    perf_counter = monotonic

    def __getattr__(self, name):
        return getattr(self.t, name)


class FakePopen:
    '''fuser and umount.'''
    bench = None

    def __init__(self, args, *a, **kw):
        b = self.bench
        self.args = args
        prog = os.path.basename(args[0])
        b['progs'].append(tuple(args))
        if prog == 'fuser':
            self.returncode = 0 if b['busy'] else 1
        elif prog in ('umount', 'fusermount', 'fusermount3'):
            self.returncode = 1 if b['refuse'] else 0
            if not b['refuse']:
                b['os'].ask('umount')
        else:
            raise core.HarnessError('unexpected program %r' % (args,))

    def wait(self, timeout=None):
        return self.returncode

    poll = wait

    def communicate(self, *a, **kw):
        return b'', b''

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def listing(w):
    return sorted((os.path.join(d, n), os.stat(os.path.join(d, n)).st_mtime_ns,
                   os.stat(os.path.join(d, n)).st_size)
                  for d, _, fs in os.walk(w.backend_dir) for n in fs)


def umount(c, scratch, t):
    import multiprocessing
    import subprocess
    import threading

    import s3ql.umount
    s3ql.umount.time = FastTime()
    rng = rng_for('p28', c['seed'])
    mnt = scratch + '/mnt point'
    w = hist.new_world(scratch, c['cfg'])
    here, there = multiprocessing.Pipe()
    box = {}
    ctl = world.BackendCtl()
    slow = c['slow']
    quick = [True]
    ctl.delay = lambda op, key, phase: (slow if slow < 1 else 0 if quick[0] or key != 's3ql_params' else slow)

    async def body(k, ses):
        await k.mkdir((b'd',))
        await build(k, rng, t, (b'd',), c['cfg']['block_kib'] * 1024)
        snap = await kern.snapshot(k)
        await trio.to_thread.run_sync(there.send, 'ready')
        await fakeos.serve_remote(k, there)
        quick[0] = False
        await k.forget_all()
        return snap, t

    def daemon():
        try:
            box['res'] = hist.session(w, c['cfg'], body, seed=c['seed'], ctl=ctl)
        except BaseException as exc:
            box['exc'] = exc

    th = threading.Thread(target=daemon)
    th.start()
    if not here.poll(60) or here.recv() != 'ready':
        raise core.Inconclusive('session did not start')
    f = fakeos.RemoteOS(here, mnt)
    b = dict(progs=[], busy=False, refuse=False, os=f)
    FakePopen.bench = b
    subprocess.Popen = FakePopen

    def run(*args):
        del b['progs'][:]
        return f.run_here(s3ql.umount, *args)

    def alive(what):
        if not th.is_alive() or any('umount' in p[0] for p in b['progs']) and not b['refuse']:
            raise Violation('umounted', '%s ended the session' % what)

    alarm = core.Alarm(scratch, 200, 'umount-hangs', 'umount.s3ql does not return').__enter__()
    with f.patched():
        if rng.random() < 0.5:
            b['busy'] = True
            code, exc, out = run(mnt)
            if code != 1:
                raise Violation('umount-busy', 'umount.s3ql of a file system in use: %r %r' % (code, exc))
            alive('umount.s3ql of a file system in use')
            b['busy'] = False
            t.add('busy')
        if rng.random() < 0.5:
            b['refuse'] = True
            code, exc, out = run(*rng.choice([(mnt,), ('-z', mnt)]))
            if code != 2:
                raise Violation('umount-failed', 'umount.s3ql when umount fails: %r %r' % (code, exc))
            alive('umount.s3ql whose umount failed')
            b['refuse'] = False
            t.add('umount_failed')
        if rng.random() < 0.5:
            bad = rng.choice([mnt + '/d', '/etc', mnt + '/none'])
            code, exc, out = run(bad)
            if code == 0 or b['progs']:
                raise Violation('umount-not-refused', 'umount.s3ql %s: %r, ran %r' % (bad, code, b['progs']))
            alive('umount.s3ql of something else')
            t.add('umount_refused')
        lazy = c['lazy']
        code, exc, out = run(*(['--lazy'] if lazy else []), mnt + rng.choice(['', '/']))
        after = listing(w) if code == 0 and not lazy else None
        if code != 0:
            raise Violation('umount-result', 'umount.s3ql: exit code %r, %r' % (code, exc))
    th.join(100)
    if th.is_alive():
        raise core.Inconclusive('session does not end')
    alarm.__exit__(None, None, None)
    if 'exc' in box:
        raise box['exc']
    snap, t2 = world.check_result(box['res'])
    t.merge(t2)
    if after is not None:
        if listing(w) != after:
            raise Violation('returned-early', 'umount.s3ql returned before everything was uploaded')
        t.add('umounts')
        t.add('slow_umounts' if slow else 'fast_umounts')
        if slow >= 1:
            t.add('very_slow_umounts')
    else:
        t.add('lazy_umounts')
    t.sig('umount', lazy, slow, sorted(k for k in t.counts if 'umount' in k))

    async def body2(k, ses):
        return await kern.snapshot(k)
    got = world.check_result(hist.session(w, c['cfg'], body2, seed=c['seed'], machine='m1'))
    df = kern.diff_trees(got, snap)
    if df:
        raise Violation('remount-differs', '; '.join(df))
    return t


if __name__ == '__main__':
    core.main('P28', LEVEL, RULE, case, gen, quick_budget=25, thorough_budget=300,
              require=['rm_done', 'rm_refused', 'rm_symlinks', 'cp_done', 'cp_refused', 'lock_done',
                       'locked_entries', 'lock_refused', 'flushed', 'dropped', 'resized', 'log_levels', 'backups',
                       'ctrl_refused', 'stat_compared', 'stat_objects', 'umounts', 'slow_umounts', 'very_slow_umounts',
                       'busy',
                       'umount_failed', 'umount_refused'],
              min_cases=12)
