'''P11: locked trees are immutable; recursive removal removes exactly the tree.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import errno
import os
import stat

import trio

from lib import chaos, core, dbcheck, hist, kern, world
from lib.core import Tally, Violation, rng_for
from lib.kern import KErr
from lib.treeops import build, small_batches

LEVEL = 'exploration'
RULE = ('attack: a random tree with all object types, outside hard links and handles opened '
        'before is locked (also while requests work inside it), then every kind of request is '
        'sent to every locked inode, one after the other and concurrently, also after evictions '
        'and a remount; the tree must be unchanged after each group. rm: recursive removal of '
        'trees with outside hard links, open handles and odd names while other requests run '
        'inside and outside; the outside must be unchanged, the inside gone, nothing left behind. '
        'distinct: configuration, kind and sets of attacks and outcomes.')

ODD = [b"it's", b'"q"', b"a'\"b", b'\xff\xfe', b'new\nline', b'back\\slash', b'\\x41', b'%s', b' ',
       b'{}', 'ü☃'.encode(), b'a' * 255, b'\x01', b"',)", b')']


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(rng),
                   kind=rng.choice(['attack', 'attack', 'attack', 'rm', 'rm', 'odd']),
                   batch=rng.choice([None, 1, 3, 10]), steps=rng.choice([60, 150]),
                   busy=rng.random() < 0.5)


IGN = ('nlink', 'ctime', 'atime')


def expect_same(a, b, what, trace):
    '''Directories must be equal in everything but atime; others may get links from outside.'''
    out = []
    for p in sorted(set(a) | set(b)):
        x, y = a.get(p), b.get(p)
        if x is None or y is None:
            out.append('%r %s' % (p, 'appeared' if x is None else 'disappeared'))
            continue
        ign = ('atime',) if x['type'] == stat.S_IFDIR else IGN
        out += kern.diff_trees({p: x}, {p: y}, ignore=ign)
    if out:
        raise Violation('locked-tree-changed', 'locked tree changed %s: %s; last requests: %s' % (
            what, '; '.join(out[:5]), ', '.join(trace[-25:])))


class Attack:
    def __init__(self, k, rng, t, bs, root, inos, handles, outside, tag=b'new'):
        self.k, self.rng, self.t, self.bs, self.root = k, rng, t, bs, root
        self.handles, self.outside = handles, outside
        self.trace = []
        self.byino = inos             # inode -> [relative paths]
        self.n, self.tag = 0, tag

    def pick(self, *types):
        c = [i for i in self.byino if not types or self.typ[i] in types]
        return self.rng.choice(sorted(c)) if c else None

    async def pin(self):
        '''Look everything up and keep it (the kernel holds references while it uses inodes).'''
        self.typ = {}
        for ino, rels in self.byino.items():
            i = await self.k.walk(self.root + rels[0])
            assert i == ino
            self.k.opens[ino] = self.k.opens.get(ino, 0) + 1
            self.typ[ino] = stat.S_IFMT(self.k.modes[ino])

    def unpin(self):
        for ino in self.byino:
            self.k.opens[ino] -= 1

    async def one(self):
        k, rng = self.k, self.rng
        name = rng.choice([
            'chmod', 'chown', 'utime', 'size', 'fhsize', 'write', 'open', 'trunc', 'create',
            'creat_old', 'mknod', 'mkdir', 'symlink', 'link_in', 'unlink', 'rmdir', 'ren_in',
            'ren_out', 'ren_within', 'ren_over', 'setx', 'rmx', 'copy_into', 'rmtree', 'link_out'])
        self.n += 1
        try:
            done = await getattr(self, 'a_' + name)(self.tag + b'%d' % self.n)
        except KErr as exc:
            self.trace.append('%s:%s' % (name, errno.errorcode.get(exc.errno)))
            self.t.add('rejected_' + name)
            if exc.errno == errno.EPERM:
                self.t.add('attacks_rejected')
            return
        if done is None:
            return
        self.trace.append('%s:ok(%s)' % (name, done))
        if done != 'allowed':
            raise Violation('accepted:' + name, 'request %s on a locked inode succeeded (%s); '
                            'before: %s' % (name, done, ', '.join(self.trace[-10:])))

    def entry(self, types=()):
        '''A random (parent inode, name, inode) inside the tree.'''
        c = [(i, r) for i, rels in self.byino.items() for r in rels
             if r and (not types or self.typ[i] in types)]
        if not c:
            return None
        i, r = self.rng.choice(sorted(c))
        par = next(i for i, rels in self.byino.items() if r[:-1] in rels)
        return par, r[-1], i

    async def setattr(self, ino, ch, fh=None):
        await self.k.setattr_ino(ino, ch, fh)
        return 'inode %d %r' % (ino, ch)

    async def a_chmod(self, new):
        return await self.setattr(self.pick(), dict(mode=self.rng.choice([0, 0o777, 0o4711])))

    async def a_chown(self, new):
        return await self.setattr(self.pick(), self.rng.choice([
            dict(uid=4711), dict(gid=4712), dict(uid=1, gid=2)]))

    async def a_utime(self, new):
        return await self.setattr(self.pick(), self.rng.choice([
            dict(mtime=12345), dict(atime=1, mtime=10**18), dict(atime=99)]))

    async def a_size(self, new):
        i = self.pick(stat.S_IFREG)
        if i is not None:
            return await self.setattr(i, dict(size=self.rng.choice(
                [0, 1, self.bs, self.bs + 7, 5 * self.bs])))

    async def a_fhsize(self, new):
        if self.handles:
            h = self.rng.choice(self.handles)
            return await self.setattr(h.ino, dict(size=self.rng.choice([0, 3, self.bs])), h.fh)

    async def a_write(self, new):
        if self.handles:
            h = self.rng.choice(self.handles)
            n = self.rng.choice([1, self.bs, 2 * self.bs])
            off = self.rng.choice([0, 1, self.bs - 1, self.bs, 7 * self.bs])
            async with self.k.lock(h.ino):
                await self.k.req('write', h.fh, off, b'\xee' * n)
            return 'inode %d' % h.ino

    async def a_open(self, new):
        i = self.pick(stat.S_IFREG)
        if i is not None:
            fi = await self.k.req('open', i, self.rng.choice([os.O_RDWR, os.O_WRONLY,
                                                             os.O_WRONLY | os.O_APPEND]), self.k.ctx)
            # not a change yet; it is if something can be written
            async with self.k.lock(i):
                await self.k.req('write', fi.fh, 0, b'\xdd' * 9)
            return 'inode %d' % i

    async def a_trunc(self, new):
        i = self.pick(stat.S_IFREG)
        if i is not None:
            f = self.rng.choice([os.O_RDWR, os.O_WRONLY, 0]) | os.O_TRUNC
            async with self.k.lock(i):
                await self.k.req('open', i, f, self.k.ctx)
            return 'inode %d' % i

    async def a_create(self, new):
        d = self.pick(stat.S_IFDIR)
        async with self.k.lock(d):
            fi, a = await self.k.req('create', d, new, stat.S_IFREG | 0o644,
                                     self.rng.choice([os.O_RDWR, os.O_RDONLY]), self.k.ctx)
        return 'in %d' % d

    async def a_creat_old(self, new):
        e = self.entry([stat.S_IFREG])
        if e is not None:
            async with self.k.lock(e[0]):
                await self.k.req('create', e[0], e[1], stat.S_IFREG | 0o644,
                                 self.rng.choice([os.O_RDWR, os.O_WRONLY | os.O_TRUNC]), self.k.ctx)
            return '%r' % (e,)

    async def a_mknod(self, new):
        d = self.pick(stat.S_IFDIR)
        async with self.k.lock(d):
            await self.k.req('mknod', d, new, stat.S_IFIFO | 0o600, 0, self.k.ctx)
        return 'in %d' % d

    async def a_mkdir(self, new):
        d = self.pick(stat.S_IFDIR)
        async with self.k.lock(d):
            await self.k.req('mkdir', d, new, stat.S_IFDIR | 0o755, self.k.ctx)
        return 'in %d' % d

    async def a_symlink(self, new):
        d = self.pick(stat.S_IFDIR)
        async with self.k.lock(d):
            await self.k.req('symlink', d, new, b'somewhere', self.k.ctx)
        return 'in %d' % d

    async def a_link_in(self, new):
        d = self.pick(stat.S_IFDIR)
        if self.rng.random() < 0.5:
            src = await self.k.walk(self.outside + (b'plain',))
        else:
            src = self.pick(stat.S_IFREG)
            if src is None:
                return None
        async with self.k.lock(d):
            await self.k.req('link', src, d, new, self.k.ctx)
        return 'in %d' % d

    async def a_link_out(self, new):
        '''A new name elsewhere is not a change of the tree.'''
        i = self.pick(stat.S_IFREG)
        if i is None:
            return None
        o = await self.k.walk(self.outside)
        async with self.k.lock(o):
            self.k._entry(o, new, await self.k.req('link', i, o, new, self.k.ctx))
        if self.rng.random() < 0.7:
            async with self.k.lock(o):
                await self.k.req('unlink', o, new, self.k.ctx)
                self.k.dentries.pop((o, new), None)
        return 'allowed'

    async def a_unlink(self, new):
        e = self.entry([stat.S_IFREG, stat.S_IFLNK, stat.S_IFBLK, stat.S_IFCHR])
        if e is not None:
            async with self.k.lock(e[0]):
                await self.k.req('unlink', e[0], e[1], self.k.ctx)
            return '%r' % (e,)

    async def a_rmdir(self, new):
        e = self.entry([stat.S_IFDIR])
        if e is not None:
            async with self.k.lock(e[0]):
                await self.k.req('rmdir', e[0], e[1], self.k.ctx)
            return '%r' % (e,)

    async def _rename(self, p1, n1, p2, n2):
        async with self.k.renlock:
            for i in sorted({p1, p2}):
                await self.k.lock(i).acquire()
            try:
                await self.k.req('rename', p1, n1, p2, n2, 0, self.k.ctx)
            finally:
                for i in {p1, p2}:
                    self.k.lock(i).release()
        return '%r -> %r' % ((p1, n1), (p2, n2))

    async def a_ren_in(self, new):
        o = await self.k.walk(self.outside)
        return await self._rename(o, b'plain', self.pick(stat.S_IFDIR), new)

    async def a_ren_out(self, new):
        e = self.entry()
        if e is not None:
            return await self._rename(e[0], e[1], await self.k.walk(self.outside), new)

    async def a_ren_within(self, new):
        e = self.entry()
        if e is not None:
            d = self.pick(stat.S_IFDIR) if self.typ[e[2]] != stat.S_IFDIR else e[0]
            return await self._rename(e[0], e[1], d, new)

    async def a_ren_over(self, new):
        e = self.entry([stat.S_IFREG, stat.S_IFLNK])
        if e is not None:
            if self.rng.random() < 0.5:
                o = await self.k.walk(self.outside)
                return await self._rename(o, b'plain', e[0], e[1])
            f = self.entry([stat.S_IFREG, stat.S_IFLNK])
            if f[2] != e[2]:
                return await self._rename(f[0], f[1], e[0], e[1])

    async def a_setx(self, new):
        i = self.pick()
        await self.k.req('setxattr', i, self.rng.choice([b'user.a', b'user.new', b'user.dir']),
                         b'evil', self.k.ctx)
        return 'inode %d' % i

    async def a_rmx(self, new):
        i = self.pick()
        await self.k.req('removexattr', i, self.rng.choice([b'user.a', b'user.b', b'user.dir']),
                         self.k.ctx)
        return 'inode %d' % i

    async def a_copy_into(self, new):
        '''the copy command with a locked directory as its target'''
        src = await self.k.walk(self.outside + (b'src',))
        d = self.pick(stat.S_IFDIR)
        self.k.opens[src] = self.k.opens.get(src, 0) + 1
        try:
            await self.k.ctrl(b'copy', b'(%d, %d)' % (src, d))
        finally:
            self.k.opens[src] -= 1
        return 'onto %d' % d

    async def a_rmtree(self, new):
        e = self.entry()
        if e is not None:
            await self.k.ctrl(b'rmtree', ('(%d, %r)' % (e[0], e[1])).encode())
            return '%r' % (e,)


async def prepare(k, c, t, rng):
    '''Tree T, directory O outside with links into T. Returns handles opened for writing.'''
    bs = c['cfg']['block_kib'] * 1024
    for d in (b'T', b'O'):
        await k.mkdir((d,))
    await k.mkdir((b'O', b'src'))
    await k.mkdir((b'O', b'src', b'sub'))
    for p in ((b'O', b'plain'), (b'O', b'src', b'f')):
        h, _ = await k.create(p)
        await k.write(h, 0, rng.randbytes(bs + 5))
        await k.release(h)
    files = await build(k, rng, t, (b'T',), bs)
    await k.mkdir((b'T', b'empty'))
    handles = []
    for i, p in enumerate(files):
        if rng.random() < 0.4:
            await k.link(p, (b'O', b'l%d' % i))
        if rng.random() < 0.4 and len(handles) < 6:
            handles.append(await k.open(p))
    return files, handles


class Inside(chaos.Chaos):
    '''Works inside T.'''

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        T = (b'T',)
        self.dirs = [T, T, T + (b'D0',), T + (b'D1',), T + (b'D0', b'a'), (b'O', b'src')]

    async def setup(self):
        for d in (b'D0', b'D1'):
            await self.k.mkdir((b'T', d))


async def attack(k, c, t):
    rng = rng_for('attack', c['seed'])
    bs = c['cfg']['block_kib'] * 1024
    files, handles = await prepare(k, c, t, rng)
    if c['busy']:
        ch = Inside(k, c['seed'], t, bs=bs, weights=dict(cp=0, rmtree=0, create=16, mkdir=8))
        await ch.setup()
        async with trio.open_nursery() as n:
            for i in range(rng.choice([1, 3])):
                n.start_soon(ch.task, i, 30)
            await trio.sleep(rng.choice([0, 0.01, 0.1]))
            await k.lock_tree((b'T',))
            t.add('locked_while_busy')
            # (requests that were under way may still finish)
        k.concurrent = False
    else:
        await k.lock_tree((b'T',))
    inos = {}
    ref = await kern.snapshot(k, (b'T',), times=True, ino_out=inos)
    handles = [h for h in handles if h.ino in inos]
    a = Attack(k, rng, t, bs, (b'T',), inos, handles, (b'O',))
    await a.pin()
    t.add('locked_nodes', len(inos))
    left = c['steps']
    while left > 0:
        par = rng.choice([1, 1, 4])

        async def some():
            for _ in range(5):
                await a.one()
        k.concurrent = par > 1
        async with trio.open_nursery() as n:
            for _ in range(par):
                n.start_soon(some)
        k.concurrent = False
        left -= 5 * par
        r = rng.random()
        if r < 0.2:
            await k.dropcache()
        elif r < 0.4:
            await k.flushcache()
        elif r < 0.5:
            await k.ctrl(b'lock', b'%d' % a.pick())
        k._invalidations()
        expect_same(ref, await kern.snapshot(k, (b'T',), times=True), 'by hostile requests', a.trace)
        t.add('tree_comparisons')
    a.unpin()
    for h in handles:
        if rng.random() < 0.5:
            x = await k.read(h, 0, 10**6)
            rel = inos[h.ino][0]
            if x != ref[rel]['data']:
                raise Violation('locked-read', 'reading from a handle opened before locking '
                                'returned other data for %r' % (rel,))
    for h in list(k.handles):
        await k.release(h)
    t.sig('attack', sorted(x for x in t.counts if x[:9] == 'rejected_'))
    return ref


async def again(k, c, t, ref):
    '''After a remount: still locked; then remove it.'''
    rng = rng_for('again', c['seed'])
    bs = c['cfg']['block_kib'] * 1024
    inos = {}
    now = await kern.snapshot(k, (b'T',), times=True, ino_out=inos)
    expect_same(ref, now, 'by unmounting and mounting', [])
    a = Attack(k, rng, t, bs, (b'T',), inos, [], (b'O',), b'again')
    await a.pin()
    for _ in range(c['steps'] // 3):
        await a.one()
    a.unpin()
    k._invalidations()
    expect_same(ref, await kern.snapshot(k, (b'T',), times=True), 'by hostile requests', a.trace)
    t.add('tree_comparisons', 2)
    # a copy has the same contents, and making it leaves the original as it is
    if rng.random() < 0.5:
        await k.cp((b'T',), (b'C',))
        df = kern.diff_trees(await kern.snapshot(k, (b'T',)), await kern.snapshot(k, (b'C',)),
                             ignore=('nlink', 'grp'))
        if df:
            raise Violation('copy-of-locked', 'copy of a locked tree differs: ' + '; '.join(df))
        expect_same(ref, await kern.snapshot(k, (b'T',), times=True), 'by copying it', [])
    out = await kern.snapshot(k, (b'O',))
    if rng.random() < 0.3:
        await k.mkdir((b'P',))
        await k.rename((b'T',), (b'P', b'T'))
        expect_same(ref, await kern.snapshot(k, (b'P', b'T'), times=True), 'by moving it', [])
        await k.rmtree((b'P',))
    else:
        await k.rmtree((b'T',))
    t.add('locked_trees_removed')
    await gone(k, (b'T',))
    df = kern.diff_trees(out, await kern.snapshot(k, (b'O',)), ignore=('nlink',))
    if df:
        raise Violation('removal-outside', 'removing a locked tree changed files linked from '
                        'elsewhere: ' + '; '.join(df))
    await k.forget_all()


async def gone(k, p):
    try:
        await k.getattr(p)
    except KErr as exc:
        if exc.errno == errno.ENOENT:
            return
        raise
    raise Violation('not-removed', '%r still exists after its removal' % (p,))


class Elsewhere(chaos.Chaos):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        X = (b'X',)
        self.dirs = [X, X, X + (b'D0',), X + (b'D1',), X + (b'D0', b'a')]

    async def setup(self):
        for d in (b'D0', b'D1'):
            await self.k.mkdir((b'X', d))


async def rm(k, c, t):
    rng = rng_for('rm', c['seed'])
    bs = c['cfg']['block_kib'] * 1024
    await k.mkdir((b'X',))
    for rnd in range(3):
        await k.mkdir((b'T',))
        files = await build(k, rng, t, (b'T',), bs)
        O = (b'O%d' % rnd,)
        await k.mkdir(O)
        await build(k, rng, t, O, bs)
        if rng.random() < 0.3:
            # same contents as inside, to share objects
            await k.cp((b'T',), O + (b'copy',))
        opened = []
        for i, p in enumerate(files):
            if rng.random() < 0.4:
                await k.link(p, O + (b'l%d' % i,))
            if rng.random() < 0.4:
                h = await k.open(p, os.O_RDWR)
                if rng.random() < 0.5:
                    await k.write(h, rng.choice([0, bs]), rng.randbytes(bs // 2))
                opened.append((h, await k.read(h, 0, 10**6)))
        if rng.random() < 0.4:
            await k.forget_random(0.8)
        if rng.random() < 0.3:
            await k.flushcache()
        # directories that somebody still uses (cwd, open handle) after the removal
        used = []
        for p, i in list(k.dentries.items()):
            if stat.S_ISDIR(k.modes[i]) and rng.random() < 0.5 and k._below(i, await k.walk((b'T',))):
                k.opens[i] = k.opens.get(i, 0) + 1
                used.append(i)
        snap = await kern.snapshot(k, O, times=True)
        locked = rng.random() < 0.4
        if locked:
            await k.lock_tree((b'T',))
        if c['busy']:
            el = Elsewhere(k, c['seed'] + rnd, t, bs=bs, weights=dict(cp=1))
            if not rnd:
                await el.setup()
            inside = Inside(k, c['seed'] + 50 + rnd, t, bs=bs, weights=dict(cp=0, rmtree=0, link=0,
                                                                           rename=0))
            inside.dirs = inside.dirs[:-1]
            ok = False
            async with trio.open_nursery() as n:
                for i in range(2):
                    n.start_soon(el.task, i, 20)
                if rng.random() < 0.5:
                    n.start_soon(inside.task, 9, 15)
                await trio.sleep(rng.choice([0, 0, 0.01]))
                try:
                    await k.rmtree((b'T',))
                    ok = True
                except KErr as exc:
                    # somebody created something in a directory that was empty already
                    if exc.errno != errno.ENOTEMPTY or locked:
                        raise
                    t.add('removal_not_empty')
            k.concurrent = False
            if not ok:
                await k.rmtree((b'T',))
            t.add('removed_while_busy')
        else:
            await k.rmtree((b'T',))
        t.add('trees_removed')
        await gone(k, (b'T',))
        df = kern.diff_trees(snap, await kern.snapshot(k, O, times=True),
                             ignore=('nlink', 'ctime', 'atime'))
        if df:
            raise Violation('removal-outside', 'removing a tree changed another one: ' +
                            '; '.join(df))
        await dead_dirs(k, c, t, rng, used, O)
        for h, data in opened:
            if await k.read(h, 0, 10**6) != data:
                raise Violation('open-file', 'file that was open while its tree was removed has '
                                'other contents now')
            t.add('open_files_compared')
            if not locked and rng.random() < 0.5:
                await k.write(h, 3, b'still alive')
                if await k.read(h, 3, 11) != b'still alive':
                    raise Violation('open-file', 'cannot write to a removed open file')
            await k.release(h)
    t.sig('rm', c['busy'], sorted((x, min(v, 4)) for x, v in t.counts.items() if x[:3] in (
        'ok_', 'rem')))
    await k.forget_all()


async def dead_dirs(k, c, t, rng, used, O):
    '''Nothing may get lost in directories that are removed but still in use.'''
    o = await k.walk(O)
    for i in sorted(set(used)):
        src = b'mv%d' % i
        h, a = await k.create(O + (src,))
        await k.release(h)
        for req in (('rename', o, src, i, b'x', 0, k.ctx), ('link', a.st_ino, i, b'x', k.ctx),
                    ('mkdir', i, b'x', stat.S_IFDIR | 0o755, k.ctx),
                    ('create', i, b'x', stat.S_IFREG | 0o644, os.O_RDWR, k.ctx),
                    ('symlink', i, b'x', b'y', k.ctx),
                    ('mknod', i, b'x', stat.S_IFIFO | 0o644, 0, k.ctx)):
            try:
                await k.req(*req)
            except KErr:
                t.add('dead_directory_requests')
                continue
            raise Violation('dead-directory:' + req[0], '%s into a directory that has been removed '
                            'succeeded, its result cannot be reached any more' % req[0])
        await k.unlink(O + (src,))
    for i in used:
        k.opens[i] -= 1


async def odd(k, c, t):
    '''Names that need care in the command.'''
    rng = rng_for('odd', c['seed'])
    names = [n for n in ODD if rng.random() < 0.8] or ODD[:1]
    for n in names:
        await k.mkdir((n,))
        await k.mkdir((n, b'sub'))
        h, _ = await k.create((n, rng.choice(ODD)))
        await k.write(h, 0, b'x')
        await k.release(h)
    rng.shuffle(names)
    left = set(names)
    for n in names[:-1]:
        await k.rmtree((n,))
        left.discard(n)
        t.add('odd_names_removed')
        have = {x for x, _ in await k.readdir(())} & set(ODD)
        if have != left:
            raise Violation('removal-wrong-name', 'after removing %r: unexpected %r, missing %r' % (
                n, have - left, left - have))
    # many entries in one directory
    d = names[-1]
    for i in range(rng.choice([99, 100, 101, 230])):
        await k.mknod((d, b'n%d' % i), stat.S_IFIFO | 0o600)
    await k.rmtree((d,))
    await gone(k, (d,))
    # neither does it remove things that are not there
    for bad in (b'(1, %r)' % b'nonexistent', b'(999999, %r)' % b'x', b'(1, "x")', b'(1', b'', b'1',
                b'(1, b"lost+found", 3)', b'("1", b"lost+found")'):
        try:
            await k.ctrl(b'rmtree', bad)
        except KErr as exc:
            if exc.errno not in (errno.ENOENT, errno.EINVAL, errno.EPERM):
                raise Violation('rmtree-errno', 'rmtree %r gave %s' % (bad, exc)) from None
        except Violation as exc:
            # an inode that does not exist cannot come from the kernel
            if b'999999' not in bad:
                raise exc
    await k.getattr((b'lost+found',))
    t.sig('odd', sorted(names))
    await k.forget_all()


def case(c, scratch):
    cfg = c['cfg']
    w = hist.new_world(scratch, cfg)
    setup = lambda: small_batches(c['batch'])  # noqa: E731
    fn = dict(attack=attack, rm=rm, odd=odd)[c['kind']]

    async def body(k, ses):
        t = Tally()
        return await fn(k, c, t), t
    ref, t = world.check_result(hist.session(w, cfg, body, seed=c['seed'], setup=setup))

    def clean(where):
        dbcheck.check_db(w, where)
        dbcheck.check_store(w, where, tally=t)
        r = w.fsck('--force')
        if r.code or r.status != 'exit':
            raise Violation('fsck-reports', 'fsck %s: %r' % (where, r), r.log[-2500:])
    clean('after %s and unmount' % c['kind'])
    if c['kind'] == 'attack':
        async def body(k, ses):
            t = Tally()
            await again(k, c, t, ref)
            return t
        t.merge(world.check_result(hist.session(w, cfg, body, seed=c['seed'] + 1, setup=setup)))
        clean('after removing the locked tree')
    t.sample(dict(kind=c['kind'], batch=c['batch'], config=cfg), 1)
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P11', LEVEL, RULE, case, gen, quick_budget=32, thorough_budget=600,
              require=['attacks_rejected', 'locked_while_busy', 'locked_trees_removed',
                       'removed_while_busy', 'tree_comparisons', 'open_files_compared',
                       'odd_names_removed', 'rejected_copy_into', 'dead_directory_requests'],
              min_cases=10,
              assumptions=['The name of the locked tree itself belongs to its parent directory; '
                           'link count and ctime of a locked file change when a hard link '
                           'outside the tree is made or removed.'])
