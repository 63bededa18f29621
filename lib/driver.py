'''Runs random system call histories against the real file system and the model side by side,
comparing every result.'''
from __future__ import annotations

import errno
import os
import stat
import time

from . import kern as K
from .core import Violation
from .kern import KErr
from .model import Model

NAMES = [b'a', b'b', b'c', b'd', b'e']
ODD = [b'\xff\xfe\x80', b'x' * 255, 'ä\u20ac'.encode(), b'with space', b"quo'te\"", b'new\nline',
       b'lost+found', b'.hidden', b'#5-3', b'%s']
XNAMES = [b'user.a', b'user.b', b'security.x', b'a', b'b', b'user.\xff']


class Profile:
    '''Weights of the operations.'''

    def __init__(self, **kw):
        self.w = dict(create=10, open=6, read=14, write=24, release=6, ftruncate=4, truncate=4,
                      setattr=5, mkdir=5, mknod=2, symlink=3, readlink=2, link=5, unlink=7,
                      rmdir=3, rename=8, getattr=4, readdir=4, setxattr=5, getxattr=2,
                      listxattr=2, removexattr=4, fsync=2, forget=4, flushcache=1, dropcache=2,
                      statfs=1, cp=0, lock=0, rmtree=0)
        self.w.update(kw)


class Driver:
    def __init__(self, k, model, rng, tally, *, bs=1024, maxblocks=6, profile=None, names=None,
                 check_times=True):
        self.k, self.m, self.rng, self.t = k, model, rng, tally
        self.bs = bs
        self.maxblocks = maxblocks
        self.profile = profile or Profile()
        self.names = names or NAMES
        self.handles = []     # (kern handle, node)
        self.check_times = check_times
        self.trace = []
        self.pool = [bytes([i]) * bs for i in (65, 66)] + [rng.randbytes(bs) for _ in range(3)]
        self.max_nodes = 60
        self.now0 = None
        self.lastop = None
        self.protect = set()  # paths that are never removed or renamed

    async def adopt(self):
        '''Take over what mkfs created (the root directory and its entries) into the model.'''
        from .model import DIR, Node
        a = await self.k.getattr(())
        r = self.m.root
        r.mode, r.uid, r.gid = stat.S_IMODE(a.st_mode), a.st_uid, a.st_gid
        ents = await self.k.readdir(())
        for name, a in ents:
            if not stat.S_ISDIR(a.st_mode) or name in r.children:
                self.fail('fresh-tree', 'new file system contains %r' % name)
            r.children[name] = Node(DIR, stat.S_IMODE(a.st_mode), a.st_uid, a.st_gid)
        a = await self.k.getattr(())
        self.t0, self.t1 = 1, 0
        for p, n in self.m.paths():
            self.check_attr(await self.k.getattr(p), n, 'fresh %r' % (p,))

    # -- choice of arguments ----------------------------------------------

    def some_path(self, want=None, exists=0.85):
        rng = self.rng
        ps = self.m.paths()
        if want is not None:
            sel = [p for p, n in ps if n.ftype == want and p]
            if sel and rng.random() < 0.9:
                return rng.choice(sel)
        if rng.random() < exists:
            sel = [p for p, n in ps if p]
            if sel:
                return rng.choice(sel)
        return self.new_path()

    def new_path(self):
        rng = self.rng
        dirs = [p for p, n in self.m.paths() if n.ftype == stat.S_IFDIR and len(p) < 5]
        if rng.random() < 0.03:
            dirs = [p for p, n in self.m.paths()]
        d = rng.choice(dirs)
        name = rng.choice(self.names if rng.random() < 0.9 else ODD)
        return d + (name,)

    def offset(self):
        rng, bs = self.rng, self.bs
        b = rng.randrange(self.maxblocks) * bs
        r = rng.random()
        if r < 0.35:
            return b
        if r < 0.7:
            return max(0, b + rng.choice([-2, -1, 1, 2, 100, bs - 1]))
        return rng.randrange(self.maxblocks * bs)

    def length(self):
        rng, bs = self.rng, self.bs
        return rng.choice([0, 1, 2, 100, bs // 2, bs - 1, bs, bs, bs, bs + 1, 2 * bs,
                           rng.randrange(1, 3 * bs)])

    def data(self, n):
        rng, bs = self.rng, self.bs
        r = rng.random()
        if r < 0.35:
            x = rng.choice(self.pool)
            return (x * (n // bs + 1))[:n]
        if r < 0.45:
            return bytes(n)
        return rng.randbytes(n)

    def pick_op(self):
        w = self.profile.w
        names = list(w)
        return self.rng.choices(names, [w[x] for x in names])[0]

    # -- the step ---------------------------------------------------------

    async def step(self, op=None):
        op = op or self.pick_op()
        if self.m and len(self.m.paths()) > self.max_nodes and op in (
                'create', 'mkdir', 'mknod', 'symlink', 'link', 'cp'):
            op = self.rng.choice(['unlink', 'rmdir', 'write', 'rename'])
        try:
            await getattr(self, 'do_' + op)()
        except KErr as exc:
            self.fail('unexpected-error', 'a call that must succeed failed with %s' % exc)
        self.lastop = op

    def rec(self, *x):
        self.trace.append(tuple(y if not isinstance(y, (bytes, bytearray)) or len(y) < 24
                                else 'data[%d]' % len(y) for y in x))

    async def both(self, op, kcall, mcall, *args):
        '''Run the call on both sides; compare errors. Returns (kernel value, model value) or
        None if both failed.'''
        self.t0 = time.time_ns()
        try:
            kv = ('ok', await kcall)
        except KErr as exc:
            kv = ('err', exc.errno)
        self.t1 = time.time_ns()
        try:
            mv = ('ok', mcall())
        except KErr as exc:
            mv = ('err', exc.errno)
        self.rec(op, *args, kv[0] if kv[0] == 'ok' else errno.errorcode.get(kv[1], kv[1]))
        self.t.add('ops')
        self.t.add('op_' + op)
        if mv[0] == 'err':
            self.t.add('errors_expected')
        if kv[0] != mv[0] or (kv[0] == 'err' and kv[1] != mv[1]
                              and not self.same_error(op, kv[1], mv[1])):
            self.fail('result:%s' % op, '%s%r: file system gave %s, a POSIX tree gives %s' % (
                op, args, _res(kv), _res(mv)))
        self.t.sig(op, mv[0], mv[1] if mv[0] == 'err' else None, self.shape(args))
        if kv[0] == 'err':
            return None
        return kv[1], mv[1]

    def shape(self, args):
        return tuple(len(a) if isinstance(a, (tuple, bytes)) else
                     (a // self.bs, a % self.bs == 0) if isinstance(a, int) else None for a in args)

    @staticmethod
    def same_error(op, a, b):
        # The existing (and documented by long use) behaviour of overwriting a non-empty
        # directory is EINVAL; POSIX wants ENOTEMPTY/EEXIST.
        return op == 'rename' and b == errno.ENOTEMPTY and a in (errno.EINVAL, errno.EEXIST)

    def fail(self, kind, msg):
        raise Violation(kind, msg, 'last operations:\n' + '\n'.join(
            str(x) for x in self.trace[-40:]))

    def check_attr(self, a, n, what, *, m=False, c=False, acc=False, trunc=False, new=False):
        '''Compare attributes *a* with model node *n*. m/c: mtime/ctime must be in the window of
        the last call; acc: atime may be.'''
        if n is None:
            return
        if n.ino is None:
            n.ino = a.st_ino
        if n.ino != a.st_ino:
            self.fail('inode-changed', '%s: inode number changed from %d to %d' % (
                what, n.ino, a.st_ino))
        got = (stat.S_IFMT(a.st_mode), stat.S_IMODE(a.st_mode), a.st_uid, a.st_gid, a.st_nlink,
               a.st_size, a.st_rdev)
        exp = (n.ftype, n.mode, n.uid, n.gid, n.nlink, n.size, n.rdev)
        if got != exp:
            self.fail('attributes', '%s: attributes (type, mode, uid, gid, nlink, size, rdev) are '
                      '%r, expected %r' % (what, got, exp))
        if not self.check_times:
            return
        t0, t1 = self.t0, self.t1
        if new:
            m = c = True
            if n.atime is None and not t0 <= a.st_atime_ns <= t1:
                self.fail('times', '%s: atime of new entry not set' % what)
            n.atime = a.st_atime_ns
        for name, flag, val in (('mtime', m, a.st_mtime_ns), ('ctime', c, a.st_ctime_ns)):
            old = getattr(n, name)
            inwin = t0 <= val <= t1
            if flag and not inwin:
                self.fail('times', '%s: %s not updated (%d not in %d..%d)' % (
                    what, name, val, t0, t1))
            if not flag and old is not None and val != old and not (
                    trunc and name == 'mtime' and inwin):
                self.fail('times', '%s: %s changed from %d to %d (now is %d)' % (
                    what, name, old, val, t1))
            setattr(n, name, val)
        if n.atime is not None and a.st_atime_ns != n.atime:
            if not (acc and t0 <= a.st_atime_ns <= t1):
                self.fail('times', '%s: atime changed from %d to %d' % (
                    what, n.atime, a.st_atime_ns))
        n.atime = a.st_atime_ns

    async def check_parent(self, path, **kw):
        p = path[:-1]
        n = self.m.walk(p)
        a = await self.k.getattr(p)
        self.check_attr(a, n, 'directory %r' % (p,), **kw)

    # -- operations --------------------------------------------------------

    async def do_create(self):
        p = self.new_path()
        flags = self.rng.choice([os.O_RDWR, os.O_RDWR, os.O_WRONLY, os.O_RDWR | os.O_EXCL,
                                 os.O_RDWR | os.O_TRUNC])
        mode = self.rng.choice([0o644, 0o600, 0o4755, 0o000])
        try:
            n0 = self.m.walk(p)
        except KErr:
            n0 = None
        r = await self.both('create', self.k.create(p, mode, flags),
                            lambda: self.m.create(p, mode, flags), p, mode, flags)
        if r:
            (h, a), n = r
            if n0 is None:
                self.check_attr(a, n, 'created %r' % (p,), new=True)
                await self.check_parent(p, m=True, c=True)
            else:
                tr = bool(flags & os.O_TRUNC)
                self.check_attr(a, n, 'opened %r' % (p,), m=tr, c=tr)
            self.handles.append((h, n))

    async def do_open(self):
        p = self.some_path(stat.S_IFREG)
        flags = self.rng.choice([os.O_RDONLY, os.O_RDWR, os.O_RDWR, os.O_WRONLY | os.O_TRUNC])
        r = await self.both('open', self.k.open(p, flags), lambda: self.m.open(p, flags), p, flags)
        if r:
            h, n = r
            a = await self.k.getattr_h(h)
            tr = bool(flags & os.O_TRUNC)
            self.check_attr(a, n, 'opened %r' % (p,), m=tr, c=tr)
            self.handles.append((h, n))

    async def handle(self, write=False):
        sel = [x for x in self.handles if not write or x[0].flags & (os.O_RDWR | os.O_WRONLY)]
        if not sel:
            await self.do_create()
            sel = [x for x in self.handles if not write or x[0].flags & (os.O_RDWR | os.O_WRONLY)]
        if len(self.handles) > 8:
            await self.do_release()
            return await self.handle(write)
        return self.rng.choice(sel) if sel else None

    async def do_read(self):
        x = await self.handle()
        if not x:
            return
        h, n = x
        off, ln = self.offset(), self.length()
        if self.rng.random() < 0.15:
            off, ln = 0, n.size + 5
        r = await self.both('read', self.k.read(h, off, ln), lambda: self.m.read(n, off, ln),
                            h.ino, off, ln)
        if r[0] != r[1]:
            self.fail('read-data', 'read(inode %d, %d, %d): %s' % (
                h.ino, off, ln, K._abbr(r[0], r[1]) + ' expected ' + K._abbr(r[1], r[0])))
        self.t.add('bytes_read', len(r[0]))
        self.check_attr(await self.k.getattr_h(h), n, 'inode %d after read' % h.ino, acc=True)

    async def do_write(self):
        x = await self.handle(write=True)
        if not x:
            return
        h, n = x
        off, ln = self.offset(), max(1, self.length())
        d = self.data(ln)
        r = await self.both('write', self.k.write(h, off, d), lambda: self.m.write(n, off, d),
                            h.ino, off, ln)
        if not r:
            return
        if r[0] != r[1]:
            self.fail('write-count', 'write returned %r instead of %r' % r)
        self.check_attr(await self.k.getattr_h(h), n, 'inode %d after write' % h.ino, m=True,
                        c=True)

    async def do_release(self):
        if self.handles:
            i = self.rng.randrange(len(self.handles))
            h, n = self.handles.pop(i)
            await self.both('release', self.k.release(h), lambda: self.m.release(n), h.ino)

    async def do_ftruncate(self):
        x = await self.handle(write=True)
        if not x:
            return
        h, n = x
        size = self.offset()
        r = await self.both('ftruncate', self.k.ftruncate(h, size),
                            lambda: self.m.ftruncate(n, size), h.ino, size)
        if r:
            self.check_attr(r[0], n, 'inode %d after ftruncate' % h.ino, c=True, trunc=True)

    async def do_truncate(self):
        p = self.some_path(stat.S_IFREG)
        size = self.offset()
        r = await self.both('truncate', self.k.setattr(p, dict(size=size)),
                            lambda: self.m.setattr(p, dict(size=size)), p, size)
        if r:
            self.check_attr(r[0], r[1], '%r after truncate' % (p,), c=True, trunc=True)

    async def do_setattr(self):
        rng = self.rng
        p = self.some_path() if rng.random() < 0.95 else ()
        ch = {}
        for key, vals in (('mode', [0o700, 0o7777, 0, 0o2755]), ('uid', [0, 5, 2**32 - 2]),
                          ('gid', [0, 7, 2**31]),
                          ('atime', [0, 10**18 + 7, 2**62, 1]),
                          ('mtime', [0, 10**18 + 13, 2**62 + 1, 999999999])):
            if rng.random() < 0.4:
                ch[key] = rng.choice(vals)
        if not ch:
            ch['mode'] = 0o755
        r = await self.both('setattr', self.k.setattr(p, ch), lambda: self.m.setattr(p, ch), p,
                            str(ch))
        if r:
            a, n = r
            if 'atime' in ch:
                n.atime = ch['atime']
            if 'mtime' in ch:
                n.mtime = ch['mtime']
            self.check_attr(a, n, '%r after setattr' % (p,), c=True)
            self.check_attr(await self.k.getattr(p), n, '%r after setattr' % (p,))

    async def do_mkdir(self):
        p = self.new_path()
        mode = self.rng.choice([0o755, 0o700, 0o2775])
        r = await self.both('mkdir', self.k.mkdir(p, mode), lambda: self.m.mkdir(p, mode), p)
        if r:
            self.check_attr(r[0], r[1], 'new directory %r' % (p,), new=True)
            await self.check_parent(p, m=True, c=True)

    async def do_mknod(self):
        p = self.new_path()
        ft, rdev = self.rng.choice([(stat.S_IFIFO, 0), (stat.S_IFSOCK, 0), (stat.S_IFCHR, 259),
                                    (stat.S_IFBLK, 0x801), (stat.S_IFREG, 0)])
        r = await self.both('mknod', self.k.mknod(p, ft | 0o640, rdev),
                            lambda: self.m.mknod(p, ft | 0o640, rdev), p, ft, rdev)
        if r:
            self.check_attr(r[0], r[1], 'new node %r' % (p,), new=True)
            await self.check_parent(p, m=True, c=True)

    async def do_symlink(self):
        p = self.new_path()
        tgt = self.rng.choice([b'a', b'/abs/olute', b'../x', b'y' * 1000, b'\xff\x80 odd'])
        r = await self.both('symlink', self.k.symlink(p, tgt), lambda: self.m.symlink(p, tgt), p)
        if r:
            self.check_attr(r[0], r[1], 'new symlink %r' % (p,), new=True)
            await self.check_parent(p, m=True, c=True)

    async def do_readlink(self):
        p = self.some_path(stat.S_IFLNK)
        r = await self.both('readlink', self.k.readlink(p), lambda: self.m.readlink(p), p)
        if r:
            if r[0] != r[1]:
                self.fail('readlink', '%r: target %r instead of %r' % (p, r[0], r[1]))
            self.check_attr(await self.k.getattr(p), self.m.walk(p), 'symlink %r' % (p,), acc=True)

    async def do_link(self):
        s = self.some_path(stat.S_IFREG)
        d = self.new_path()
        r = await self.both('link', self.k.link(s, d), lambda: self.m.link(s, d), s, d)
        if r:
            self.check_attr(r[0], r[1], 'linked %r' % (d,), c=True)
            await self.check_parent(d, m=True, c=True)

    def _node(self, p):
        try:
            return self.m.walk(p)
        except KErr:
            return None

    async def do_unlink(self):
        p = self.some_path(self.rng.choice([stat.S_IFREG, stat.S_IFLNK, None]))
        if p in self.protect:
            return
        n = self._node(p)
        r = await self.both('unlink', self.k.unlink(p), lambda: self.m.unlink(p), p)
        if r:
            await self.after_remove(p, n)

    async def after_remove(self, p, n):
        await self.check_parent(p, m=True, c=True)
        await self.lost_link(n)

    async def lost_link(self, n):
        other = [q for q, x in self.m.paths() if x is n]
        if other:
            self.check_attr(await self.k.getattr(other[0]), n, 'other link %r' % (other[0],),
                            c=True)
            return
        for h, x in self.handles:
            if x is n:
                self.check_attr(await self.k.getattr_h(h), n, 'unlinked open inode', c=True)
                break

    async def do_rmdir(self):
        p = self.some_path(stat.S_IFDIR)
        if p in self.protect:
            return
        n = self._node(p)
        r = await self.both('rmdir', self.k.rmdir(p), lambda: self.m.rmdir(p), p)
        if r:
            await self.after_remove(p, n)

    async def do_rename(self):
        s = self.some_path()
        d = self.some_path(exists=0.4) if self.rng.random() < 0.6 else self.new_path()
        if not s or not d or s in self.protect or d in self.protect:
            return
        n, old = self._node(s), self._node(d)
        r = await self.both('rename', self.k.rename(s, d), lambda: self.m.rename(s, d), s, d)
        if r and n is not old:
            if s[:-1] == d[:-1]:
                await self.check_parent(s, m=True, c=True)
            else:
                await self.check_parent(s, m=True, c=True)
                await self.check_parent(d, m=True, c=True)
            a = await self.k.getattr(d)
            n.ctime = None      # may or may not be updated
            self.check_attr(a, n, 'renamed %r' % (d,))
            if old is not None:
                await self.lost_link(old)

    async def do_getattr(self):
        p = self.some_path(exists=0.8) if self.rng.random() < 0.95 else ()
        r = await self.both('getattr', self.k.getattr(p), lambda: self.m.getattr(p), p)
        if r:
            self.check_attr(r[0], r[1], '%r' % (p,))

    async def do_readdir(self):
        p = self.some_path(stat.S_IFDIR) if self.rng.random() < 0.8 else ()
        ch = self.rng.choice([1, 2, 3, 100])
        r = await self.both('readdir', self.k.readdir(p, ch), lambda: self.m.readdir(p), p)
        if r:
            names = sorted(x[0] for x in r[0])
            if names != r[1]:
                self.fail('readdir', '%r: %r instead of %r' % (p, names, r[1]))
            d = self.m.walk(p)
            t = self.t0, self.t1
            for name, a in r[0]:
                self.check_attr(a, d.children[name], 'readdir entry %r in %r' % (name, p))
            self.t0, self.t1 = t
            self.check_attr(await self.k.getattr(p), d, 'directory %r' % (p,), acc=True)

    async def do_setxattr(self):
        p = self.some_path() if self.rng.random() < 0.95 else ()
        n = self.rng.choice(XNAMES)
        v = self.rng.choice([b'', b'v', self.rng.randbytes(20), b'z' * 3000])
        r = await self.both('setxattr', self.k.setxattr(p, n, v), lambda: self.m.setxattr(p, n, v),
                            p, n)
        if r:
            self.check_attr(await self.k.getattr(p), self.m.walk(p), '%r' % (p,), c=True)

    async def do_getxattr(self):
        p = self.some_path()
        n = self.rng.choice(XNAMES)
        r = await self.both('getxattr', self.k.getxattr(p, n), lambda: self.m.getxattr(p, n), p, n)
        if r and r[0] != r[1]:
            self.fail('getxattr', '%r %r: %r instead of %r' % (p, n, r[0], r[1]))

    async def do_listxattr(self):
        p = self.some_path()
        r = await self.both('listxattr', self.k.listxattr(p), lambda: self.m.listxattr(p), p)
        if r and sorted(r[0]) != r[1]:
            self.fail('listxattr', '%r: %r instead of %r' % (p, sorted(r[0]), r[1]))

    async def do_removexattr(self):
        p = self.some_path()
        n = self.rng.choice(XNAMES)
        sel = [(q, x) for q, x in self.m.paths() if x.xattr]
        if sel and self.rng.random() < 0.6:
            p, x = self.rng.choice(sel)
            if self.rng.random() < 0.8:
                n = self.rng.choice(sorted(x.xattr))
        r = await self.both('removexattr', self.k.removexattr(p, n),
                            lambda: self.m.removexattr(p, n), p, n)
        if r:
            self.check_attr(await self.k.getattr(p), self.m.walk(p), '%r' % (p,), c=True)

    async def do_fsync(self):
        x = await self.handle()
        if x:
            await self.both('fsync', self.k.fsync(x[0], self.rng.random() < 0.3), lambda: None,
                            x[0].ino)

    async def do_forget(self):
        self.rec('forget')
        await self.k.forget_random(self.rng.choice([0.2, 0.5, 1.0]))
        self.t.add('forgets')

    async def do_flushcache(self):
        await self.both('flushcache', self.k.flushcache(), lambda: None)

    async def do_dropcache(self):
        await self.both('dropcache', self.k.dropcache(), lambda: None)

    async def do_statfs(self):
        r = await self.both('statfs', self.k.req('statfs', self.k.ctx), lambda: None)
        s = r[0]
        if s.f_bfree > s.f_blocks or s.f_bavail > s.f_blocks or s.f_ffree > s.f_files:
            self.fail('statfs', 'inconsistent statfs: %r' % ((s.f_blocks, s.f_bfree, s.f_bavail),))

    async def do_cp(self):
        dirs = [p for p, n in self.m.paths() if n.ftype == stat.S_IFDIR and p]
        if not dirs:
            return await self.do_mkdir()
        s = self.rng.choice(dirs)
        d = self.new_path()
        if d[:len(s)] == s:
            return
        r = await self.both('cp', self.k.cp(s, d), lambda: self.m.cp(s, d), s, d)
        if r:
            self.resync_times(self.m.walk(d))
            pn = self.m.walk(d[:-1])
            pn.mtime = pn.ctime = pn.atime = None
            got = await K.snapshot(self.k, d)
            df = K.diff_trees(got, self.m.snapshot(d))
            if df:
                self.fail('copy-differs', 'copy %r of %r differs: %s' % (d, s, '; '.join(df)))
            self.forget_atimes()

    async def do_rmtree(self):
        p = self.some_path(stat.S_IFDIR)
        if p in self.protect:
            return
        nodes = []
        n = self._node(p)

        def rec(x):
            nodes.append(x)
            for c in (x.children or {}).values():
                rec(c)
        if n is not None:
            rec(n)
        r = await self.both('rmtree', self.k.rmtree(p), lambda: self.m.rmtree(p), p)
        if r:
            for x in nodes:
                x.ctime = x.mtime = x.atime = None
            await self.check_parent(p, m=True, c=True)

    async def do_lock(self):
        p = self.some_path(stat.S_IFDIR)
        if self._node(p) is None:
            return
        await self.both('lock', self.k.lock_tree(p), lambda: self.m.lock_tree(p), p)

    def resync_times(self, n):
        n.mtime = n.ctime = n.atime = None
        n.ino = None if n.ino is None else n.ino
        for c in (n.children or {}).values():
            self.resync_times(c)

    def forget_atimes(self):
        for p, n in self.m.paths():
            n.atime = None
        for h, n in self.handles:
            n.atime = None

    # -- whole-tree comparison --------------------------------------------

    async def compare_all(self, what='tree'):
        '''Compare everything with the model.'''
        try:
            for p, n in self.m.paths():
                a = await self.k.getattr(p)
                self.t0, self.t1 = 1, 0
                self.check_attr(a, n, '%s %r' % (what, p))
            got = await K.snapshot(self.k)
        except KErr as exc:
            self.fail('unexpected-error', 'comparing the %s failed with %s' % (what, exc))
        exp = self.m.snapshot()
        df = K.diff_trees(got, exp)
        if df:
            self.fail('tree-differs', '%s differs from the model: %s' % (what, '; '.join(df)))
        self.forget_atimes()
        self.t.add('tree_entries_compared', len(exp))
        for h, n in self.handles:
            d = await self.k.read(h, 0, n.size + 7)
            if d != bytes(n.data):
                self.fail('read-data', 'open inode %d: %s' % (h.ino, K._abbr(d, bytes(n.data))))

    async def close_all(self):
        while self.handles:
            await self.do_release()


def _res(x):
    if x[0] == 'err':
        return 'error ' + errno.errorcode.get(x[1], str(x[1]))
    return 'success'
