'''Emulation of the kernel side of FUSE: path walks, dentry cache, lookup counts, open handles,
VFS checks and the VFS locking order.  Drives the real request handlers.'''
from __future__ import annotations

import contextvars
import errno
import functools
import os
import stat
import struct

import pyfuse3
import trio
from pyfuse3 import FUSEError

from . import world
from .core import Violation, describe_exc

ROOT = pyfuse3.ROOT_INODE
CTRL_INODE = ROOT + 1


class KErr(Exception):
    '''Error result of a system call.'''

    def __init__(self, eno):
        super().__init__(errno.errorcode.get(eno, eno))
        self.errno = eno


_pins = contextvars.ContextVar('pins', default=None)


def syscall(fn):
    '''Every inode that a system call touches stays referenced until the call ends.'''
    @functools.wraps(fn)
    async def wrapper(self, *a, **kw):
        if _pins.get() is not None:
            return await fn(self, *a, **kw)
        tok = _pins.set([])
        try:
            return await fn(self, *a, **kw)
        finally:
            pins = _pins.get()
            _pins.reset(tok)
            for ino in pins:
                self.opens[ino] -= 1
                if not self.opens[ino]:
                    del self.opens[ino]
            for ino in pins:
                if ino in self.dead and not self._pinned(ino):
                    self.dead.discard(ino)
                    with trio.CancelScope(shield=True):
                        await self._gone(ino)
    return wrapper


class Ctx:
    def __init__(self, uid=1000, gid=1000, pid=42, umask=0):
        self.uid, self.gid, self.pid, self.umask = uid, gid, pid, umask


class Fields:
    def __init__(self, **kw):
        self.update_atime = self.update_mtime = self.update_ctime = False
        self.update_mode = self.update_uid = self.update_gid = self.update_size = False
        self.__dict__.update(kw)


class Attr:
    pass


class ReaddirToken:
    def __init__(self, limit):
        self.limit = limit
        self.entries = []

    def reply(self, name, attr, next_id):
        if len(self.entries) >= self.limit:
            return False
        self.entries.append((name, attr, next_id))
        return True


class Handle:
    __slots__ = ('fh', 'ino', 'isdir', 'flags', 'closed')

    def __init__(self, fh, ino, isdir, flags=0):
        self.fh, self.ino, self.isdir, self.flags = fh, ino, isdir, flags
        self.closed = False


class Kern:
    def __init__(self, ses, rng, *, tally=None, relookup=0.3, forget_eager=0.3):
        self.ses = ses
        self.ops = ses.ops
        self.rng = rng
        self.tally = tally
        self.relookup = relookup
        self.forget_eager = forget_eager
        self.nlookup = {ROOT: 1}
        self.dentries = {}      # (parent, name) -> ino
        self.modes = {ROOT: stat.S_IFDIR}
        self.opens = {}         # ino -> number of open handles
        self.dirlocks = {}
        self.handles = set()
        self.dead = set()       # unlinked, forgotten as soon as nobody uses them
        self.renlock = trio.Lock()
        self.concurrent = False
        self.ctx = Ctx()
        self.nreq = 0
        self.pending = {}
        self.ncompleted = 0
        if world.WATCHDOG is not None:
            world.WATCHDOG.sources.append(lambda: (self.nreq, self.ncompleted))
            world.WATCHDOG.describe = lambda: '; pending requests: %s' % sorted(
                x[0] for x in self.pending.values())

    # -- request plumbing ------------------------------------------------

    async def req(self, name, *args):
        '''Send one request; translate FUSEError; anything else is a broken handler.'''
        self.nreq += 1
        no = self.nreq
        self.pending[no] = (name, args)
        if self.tally is not None:
            self.tally.add('requests')
        try:
            return await getattr(self.ops, name)(*args)
        except FUSEError as exc:
            raise KErr(exc.errno) from None
        except (trio.Cancelled, Violation, KeyboardInterrupt):
            raise
        except BaseExceptionGroup:
            raise
        except Exception as exc:
            raise Violation(
                'handler-exception:%s:%s' % (name, type(exc).__name__),
                'request %s%r raised %s: %s' % (name, _short(args), type(exc).__name__, exc),
                describe_exc(exc),
            ) from exc
        finally:
            del self.pending[no]
            self.ncompleted += 1

    def touch(self, ino):
        pins = _pins.get()
        if pins is not None:
            pins.append(ino)
            self.opens[ino] = self.opens.get(ino, 0) + 1
        return ino

    def _entry(self, parent, name, attr, dentry=True):
        ino = attr.st_ino
        self.nlookup[ino] = self.nlookup.get(ino, 0) + 1
        self.modes[ino] = attr.st_mode
        if dentry:
            self.dentries[(parent, name)] = ino
            self.dead.discard(ino)
        else:
            self.dead.add(ino)
        self.touch(ino)
        return attr

    async def lookup(self, parent, name, fresh=False, locked=False):
        '''Return the inode number of *name* in *parent*. *locked*: caller holds the lock of the
        directory.'''
        self._invalidations()
        ino = self.dentries.get((parent, name))
        if ino is not None:
            self.touch(ino)
            if not fresh and self.rng.random() >= self.relookup:
                return ino
            # revalidation: without locks
            try:
                attr = await self.req('lookup', parent, name, self.ctx)
            except KErr as exc:
                if exc.errno == errno.ENOENT and self.dentries.get((parent, name)) == ino:
                    if not self.concurrent:
                        raise Violation('lookup-changed', 'lookup of %r in %d suddenly fails' % (
                            name, parent)) from None
                    del self.dentries[(parent, name)]
                raise
            same = self.dentries.get((parent, name)) == ino
            if ino != attr.st_ino and same and not self.concurrent:
                raise Violation('lookup-changed', 'lookup of %r in %d changed from inode %d to '
                                '%d without any request' % (name, parent, ino, attr.st_ino))
            self._entry(parent, name, attr, dentry=same and ino == attr.st_ino)
            return attr.st_ino
        if locked:
            attr = await self.req('lookup', parent, name, self.ctx)
            self._entry(parent, name, attr)
            return attr.st_ino
        async with self.lock(parent):
            ino = self.dentries.get((parent, name))
            if ino is not None:
                return self.touch(ino)
            attr = await self.req('lookup', parent, name, self.ctx)
            self._entry(parent, name, attr)
        return attr.st_ino

    async def walk(self, path):
        ino = self.touch(ROOT)
        for name in path:
            if not stat.S_ISDIR(self.modes[ino]):
                raise KErr(errno.ENOTDIR)
            ino = await self.lookup(ino, name)
        return ino

    async def parent(self, path):
        p = await self.walk(path[:-1])
        if not stat.S_ISDIR(self.modes[p]):
            raise KErr(errno.ENOTDIR)
        return p

    def lock(self, ino):
        lk = self.dirlocks.get(ino)
        if lk is None:
            lk = self.dirlocks[ino] = trio.Lock()
        return lk

    async def _maybe(self, parent, name):
        '''lookup that returns None if there is no such entry (directory lock is held)'''
        try:
            return await self.lookup(parent, name, locked=True)
        except KErr as exc:
            if exc.errno != errno.ENOENT:
                raise
            return None

    def _invalidations(self):
        inv = self.ses.invalidated
        if not inv:
            return
        for x in inv:
            if x[0] == 'entry':
                self.dentries.pop((x[1], x[2]), None)
            else:
                for k in [k for k in self.dentries if k[0] == x[1]]:
                    del self.dentries[k]
        inv.clear()

    # -- forgetting ------------------------------------------------------

    def _pinned(self, ino):
        return ino == ROOT or self.opens.get(ino)

    async def forget_ino(self, ino):
        '''Drop the inode from the kernel's caches (if not in use), together with its dentries
        and everything below it.'''
        while not self._pinned(ino):
            kids = [i for (p, n), i in self.dentries.items() if p == ino]
            if not kids:
                for k in [k for k, i in self.dentries.items() if i == ino]:
                    del self.dentries[k]
                await self._send_forget(ino)
                return True
            if not await self.forget_ino(kids[0]):
                return False
        return False

    async def _send_forget(self, ino):
        self.dead.discard(ino)
        n = self.nlookup.pop(ino, 0)
        self.modes.pop(ino, None)
        if n:
            await self.req('forget', [(ino, n)])

    async def forget_random(self, prob=0.5):
        for ino in list(self.nlookup):
            if ino in self.nlookup and ino != ROOT and self.rng.random() < prob:
                await self.forget_ino(ino)

    async def forget_all(self):
        for ino in list(self.nlookup):
            if ino in self.nlookup and ino != ROOT:
                await self.forget_ino(ino)

    async def _gone(self, ino):
        '''The last name may be gone: the kernel evicts unlinked inodes right away.'''
        if any(i == ino for i in self.dentries.values()):
            return
        if self._pinned(ino):
            self.dead.add(ino)
            return
        await self._send_forget(ino)

    # -- system calls ----------------------------------------------------

    @syscall
    async def getattr(self, path):
        ino = await self.walk(path)
        return await self.req('getattr', ino, self.ctx)

    @syscall
    async def getattr_h(self, h):
        return await self.req('getattr', h.ino, self.ctx)

    @syscall
    async def mkdir(self, path, mode=0o755):
        p = await self.parent(path)
        async with self.lock(p):
            if await self._maybe(p, path[-1]) is not None:
                raise KErr(errno.EEXIST)
            a = await self.req('mkdir', p, path[-1], stat.S_IFDIR | mode, self.ctx)
            self._entry(p, path[-1], a)
            return a

    @syscall
    async def mknod(self, path, mode, rdev=0):
        p = await self.parent(path)
        async with self.lock(p):
            if await self._maybe(p, path[-1]) is not None:
                raise KErr(errno.EEXIST)
            a = await self.req('mknod', p, path[-1], mode, rdev, self.ctx)
            self._entry(p, path[-1], a)
            return a

    @syscall
    async def symlink(self, path, target):
        p = await self.parent(path)
        async with self.lock(p):
            if await self._maybe(p, path[-1]) is not None:
                raise KErr(errno.EEXIST)
            a = await self.req('symlink', p, path[-1], target, self.ctx)
            self._entry(p, path[-1], a)
            return a

    @syscall
    async def readlink(self, path):
        ino = await self.walk(path)
        if not stat.S_ISLNK(self.modes[ino]):
            raise KErr(errno.EINVAL)
        return await self.req('readlink', ino, self.ctx)

    def _opened(self, fi, ino, flags):
        fh = fi.fh if hasattr(fi, 'fh') else fi
        self.opens[ino] = self.opens.get(ino, 0) + 1
        h = Handle(fh, ino, False, flags)
        self.handles.add(h)
        return h

    @syscall
    async def create(self, path, mode=0o644, flags=os.O_RDWR):
        '''open(O_CREAT | flags). Returns (handle, attr).'''
        p = await self.parent(path)
        async with self.lock(p):
            ino = await self._maybe(p, path[-1])
            if ino is None:
                fi, a = await self.req('create', p, path[-1], stat.S_IFREG | mode, flags, self.ctx)
                self._entry(p, path[-1], a)
                return self._opened(fi, a.st_ino, flags), a
        if flags & os.O_EXCL:
            raise KErr(errno.EEXIST)
        h = await self.open(path, flags)
        return h, await self.getattr_h(h)

    @syscall
    async def open(self, path, flags=os.O_RDWR):
        ino = await self.walk(path)
        if stat.S_ISDIR(self.modes[ino]):
            raise KErr(errno.EISDIR)
        if stat.S_ISLNK(self.modes[ino]):
            raise KErr(errno.ELOOP)
        if not stat.S_ISREG(self.modes[ino]):
            raise KErr(errno.ENXIO)
        self.opens[ino] = self.opens.get(ino, 0) + 1      # pin while the request runs
        try:
            if flags & os.O_TRUNC:
                async with self.lock(ino):
                    fi = await self.req('open', ino, flags & ~os.O_CREAT, self.ctx)
            else:
                fi = await self.req('open', ino, flags & ~os.O_CREAT, self.ctx)
        finally:
            self.opens[ino] -= 1
        return self._opened(fi, ino, flags)

    @syscall
    async def read(self, h, off, length):
        return await self.req('read', h.fh, off, length)

    @syscall
    async def write(self, h, off, data):
        async with self.lock(h.ino):
            return await self.req('write', h.fh, off, data)

    @syscall
    async def fsync(self, h, datasync=False):
        await self.req('fsync', h.fh, datasync)

    @syscall
    async def flush(self, h):
        await self.req('flush', h.fh)

    @syscall
    async def release(self, h):
        if h.closed:
            return
        h.closed = True
        self.handles.discard(h)
        await self.req('flush', h.fh)
        await self.req('release', h.fh)
        self.opens[h.ino] -= 1
        if not self.opens[h.ino]:
            del self.opens[h.ino]
            await self._gone(h.ino)

    async def setattr_ino(self, ino, ch, fh=None):
        a = Attr()
        f = Fields()
        for k, v in ch.items():
            if k == 'mode':
                a.st_mode = (self.modes[ino] & ~0o7777) | v
                f.update_mode = True
            elif k == 'uid':
                a.st_uid = v
                f.update_uid = True
            elif k == 'gid':
                a.st_gid = v
                f.update_gid = True
            elif k == 'size':
                a.st_size = v
                f.update_size = True
            elif k == 'atime':
                a.st_atime_ns = v
                f.update_atime = True
            elif k == 'mtime':
                a.st_mtime_ns = v
                f.update_mtime = True
        async with self.lock(ino):
            res = await self.req('setattr', ino, a, f, fh, self.ctx)
        if ino in self.modes:
            self.modes[ino] = res.st_mode
        return res

    @syscall
    async def setattr(self, path, ch):
        ino = await self.walk(path)
        if 'size' in ch:
            if stat.S_ISDIR(self.modes[ino]):
                raise KErr(errno.EISDIR)
            if not stat.S_ISREG(self.modes[ino]):
                raise KErr(errno.EINVAL)
        self.opens[ino] = self.opens.get(ino, 0) + 1
        try:
            return await self.setattr_ino(ino, ch)
        finally:
            self.opens[ino] -= 1

    @syscall
    async def ftruncate(self, h, size):
        return await self.setattr_ino(h.ino, dict(size=size), h.fh)

    @syscall
    async def link(self, src, dst, found=None):
        # found(inode, mode): called when the source has been resolved
        ino = await self.walk(src)
        if stat.S_ISDIR(self.modes[ino]):
            raise KErr(errno.EPERM)
        self.opens[ino] = self.opens.get(ino, 0) + 1
        try:
            if found:
                found(ino, self.modes[ino])
            p = await self.parent(dst)
            async with self.lock(p):
                if await self._maybe(p, dst[-1]) is not None:
                    raise KErr(errno.EEXIST)
                async with self.lock(ino):
                    a = await self.req('link', ino, p, dst[-1], self.ctx)
                if a.st_ino != ino:
                    raise Violation('link-inode', 'link returned inode %d for inode %d' % (
                        a.st_ino, ino))
                self._entry(p, dst[-1], a)
                return a
        finally:
            self.opens[ino] -= 1

    @syscall
    async def unlink(self, path):
        p = await self.parent(path)
        async with self.lock(p):
            ino = await self.lookup(p, path[-1], locked=True)
            if stat.S_ISDIR(self.modes[ino]):
                raise KErr(errno.EISDIR)
            async with self.lock(ino):
                await self.req('unlink', p, path[-1], self.ctx)
            self.dentries.pop((p, path[-1]), None)
        await self._gone(ino)

    @syscall
    async def rmdir(self, path):
        p = await self.parent(path)
        async with self.renlock, self.lock(p):
            ino = await self.lookup(p, path[-1], locked=True)
            if not stat.S_ISDIR(self.modes[ino]):
                raise KErr(errno.ENOTDIR)
            async with self.lock(ino):
                await self.req('rmdir', p, path[-1], self.ctx)
                self.dentries.pop((p, path[-1]), None)
        await self._gone(ino)

    @syscall
    async def rename(self, src, dst):
        if dst[:len(src)] == src and len(dst) > len(src):
            await self.walk(src)
            raise KErr(errno.EINVAL)
        p1 = await self.parent(src)
        p2 = await self.parent(dst)
        locks = [self.renlock] + [self.lock(i) for i in sorted({p1, p2})]
        for lk in locks:
            await lk.acquire()
        try:
            i1 = await self.lookup(p1, src[-1], locked=True)
            i2 = await self._maybe(p2, dst[-1])
            if src[:len(dst)] == dst and len(src) > len(dst):
                raise KErr(errno.ENOTEMPTY)
            if i2 is not None:
                if i1 == i2:
                    return
                d1, d2 = stat.S_ISDIR(self.modes[i1]), stat.S_ISDIR(self.modes[i2])
                if d2 and not d1:
                    raise KErr(errno.EISDIR)
                if d1 and not d2:
                    raise KErr(errno.ENOTDIR)
            if self.concurrent and stat.S_ISDIR(self.modes[i1]) and self._below(p2, i1):
                raise KErr(errno.EINVAL)
            if i2 is not None:
                await self.lock(i2).acquire()
                locks.append(self.lock(i2))
            await self.req('rename', p1, src[-1], p2, dst[-1], 0, self.ctx)
            self.dentries.pop((p1, src[-1]), None)
            self.dentries[(p2, dst[-1])] = i1
        finally:
            for lk in locks:
                lk.release()
        if i2 is not None:
            await self._gone(i2)

    def _below(self, ino, anc):
        '''is *ino* below (or equal to) directory *anc*, as far as the kernel knows?'''
        par = {i: p for (p, n), i in self.dentries.items()}
        seen = set()
        while ino not in seen:
            if ino == anc:
                return True
            seen.add(ino)
            ino = par.get(ino, ROOT)
        return False

    async def readdir_raw(self, ino, chunk=100, hook=None):
        '''Full listing of a directory. hook(): awaited between chunks.'''
        if not stat.S_ISDIR(self.modes[ino]):
            raise KErr(errno.ENOTDIR)
        self.opens[ino] = self.opens.get(ino, 0) + 1
        try:
            fh = await self.req('opendir', ino, self.ctx)
            off = 0
            res = []
            while True:
                n = chunk() if callable(chunk) else chunk
                tok = ReaddirToken(n)
                async with self.lock(ino):
                    await self.req('readdir', fh, off, tok)
                    for name, attr, nxt in tok.entries:
                        if nxt == off:
                            raise Violation('readdir-offset', 'offset does not advance')
                        off = nxt
                        self._entry(ino, name, attr)
                        res.append((name, attr))
                if not tok.entries:
                    break
                if hook is not None:
                    await hook()
            await self.req('releasedir', fh)
            return res
        finally:
            self.opens[ino] -= 1

    @syscall
    async def readdir(self, path, chunk=100):
        ino = await self.walk(path)
        return await self.readdir_raw(ino, chunk)

    @syscall
    async def setxattr(self, path, name, value):
        await self.req('setxattr', await self.walk(path), name, value, self.ctx)

    @syscall
    async def getxattr(self, path, name):
        return await self.req('getxattr', await self.walk(path), name, self.ctx)

    @syscall
    async def listxattr(self, path):
        return await self.req('listxattr', await self.walk(path), self.ctx)

    @syscall
    async def removexattr(self, path, name):
        await self.req('removexattr', await self.walk(path), name, self.ctx)

    # -- control file ----------------------------------------------------

    async def ctrl(self, cmd, value=b'dummy'):
        await self.req('setxattr', CTRL_INODE, cmd, value, self.ctx)

    async def flushcache(self):
        await self.ctrl(b's3ql_flushcache!')

    async def dropcache(self):
        await self.ctrl(b's3ql_dropcache!')

    async def syncfs(self):
        '''syncfs(2) on FUSE: write back dirty pages (nothing is held back here).'''

    async def stat_counts(self):
        buf = await self.req('getxattr', CTRL_INODE, b's3qlstat', self.ctx)
        names = ('entries', 'objects', 'inodes', 'fs_size', 'dedup_size', 'compr_size', 'db_size',
                 'cache_cnt', 'cache_size', 'dirty_cnt', 'dirty_size', 'removals')
        return dict(zip(names, struct.unpack('QQQQQQQQQQQQ', buf)))

    @syscall
    async def cp(self, src, dst):
        '''What s3qlcp does: mkdir target, sync, copy command.'''
        s = await self.walk(src)
        if not stat.S_ISDIR(self.modes[s]):
            raise KErr(errno.ENOTDIR)
        self.opens[s] = self.opens.get(s, 0) + 1
        try:
            a = await self.mkdir(dst)
            t = a.st_ino
            self.opens[t] = self.opens.get(t, 0) + 1
            try:
                await self.ctrl(b'copy', b'(%d, %d)' % (s, t))
            finally:
                self.opens[t] -= 1
        finally:
            self.opens[s] -= 1
        self._invalidations()

    @syscall
    async def lock_tree(self, path):
        ino = await self.walk(path)
        self.opens[ino] = self.opens.get(ino, 0) + 1
        try:
            await self.ctrl(b'lock', b'%d' % ino)
        finally:
            self.opens[ino] -= 1

    @syscall
    async def rmtree(self, path):
        p = await self.parent(path)
        self.opens[p] = self.opens.get(p, 0) + 1
        try:
            ino = await self.lookup(p, path[-1])
            await self.ctrl(b'rmtree', ('(%d, %r)' % (p, path[-1])).encode())
        finally:
            self.opens[p] -= 1
        self._invalidations()
        # dentries of the removed tree are unhashed when their inodes are found dead
        await self._drop_below(ino)
        self.dentries.pop((p, path[-1]), None)
        await self._gone(ino)

    async def _drop_below(self, ino):
        for (p, n), i in list(self.dentries.items()):
            if p == ino:
                await self._drop_below(i)
                self.dentries.pop((p, n), None)
                await self._gone(i)


def _short(args):
    return tuple((a[:40] + b'...') if isinstance(a, bytes) and len(a) > 40 else
                 (a if isinstance(a, (int, bytes, str, list, tuple, type(None))) else
                  type(a).__name__) for a in args)


# --------------------------------------------------------------------------------------------
# snapshots


async def snapshot(k, path=(), *, content=True, times=False, chunk=50, ino_out=None):
    '''Tree below *path* as {relative path: dict}. Hard links are shown as groups ('grp' = first
    path of the group in sorted order).'''
    res = {}
    inos = {}

    async def visit(p, rel):
        ino = await k.walk(p)
        a = await k.req('getattr', ino, k.ctx)
        d = dict(type=stat.S_IFMT(a.st_mode), mode=stat.S_IMODE(a.st_mode), uid=a.st_uid,
                 gid=a.st_gid, nlink=a.st_nlink, rdev=a.st_rdev)
        names = await k.req('listxattr', ino, k.ctx)
        if len(set(names)) != len(names):
            raise Violation('listxattr-dup', 'listxattr returned a name twice')
        d['xattr'] = {n: await k.req('getxattr', ino, n, k.ctx) for n in sorted(names)}
        if stat.S_ISLNK(a.st_mode):
            d['target'] = await k.req('readlink', ino, k.ctx)
            d['size'] = a.st_size
        elif stat.S_ISREG(a.st_mode):
            d['size'] = a.st_size
            if content:
                h = await k.open(p, os.O_RDONLY)
                try:
                    d['data'] = await k.read(h, 0, a.st_size + 10)
                finally:
                    await k.release(h)
                if len(d['data']) != a.st_size:
                    raise Violation('read-size', 'read returned %d of %d bytes' % (
                        len(d['data']), a.st_size))
        if times:
            d['mtime'] = a.st_mtime_ns
            d['ctime'] = a.st_ctime_ns
        res[rel] = d
        inos.setdefault(a.st_ino, []).append(rel)
        if stat.S_ISDIR(a.st_mode):
            ents = await k.readdir_raw(ino, chunk)
            seen = set()
            for name, attr in ents:
                if name in seen:
                    raise Violation('readdir-dup', 'readdir returned %r twice' % name)
                seen.add(name)
            for name in sorted(seen):
                await visit(p + (name,), rel + (name,))
        if times:
            a = await k.req('getattr', ino, k.ctx)
            d['atime'] = a.st_atime_ns

    await visit(tuple(path), ())
    for ino, rels in inos.items():
        g = min(rels)
        for r in rels:
            res[r]['grp'] = g
    if ino_out is not None:
        ino_out.update(inos)
    return res


def diff_trees(a, b, *, ignore=(), limit=5):
    '''Human readable differences between two snapshots (empty list: equal).'''
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in a:
            out.append('%r only in second' % (p,))
        elif p not in b:
            out.append('%r only in first' % (p,))
        else:
            for key in sorted(set(a[p]) | set(b[p])):
                if key in ignore:
                    continue
                x, y = a[p].get(key), b[p].get(key)
                if x != y:
                    out.append('%r: %s differs: %s vs %s' % (p, key, _abbr(x, y), _abbr(y, x)))
    return out[:limit] + (['... %d more' % (len(out) - limit)] if len(out) > limit else [])


def _abbr(x, y):
    if isinstance(x, (bytes, bytearray)) and isinstance(y, (bytes, bytearray)):
        i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        return 'len %d, first difference at %d: %r' % (len(x), i, bytes(x[i:i + 24]))
    return repr(x)[:200]
