'''System calls of the command-line tools, redirected to an in-process mount.

A tool runs in a thread of its own; what it asks the operating system about paths below the mount
point goes to the emulated kernel of the session, everything else to the real system.'''
from __future__ import annotations

import ast
import contextlib
import errno
import io
import os
import queue
import stat
import sys
import threading

import trio

from .core import HarnessError
from .kern import KErr

CTRL_NAME = b'.__s3ql__ctrl__'
_local = threading.local()


class Entry:
    def __init__(self, name, path, st):
        self.name, self.path, self._st = name, path, st

    def is_dir(self, follow_symlinks=True):
        return stat.S_ISDIR(self._st.st_mode)

    def is_symlink(self):
        return stat.S_ISLNK(self._st.st_mode)

    def is_file(self, follow_symlinks=True):
        return stat.S_ISREG(self._st.st_mode)

    def inode(self):
        return self._st.st_ino


class Scan:
    def __init__(self, ents):
        self.it = iter(ents)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def close(self):
        pass


class FakeOS:
    DEV = 0x5351

    def __init__(self, k, mnt):
        self.k, self.mnt = k, mnt
        self.cwd = '/'
        self.euid = 0
        self.calls = []         # what changed something: (name, args)
        self.send = None
        self.real = {}

    # -- the thread's side
    def ask(self, fn, *args):
        q = queue.Queue()
        self.token.run_sync_soon(self.send.send_nowait, (fn, args, q))
        ok, val = q.get(timeout=100)
        if ok:
            return val
        if isinstance(val, KErr):
            raise OSError(val.errno, os.strerror(val.errno))
        raise val

    def mine(self, path):
        '''Components below the mount point if *path* is there.'''
        if getattr(_local, 'tool', None) is not self or isinstance(path, int):
            return None
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path == '':
            return None
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        if path == self.mnt or path.startswith(self.mnt + '/'):
            return path
        return None

    def mine_any(self, path):
        old = getattr(_local, 'tool', None)
        _local.tool = self
        try:
            return self.mine(path)
        finally:
            _local.tool = old

    def resolve(self, path, follow):
        '''Where *path* leads: tuple of names below the mount point, or the real path outside.'''
        todo = [x for x in path[len(self.mnt):].split('/')]
        if path.endswith('/'):
            follow = True
        done = []
        links = 0
        todo = [x for x in todo if x not in ('', '.')]
        while todo:
            name = todo.pop(0)
            if name in ('', '.'):
                continue
            a = self.ask(self.k.getattr, tuple(map(os.fsencode, done)))
            if not stat.S_ISDIR(a.st_mode):
                raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
            if name == '..':
                if not done:
                    up = os.path.dirname(self.mnt) + ''.join('/' + x for x in todo)
                    if self.mine(up) is not None:
                        return self.resolve(up, follow)
                    return up
                done.pop()
                continue
            a = self.ask(self.k.getattr, tuple(map(os.fsencode, done + [name])))
            if stat.S_ISLNK(a.st_mode) and (todo or follow):
                links += 1
                if links > 40:
                    raise OSError(errno.ELOOP, os.strerror(errno.ELOOP))
                target = os.fsdecode(self.ask(self.k.readlink, tuple(map(os.fsencode, done + [name]))))
                if target.startswith('/'):
                    new = target + ''.join('/' + x for x in todo)
                    if self.mine(new) is None:
                        return new
                    return self.resolve(new, follow)
                todo = target.split('/') + todo
                continue
            done.append(name)
        return tuple(map(os.fsencode, done))

    def attr(self, path, follow):
        p = self.resolve(path, follow)
        if isinstance(p, str):
            return self.real['stat' if follow else 'lstat'](p)
        a = self.ask(self.k.getattr, p)
        ns = (a.st_atime_ns, a.st_mtime_ns, a.st_ctime_ns)
        return os.stat_result((a.st_mode, a.st_ino, self.DEV, a.st_nlink, a.st_uid, a.st_gid, a.st_size)
                              + tuple(x // 10**9 for x in ns) + tuple(x / 1e9 for x in ns) + ns)

    def inside(self, path, follow=True):
        '''Names below the mount point (an error otherwise).'''
        p = self.resolve(path, follow)
        if isinstance(p, str):
            raise OSError(errno.EXDEV, 'leads outside of the file system: %s' % p)
        return p

    # -- replacements
    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        p = self.mine(path)
        if p is None:
            return self.real['stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        return self.attr(p, follow_symlinks)

    def lstat(self, path, *, dir_fd=None):
        p = self.mine(path)
        if p is None:
            return self.real['lstat'](path, dir_fd=dir_fd)
        return self.attr(p, False)

    def access(self, path, mode, **kw):
        p = self.mine(path)
        if p is None:
            return self.real['access'](path, mode, **kw)
        try:
            self.attr(p, True)
        except OSError:
            return False
        return True

    def readlink(self, path, *, dir_fd=None):
        p = self.mine(path)
        if p is None:
            return self.real['readlink'](path, dir_fd=dir_fd)
        return os.fsdecode(self.ask(self.k.readlink, self.inside(p, False)))

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        p = self.mine(path)
        if p is None:
            return self.real['mkdir'](path, mode, dir_fd=dir_fd)
        self.calls.append(('mkdir', path))
        head, _, tail = p.rstrip('/').rpartition('/')
        return self.ask(self.kmkdir, self.inside(head) + (os.fsencode(tail),), mode & ~0o022)

    async def kmkdir(self, path, mode):
        if path[-1:] in ((b'.',), (b'..',)):
            raise KErr(errno.EEXIST)
        await self.k.mkdir(path, mode)

    def unlinkat(self, which):
        def fn(path, *a, **kw):
            p = self.mine(path)
            if p is None:
                return self.real[which](path, *a, **kw)
            self.calls.append((which, path))
            head, _, tail = p.rstrip('/').rpartition('/')
            return self.ask(getattr(self.k, 'unlink' if which == 'remove' else which),
                            self.inside(head) + (os.fsencode(tail),))
        return fn

    def _list(self, p):
        return [os.fsdecode(x[0]) for x in self.ask(self.k.readdir, self.inside(p))]

    def listdir(self, path='.'):
        p = self.mine(path)
        if p is None:
            return self.real['listdir'](path)
        if not stat.S_ISDIR(self.attr(p, True).st_mode):
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
        return self._list(p)

    def scandir(self, path='.'):
        p = self.mine(path)
        if p is None:
            return self.real['scandir'](path)
        if not stat.S_ISDIR(self.attr(p, True).st_mode):
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
        return Scan([Entry(n, os.path.join(path, n), self.attr(p + '/' + n, False))
                     for n in self._list(p)])

    def getcwd(self):
        if getattr(_local, 'tool', None) is not self:
            return self.real['getcwd']()
        return self.cwd

    def geteuid(self):
        if getattr(_local, 'tool', None) is not self:
            return self.real['geteuid']()
        return self.euid

    def setxattr(self, path, name, value, *a):
        p = self.mine(path)
        if p is None:
            raise OSError(errno.ENOTSUP, os.strerror(errno.ENOTSUP))
        self.calls.append(('setxattr', path, name, value))
        self.ask(self.ksetxattr, self.inside(p), os.fsencode(name), value)

    async def ksetxattr(self, path, name, value):
        k = self.k
        gone = None
        if name == b'rmtree' and path[-1:] == (CTRL_NAME,):
            try:
                gone = ast.literal_eval(value.decode())
                ino = k.dentries.get(tuple(gone))
            except (ValueError, SyntaxError, TypeError):
                gone = None
        await k.setxattr(path, name, value)
        k._invalidations()
        if gone and ino is not None:
            await k._drop_below(ino)
            k.dentries.pop(tuple(gone), None)
            await k._gone(ino)

    def getxattr(self, path, name, size_guess=128, *a):
        p = self.mine(path)
        if p is None:
            raise OSError(errno.ENOTSUP, os.strerror(errno.ENOTSUP))
        return self.ask(self.k.getxattr, self.inside(p), os.fsencode(name))

    def syncfs(self, path):
        p = self.mine(path)
        if p is None:
            self.real['stat'](path)
            return
        self.attr(p, True)
        self.calls.append(('syncfs', path))

    NAMES = ('stat', 'lstat', 'access', 'readlink', 'mkdir', 'listdir', 'scandir', 'getcwd',
             'geteuid')

    @contextlib.contextmanager
    def patched(self):
        import pyfuse3
        old = {n: getattr(os, n) for n in self.NAMES}
        for n in ('unlink', 'remove', 'rmdir'):
            old[n] = getattr(os, n)
        oldp = {n: getattr(pyfuse3, n) for n in ('setxattr', 'getxattr', 'listdir', 'syncfs')}
        self.real = old
        for n in self.NAMES:
            setattr(os, n, getattr(self, n))
        for n in ('unlink', 'remove', 'rmdir'):
            setattr(os, n, self.unlinkat(n))
        for n in oldp:
            setattr(pyfuse3, n, getattr(self, n))
        try:
            yield self
        finally:
            for n, f in old.items():
                setattr(os, n, f)
            for n, f in oldp.items():
                setattr(pyfuse3, n, f)

    @contextlib.asynccontextmanager
    async def installed(self):
        self.token = trio.lowlevel.current_trio_token()
        self.send, recv = trio.open_memory_channel(1000)
        with self.patched():
            async with trio.open_nursery() as nursery:
                nursery.start_soon(self.serve, recv)
                yield self
                nursery.cancel_scope.cancel()

    async def serve(self, recv):
        async for fn, args, q in recv:
            try:
                q.put((True, await fn(*args)))
            except KErr as exc:
                q.put((False, exc))
            except trio.Cancelled:
                q.put((False, HarnessError('session ended while a tool was running')))
                raise
            except Exception as exc:
                q.put((False, exc))
                raise

    # -- running a tool
    async def run(self, mod, *argv, cwd=None):
        '''(exit code, exception, stdout) of the tool *mod*; 0 None if it succeeded.'''
        return await trio.to_thread.run_sync(lambda: self.run_here(mod, *argv, cwd=cwd))

    def run_here(self, mod, *argv, cwd=None):
        del self.calls[:]
        self.cwd = cwd or '/'
        mod.setup_logging = lambda *a, **kw: None
        so, se = sys.stdout, sys.stderr
        out = sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        exc = None
        code = 0
        _local.tool = self
        try:
            mod.main(list(argv))
        except SystemExit as ex:
            exc = ex
            code = ex.code if isinstance(ex.code, int) else (1 if ex.code else 0)
        except HarnessError:
            raise
        except Exception as ex:
            exc = ex
            code = 1
        finally:
            _local.tool = None
            sys.stdout, sys.stderr = so, se
        return code, exc, out.getvalue()


class RemoteOS(FakeOS):
    '''The session lives in another process, which answers to serve_remote().'''

    class Names:
        def __getattr__(self, name):
            return name

    def __init__(self, conn, mnt):
        super().__init__(self.Names(), mnt)
        self.conn = conn

    def ask(self, fn, *args):
        self.conn.send((fn, args))
        if not self.conn.poll(100):
            raise HarnessError('no answer from the session')
        try:
            ok, val = self.conn.recv()
        except EOFError:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN)) from None
        if not ok:
            raise OSError(val, os.strerror(val))
        return val

    kmkdir = ksetxattr = None

    def setxattr(self, path, name, value, *a):
        p = self.mine(path)
        if p is None:
            raise OSError(errno.ENOTSUP, os.strerror(errno.ENOTSUP))
        self.calls.append(('setxattr', path, name, value))
        self.ask('setxattr', self.inside(p), os.fsencode(name), value)


class Attr:
    '''Attributes that can be sent.'''

    def __init__(self, a):
        for n in ('st_mode', 'st_ino', 'st_nlink', 'st_uid', 'st_gid', 'st_size', 'st_atime_ns',
                  'st_mtime_ns', 'st_ctime_ns'):
            setattr(self, n, getattr(a, n))


async def serve_remote(k, conn):
    '''Answer requests of a RemoteOS until it says "umount".'''
    while True:
        fn, args = await trio.to_thread.run_sync(conn.recv, abandon_on_cancel=True)
        if fn == 'umount':
            conn.send((True, None))
            return
        try:
            r = await getattr(k, fn)(*args)
            if fn == 'getattr':
                r = Attr(r)
            elif fn == 'readdir':
                r = [(x[0], None) for x in r]
            conn.send((True, r))
        except KErr as exc:
            conn.send((False, exc.errno))
