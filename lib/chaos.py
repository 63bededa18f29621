'''Concurrent workload without a per-call oracle: several tasks work on a small shared tree. Errors
that a system call may legally return are ignored; everything else is left to monitors.'''
from __future__ import annotations

import errno
import os
import stat

import trio

from .core import Violation, rng_for
from .kern import KErr

NAMES = [b'a', b'b', b'c', b'd']
OK_ERRORS = {errno.ENOENT, errno.EEXIST, errno.ENOTDIR, errno.EISDIR, errno.ENOTEMPTY,
             errno.EINVAL, errno.ELOOP, errno.ENXIO, errno.EPERM, errno.ENODATA, errno.ENOATTR
             if hasattr(errno, 'ENOATTR') else errno.ENODATA}

WEIGHTS = dict(write=20, create=8, read=8, trunc=6, unlink=6, rename=5, mkdir=3, rmdir=2, link=4,
               symlink=1, xattr=3, readdir=2, getattr=2, forget=2, flush=3, drop=2, fsync=1, cp=2,
               rmtree=2, lock=0, upmeta=0)


class Chaos:
    def __init__(self, k, seed, tally, *, bs=1024, weights=None, maxblocks=4, ok_errors=()):
        self.k, self.t, self.bs = k, tally, bs
        self.seed = seed
        k.concurrent = True
        self.w = dict(WEIGHTS)
        self.w.update(weights or {})
        r = rng_for('chaos', seed)
        self.pool = [bytes([65 + i]) * bs for i in range(2)] + [r.randbytes(bs) for _ in range(2)]
        self.maxblocks = maxblocks
        self.ok = OK_ERRORS | set(ok_errors)
        self.running = 0
        self.max_par = 0
        self.dirs = [(), (), (b'D0',), (b'D1',), (b'D0', b'a'), (b'D0', b'b')]

    async def setup(self):
        for d in ((b'D0',), (b'D1',)):
            await self.k.mkdir(d)

    def path(self, rng):
        return rng.choice(self.dirs) + (rng.choice(NAMES),)

    async def run(self, ntasks, nsteps):
        async with trio.open_nursery() as n:
            for i in range(ntasks):
                n.start_soon(self.task, i, nsteps)

    async def task(self, i, nsteps):
        rng = rng_for('chaos', self.seed, i)
        hs = []
        ops = list(self.w)
        wt = [self.w[o] for o in ops]
        for _ in range(nsteps):
            op = rng.choices(ops, wt)[0]
            self.running += 1
            self.max_par = max(self.max_par, self.running)
            try:
                await getattr(self, 'op_' + op)(rng, hs)
                self.t.add('ok_' + op)
            except KErr as exc:
                self.t.add('err_' + op)
                if exc.errno not in self.ok:
                    raise Violation('unexpected-errno:%s:%s' % (
                        op, errno.errorcode.get(exc.errno)),
                        'concurrent %s failed with %s' % (op, exc)) from None
            finally:
                self.running -= 1
            if rng.random() < 0.3:
                await trio.sleep(rng.choice([0, 0.001, 0.01]))
        for h in hs:
            await self.k.release(h)

    def data(self, rng, n):
        if rng.random() < 0.7:
            x = rng.choice(self.pool)
            return (x * (n // self.bs + 1))[:n]
        return rng.randbytes(n)

    def offlen(self, rng):
        bs = self.bs
        b = rng.randrange(self.maxblocks) * bs
        if rng.random() < 0.6:
            return b, bs * rng.choice([1, 1, 2])
        return b + rng.choice([0, 1, 100, bs - 1]), rng.choice([1, 50, bs, bs + 10])

    async def h(self, rng, hs):
        if len(hs) > 3:
            await self.k.release(hs.pop(rng.randrange(len(hs))))
        if not hs or rng.random() < 0.3:
            h, a = await self.k.create(self.path(rng))
            hs.append(h)
        return rng.choice(hs)

    async def op_create(self, rng, hs):
        h, a = await self.k.create(self.path(rng))
        hs.append(h)
        if len(hs) > 3:
            await self.k.release(hs.pop(0))

    async def op_write(self, rng, hs):
        h = await self.h(rng, hs)
        off, ln = self.offlen(rng)
        await self.k.write(h, off, self.data(rng, ln))

    async def op_read(self, rng, hs):
        h = await self.h(rng, hs)
        off, ln = self.offlen(rng)
        await self.k.read(h, off, ln)

    async def op_trunc(self, rng, hs):
        h = await self.h(rng, hs)
        await self.k.ftruncate(h, rng.choice([0, 1, self.bs, self.bs + 1, 2 * self.bs,
                                              self.maxblocks * self.bs]))

    async def op_unlink(self, rng, hs):
        await self.k.unlink(self.path(rng))

    async def op_rename(self, rng, hs):
        await self.k.rename(self.path(rng), self.path(rng))

    async def op_mkdir(self, rng, hs):
        await self.k.mkdir(self.path(rng))

    async def op_rmdir(self, rng, hs):
        await self.k.rmdir(self.path(rng))

    async def op_link(self, rng, hs):
        await self.k.link(self.path(rng), self.path(rng))

    async def op_symlink(self, rng, hs):
        await self.k.symlink(self.path(rng), b'target')

    async def op_xattr(self, rng, hs):
        p = self.path(rng)
        if rng.random() < 0.6:
            await self.k.setxattr(p, rng.choice([b'user.a', b'user.b']), b'v')
        else:
            await self.k.removexattr(p, rng.choice([b'user.a', b'user.b']))

    async def op_readdir(self, rng, hs):
        await self.k.readdir(rng.choice(self.dirs), rng.choice([1, 2, 50]))

    async def op_getattr(self, rng, hs):
        await self.k.getattr(self.path(rng))

    async def op_forget(self, rng, hs):
        await self.k.forget_random(0.4)

    async def op_flush(self, rng, hs):
        await self.k.flushcache()

    async def op_drop(self, rng, hs):
        await self.k.dropcache()

    async def op_fsync(self, rng, hs):
        await self.k.fsync(await self.h(rng, hs))

    async def op_cp(self, rng, hs):
        src = rng.choice([d for d in self.dirs if d])
        dst = self.path(rng)
        if dst[:len(src)] == src or src[:len(dst)] == dst:
            return
        await self.k.cp(src, dst)

    async def op_rmtree(self, rng, hs):
        p = self.path(rng)
        a = await self.k.getattr(p)
        if stat.S_ISDIR(a.st_mode):
            await self.k.rmtree(p)

    async def op_lock(self, rng, hs):
        await self.k.lock_tree(rng.choice([d for d in self.dirs if d]))

    async def op_upmeta(self, rng, hs):
        await self.k.ctrl(b'upload-meta')
