'''P23: listing a directory is complete and stable while it changes.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import errno
import os

import trio

from lib import core, hist, kern, world
from lib.core import Tally, Violation, rng_for
from lib.kern import KErr

LEVEL = 'exploration'
RULE = ('Several open directory streams over directories of up to some hundred entries are read '
        'in calls of random size while entries are created, removed, renamed in, out, within and '
        'over each other, linked, copied and recursively removed by the same or other tasks; '
        'streams are continued from old positions and rewound. Each complete pass is judged '
        'against the recorded history of every name; returned attributes and lookup counts are '
        'checked. distinct: (call, size of the directory, state of the streams).')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40),
                   cfg=hist.rand_config(rng, keep=False, delay=rng.choice([None, None, 'slow'])),
                   tasks=rng.choice([0, 0, 1, 2]), n=rng.choice([0, 3, 20, 120, 400]))


class Hist:
    '''History of the names of one directory.'''

    def __init__(self):
        self.clock = 0
        self.now = {}        # name -> inode as of the last completed call
        self.ops = {}        # name -> list of [start, end]  (end None: under way)
        self.inos = {}       # name -> set of inodes it has ever had

    def set(self, name, ino):
        if ino is None:
            self.now.pop(name, None)
        else:
            self.now[name] = ino
            self.inos.setdefault(name, set()).add(ino)

    def changed(self, name, since):
        return any(e is None or e >= since for s, e in self.ops.get(name, ()))


class During:
    '''Marks the names as being changed.'''

    def __init__(self, *what):
        self.what = what

    def __enter__(self):
        self.recs = []
        for h, name in self.what:
            h.clock += 1
            rec = [h.clock, None]
            h.ops.setdefault(name, []).append(rec)
            self.recs.append((h, rec))

    def __exit__(self, *exc):
        for h, rec in self.recs:
            h.clock += 1
            rec[1] = h.clock


class Stream:
    def __init__(self, path, ino, h, fh):
        self.path, self.ino, self.h, self.fh = path, ino, h, fh
        self.reset()

    def reset(self):
        self.off = 0
        self.h.clock += 1
        self.start = self.h.clock
        self.first = dict(self.h.now)
        self.seen = []           # names in the order of this pass
        self.marks = [(0, 0)]    # (offset, number of names seen before)


class Bench:
    def __init__(self, k, c, t):
        self.k, self.c, self.t = k, c, t
        self.dirs = {}           # path -> Hist
        self.streams = []
        self.n = 0
        self.busy = set()        # names being changed by a task

    async def read(self, s, rng):
        '''One readdir call. Returns False at the end.'''
        k = self.k
        tok = kern.ReaddirToken(rng.choice([1, 1, 2, 5, 30, 1000]))
        async with k.lock(s.ino):
            await k.req('readdir', s.fh, s.off, tok)
            for name, attr, nxt in tok.entries:
                if nxt in (0, 1, 2) or nxt == s.off or not 0 < nxt < 2**63:
                    raise Violation('bad-offset', 'position %d after %d' % (nxt, s.off))
                if attr.st_ino not in s.h.inos.get(name, ()) and not (s.path, name) in self.busy:
                    raise Violation('foreign-entry', 'listing of %r gives %r -> inode %d, which it '
                                    'never was (%r)' % (s.path, name, attr.st_ino,
                                                        s.h.inos.get(name)))
                if not s.h.changed(name, s.start) and s.first.get(name) != attr.st_ino:
                    raise Violation('wrong-entry', 'listing of %r gives %r -> inode %d, it is %r' % (
                        s.path, name, attr.st_ino, s.first.get(name)))
                s.off = nxt
                k._entry(s.ino, name, attr)
                s.seen.append(name)
                s.marks.append((nxt, len(s.seen)))
                self.t.add('entries_listed')
        # the lookup counts: every returned inode must be usable
        for name, attr, nxt in tok.entries[:3]:
            if attr.st_ino in k.nlookup and attr.st_ino in k.modes:
                a = await k.req('getattr', attr.st_ino, k.ctx)
                if a.st_ino != attr.st_ino or a.st_mode >> 12 != attr.st_mode >> 12 or (
                        not self.c['tasks'] and (a.st_nlink, a.st_size, a.st_mtime_ns) != (
                            attr.st_nlink, attr.st_size, attr.st_mtime_ns)):
                    raise Violation('wrong-attributes', 'listing and getattr disagree on %r' % name)
        self.t.add('readdir_calls')
        return bool(tok.entries)

    def judge(self, s):
        seen = {}
        for n in s.seen:
            seen[n] = seen.get(n, 0) + 1
        for name in s.first:
            if not s.h.changed(name, s.start) and seen.get(name, 0) != 1:
                raise Violation('entry-missing' if not seen.get(name) else 'entry-twice',
                                '%r was in directory %r all the time, but a listing of %d entries '
                                'returned it %d times' % (name, s.path, len(s.seen),
                                                          seen.get(name, 0)))
            self.t.add('names_judged')
        for name, n in seen.items():
            if name not in s.first and not s.h.changed(name, s.start):
                raise Violation('ghost-entry', '%r was not in directory %r, but was listed' % (
                    name, s.path))
            adds = sum(1 for a, e in s.h.ops.get(name, ()) if e is None or e >= s.start)
            if n > 1 + adds:
                raise Violation('entry-twice', '%r listed %d times, touched %d times' % (
                    name, n, adds))
        self.t.add('passes_judged')
        self.t.add('passes_with_changes', any(
            s.h.changed(x, s.start) for x in set(seen) | set(s.first)))

    async def stream_step(self, rng):
        if not self.streams or len(self.streams) < 4 and rng.random() < 0.1:
            p = rng.choice(sorted(self.dirs))
            ino = await self.k.walk(p)
            self.k.opens[ino] = self.k.opens.get(ino, 0) + 1
            fh = await self.k.req('opendir', ino, self.k.ctx)
            self.streams.append(Stream(p, ino, self.dirs[p], fh))
            return
        s = rng.choice(self.streams)
        r = rng.random()
        if r < 0.05:
            # continue from an older position
            off, cnt = rng.choice(s.marks)
            s.off = off
            s.marks = [m for m in s.marks if m[1] <= cnt]
            del s.seen[cnt:]
            self.t.add('seeks')
        elif r < 0.07:
            s.reset()
            self.t.add('rewinds')
        elif r < 0.1:
            self.streams.remove(s)
            await self.close(s)
        elif not await self.read(s, rng):
            self.judge(s)
            if rng.random() < 0.5:
                s.reset()
            else:
                self.streams.remove(s)
                await self.close(s)

    async def close(self, s):
        await self.k.req('releasedir', s.fh)
        self.k.opens[s.ino] -= 1
        if not self.k.opens[s.ino]:
            del self.k.opens[s.ino]

    def pick(self, rng, p, kind=None):
        h = self.dirs[p]
        names = [n for n in sorted(h.now) if (p, n) not in self.busy]
        return rng.choice(names) if names else None

    async def change(self, rng):
        k = self.k
        p = rng.choice(sorted(self.dirs))
        h = self.dirs[p]
        op = rng.choice(['create', 'create', 'unlink', 'unlink', 'unlink', 'mv', 'mv', 'over',
                         'link', 'mkdir', 'rmdir', 'symlink', 'again', 'move', 'write', 'cp',
                         'rmtree', 'flush'])
        self.n += 1
        new = b'%d-' % rng.randrange(1000) + b'n' * rng.choice([1, 5, 200]) + b'%d' % self.n
        if rng.random() < 0.3:
            # names that exist(ed) elsewhere share their id
            q = rng.choice(sorted(self.dirs))
            other = [n for n in sorted(self.dirs[q].inos) if n not in h.now and
                     (p, n) not in self.busy]
            if other:
                new = rng.choice(other)
        if new in h.now or (p, new) in self.busy:
            return
        old = self.pick(rng, p)
        self.t.sig(op, min(len(h.now), 10), len(self.streams), self.c['tasks'])
        P = p + (new,)
        claim = [(p, new)] + ([(p, old)] if old else [])
        if op in ('create', 'mkdir', 'symlink', 'cp'):
            claim = [(p, new)]
        elif old is None:
            return
        q = p
        if op == 'move':
            q = rng.choice(sorted(self.dirs))
            if new in self.dirs[q].now or (q, new) in self.busy or q[:len(p) + 1] == p + (old,):
                return
            claim = [(p, old), (q, new)]
        elif op == 'over':
            new = self.pick(rng, p)
            claim = [(p, old), (p, new)]
            P = p + (new,)
        Q = p + (old,) if old else None
        if set(claim) & self.busy:
            return
        if op in ('rmdir', 'rmtree', 'move', 'mv', 'over', 'unlink') and (
                Q in self.dirs or P in self.dirs):
            return
        self.busy |= set(claim)
        try:
            with During(*((self.dirs[d], n) for d, n in claim)):
                try:
                    await self.do(op, p, q, P, Q, old, new, rng)
                except KErr as exc:
                    if exc.errno not in (errno.EISDIR, errno.ENOTDIR, errno.ENOTEMPTY, errno.EINVAL,
                                         errno.EPERM, errno.EMLINK, errno.ELOOP, errno.ENXIO):
                        raise Violation('unexpected-error', '%s: %s' % (op, exc)) from exc
        finally:
            self.busy -= set(claim)

    async def do(self, op, p, q, P, Q, old, new, rng):
        k, h = self.k, self.dirs[p]
        if op == 'create':
            f, a = await k.create(P)
            h.set(new, a.st_ino)
            if rng.random() < 0.3:
                await k.write(f, 0, rng.randbytes(10))
            await k.release(f)
        elif op == 'mkdir':
            h.inos.setdefault(new, set())
            a = await k.mkdir(P)
            h.set(new, a.st_ino)
        elif op == 'symlink':
            a = await k.symlink(P, b'target')
            h.set(new, a.st_ino)
        elif op == 'link':
            a = await k.link(Q, P)
            h.set(new, a.st_ino)
        elif op in ('unlink', 'again'):
            await k.unlink(Q)
            h.set(old, None)
            if op == 'again':
                f, a = await k.create(Q)
                h.set(old, a.st_ino)
                await k.release(f)
        elif op == 'rmdir':
            await k.rmdir(Q)
            h.set(old, None)
        elif op == 'rmtree':
            if rng.random() < 0.3:
                a = await k.getattr(Q)
                if (a.st_mode >> 12) == 4:
                    await k.rmtree(Q)
                    h.set(old, None)
        elif op == 'mv':
            ino = h.now[old]
            h.inos.setdefault(new, set()).add(ino)
            await k.rename(Q, P)
            h.set(old, None)
            h.set(new, ino)
        elif op == 'over':
            if old != new:
                ino = h.now[old]
                h.inos.setdefault(new, set()).add(ino)
                same = h.now[new] == ino
                await k.rename(Q, P)
                if not same:
                    h.set(old, None)
                    h.set(new, ino)
        elif op == 'move':
            ino = h.now[old]
            self.dirs[q].inos.setdefault(new, set()).add(ino)
            await k.rename(Q, q + (new,))
            h.set(old, None)
            self.dirs[q].set(new, ino)
        elif op == 'cp':
            if len(self.dirs) > 1 and rng.random() < 0.2:
                # the new directory becomes visible, then is filled
                src = sorted(self.dirs)[-1]
                if src != () and p[:len(src)] != src:
                    a = await k.mkdir(P)
                    h.set(new, a.st_ino)
                    s = await k.walk(src)
                    await k.ctrl(b'copy', b'(%d, %d)' % (s, a.st_ino))
                    k._invalidations()
        elif op == 'write':
            try:
                f = await k.open(Q, os.O_RDWR)
            except KErr as exc:
                if exc.errno == errno.ENOENT:
                    raise Violation('entry-lost', '%r' % (Q,)) from exc
                raise
            await k.write(f, 0, rng.randbytes(5))
            await k.release(f)
        elif op == 'flush':
            await k.flushcache()
            if rng.random() < 0.3:
                await k.dropcache()


def case(c, scratch):
    t = Tally()
    t.sample(c, 1)
    w = hist.new_world(scratch, c['cfg'])

    async def body(k, ses):
        rng = rng_for('p23', c['seed'])
        tt = Tally()
        b = Bench(k, c, tt)
        for p in [(), (b'd',), (b'd', b'e')][:rng.choice([1, 2, 3])]:
            if p:
                a = await k.mkdir(p)
                b.dirs[p[:-1]].set(p[-1], a.st_ino)
            b.dirs[p] = Hist()
            if not p:
                b.dirs[p].set(b'lost+found', await k.walk((b'lost+found',)))
        big = rng.choice(sorted(b.dirs))
        for i in range(c['n']):
            n = b'%d' % rng.randrange(100000) + b'.%d' % i
            f, a = await k.create(big + (n,))
            await k.release(f)
            b.dirs[big].set(n, a.st_ino)
        if rng.random() < 0.5:
            await k.forget_all()
            await k.dropcache()
        # recorded from now on
        if c['tasks']:
            k.concurrent = True
            stop = [False]

            async def changer(i):
                r = rng_for('p23c', c['seed'], i)
                while not stop[0]:
                    await b.change(r)
                    await trio.sleep(0)
            async with trio.open_nursery() as nu:
                for i in range(c['tasks']):
                    nu.start_soon(changer, i)
                for i in range(300):
                    await b.stream_step(rng)
                    if rng.random() < 0.5:
                        await trio.sleep(0)
                stop[0] = True
            k.concurrent = False
        else:
            ratio = rng.choice([0.1, 0.5, 0.8])
            for i in range(600):
                if rng.random() < ratio:
                    await b.change(rng)
                else:
                    await b.stream_step(rng)
                if rng.random() < 0.02:
                    await k.forget_random()
        # the streams that are still open, without further changes
        for s in list(b.streams):
            while await b.read(s, rng):
                pass
            b.judge(s)
            await b.close(s)
        b.streams.clear()
        # twice the same
        for p, h in b.dirs.items():
            ino = await k.walk(p)
            l1 = [(n, a.st_ino) for n, a in await k.readdir_raw(ino, 7)]
            l2 = [(n, a.st_ino) for n, a in await k.readdir_raw(ino, 1000)]
            if l1 != l2:
                raise Violation('unstable', 'two listings of %r differ' % (p,))
            if dict(l1) != h.now or len(l1) != len(h.now):
                raise Violation('wrong-listing', 'final listing of %r: %r instead of %r' % (
                    p, sorted(set(l1) ^ set(h.now.items()))[:6], len(h.now)))
            tt.add('final_listings')
        # all lookups are given back: removed inodes must really go
        names = []
        for n in sorted(b.dirs[()].now)[:40]:
            try:
                await k.unlink((n,))
                names.append(n)
            except KErr:
                pass
        for h in list(k.handles):
            await k.release(h)
        await k.forget_all()
        left = {i: n for i, n in dict(getattr(ses.ops, 'open_inodes', {})).items() if n and i > 2}
        if left:
            raise Violation('lookup-count', 'the kernel has forgotten all inodes, but these are '
                            'still counted as in use: %r' % left)
        tt.add('lookup_counts_checked')
        return tt

    r = hist.session(w, c['cfg'], body, seed=c['seed'])
    t.merge(world.check_result(r))
    from lib import dbcheck
    dbcheck.check_db(w, 'after the session')
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P23', LEVEL, RULE, case, gen, quick_budget=25, thorough_budget=500,
              require=['readdir_calls', 'passes_judged', 'passes_with_changes', 'seeks', 'rewinds',
                       'final_listings', 'lookup_counts_checked', 'names_judged'], min_cases=15)
