'''P12: data loss on the backend is reported, contained and never spreads.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import errno
import os
from stat import S_IFREG

import trio

from lib import core, damage, dbcheck, hist, kern, world
from lib.core import Tally, Violation, rng_for
from lib.kern import KErr

LEVEL = 'fault_injection'
RULE = ('A case builds a tree (shared blocks, hard links, snapshots, holes), deletes or damages '
        'some data objects before or in the middle of a session in which several tasks read, '
        'write, truncate, copy and remove; every result is judged against the known contents and '
        'the set of lost blocks, every change after the first I/O error must be refused; then the '
        'next mount, s3ql_verify, remove_objects.py and fsck are run and the final tree is compared '
        'file by file. distinct: (when, how damaged, call, outcome).')

RO = (errno.EPERM, errno.EROFS, errno.EIO, errno.EACCES)


def gen(rng, tier):
    while True:
        cfg = hist.rand_config(rng, keep=False)
        yield dict(seed=rng.randrange(2**40), cfg=cfg, when=rng.choice(['before', 'middle']),
                   how=rng.choice(['delete', 'delete', 'corrupt', 'both']),
                   tasks=rng.choice([1, 1, 3]), other=rng.random() < 0.3)


class Tree:
    '''What is known about the regular files. Everything is per inode.'''

    def __init__(self, bs):
        self.bs = bs
        self.data = {}       # ino -> bytearray
        self.names = {}      # path -> ino
        self.bad = {}        # ino -> set of lost blocks
        self.maybe = {}      # ino -> set of blocks being modified when they were lost
        self.orig = {}       # (ino, block) -> contents when the session started
        self.alt = {}        # (ino, block) -> list of other possible contents
        self.loose = set()   # inodes whose size is uncertain
        self.touched = set()  # (ino, block) modified in this session
        self.lost_names = set()

    def blocks(self, off, n):
        return range(off // self.bs, (off + max(n, 1) - 1) // self.bs + 1)

    def eio_ok(self, ino):
        return self.bad.get(ino, set()) | self.maybe.get(ino, set())

    def block(self, ino, b):
        x = bytes(self.data[ino][b * self.bs:(b + 1) * self.bs])
        return x + bytes(self.bs - len(x))


async def build(k, c, rng, bs):
    n = 0
    files = []
    dirs = [()]
    shared = rng.randbytes(bs)
    for i in range(rng.randrange(6, 12)):
        if rng.random() < 0.2:
            d = rng.choice(dirs) + (b'd%d' % i,)
            await k.mkdir(d)
            dirs.append(d)
        p = rng.choice(dirs) + (b'f%d' % i,)
        h, _ = await k.create(p)
        for b in range(rng.choice([1, 2, 3, 6])):
            r = rng.random()
            if r < 0.15:
                continue
            blk = shared if r < 0.3 else rng.randbytes(rng.choice([bs, bs, bs - 100]))
            await k.write(h, b * bs, blk)
            n += 1
        await k.release(h)
        files.append(p)
    for i in range(2):
        if rng.random() < 0.5:
            await k.link(rng.choice(files), rng.choice(dirs) + (b'l%d' % i,))
    await k.symlink((b'sym',), b'target')
    if rng.random() < 0.4:
        # a snapshot shares all the blocks
        await k.mkdir((b'src',))
        for p in rng.sample(files, min(3, len(files))):
            await k.rename(p, (b'src', p[-1]))
        try:
            await k.mkdir((b'snap',))
            await k.cp((b'src',), (b'snap',))
        except KErr:
            pass
    inos = {}
    snap = await kern.snapshot(k, (), ino_out=inos)
    return snap, inos


def damage_now(c, rng, w, objs, tree, t):
    '''Choose objects and damage them; fills tree.bad. *objs*: {key: data}.'''
    idx = damage.index(w.backend_dir)
    users = {}
    if c['tasks'] > 1:
        maybe = {}
        for (ino, b), x in tree.orig.items():
            if (ino, b) in tree.touched:
                maybe.setdefault(x, []).append((ino, b))
    else:
        maybe = {}
    for ino, data in tree.data.items():
        for b in range((len(data) + tree.bs - 1) // tree.bs):
            if (ino, b) not in tree.touched:
                users.setdefault(tree.block(ino, b), []).append((ino, b))
    cand = []
    for key in sorted(objs):
        blk = objs[key] + bytes(tree.bs - len(objs[key]))
        if key in idx and blk.strip(b'\0') and users.get(blk):
            cand.append((key, users[blk], maybe.get(blk, ())))
    if not cand:
        return {}
    res = {}
    can_corrupt = not c['cfg']['plain'] or c['cfg']['compress'] != 'none'
    for key, us, mb in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2, 4]))):
        how = c['how']
        if how == 'both':
            how = rng.choice(['delete', 'corrupt'])
        if how == 'corrupt':
            raw = damage.get(idx[key])
            meta, pl = damage.split(raw)
            if can_corrupt:
                # the end of a compressed stream may be irrelevant
                new = damage.join(meta, damage.damage(pl, rng, 'truncate') if c['cfg']['plain']
                                  else damage.damage(pl, rng))
            else:
                new = b's3ql_x\n' + raw[7:]
            damage.put(idx[key], new)
        else:
            os.unlink(idx[key])
        res[key] = how
        t.add('objects_' + how)
        for ino, b in us:
            tree.bad.setdefault(ino, set()).add(b)
        for ino, b in mb:
            tree.maybe.setdefault(ino, set()).add(b)
    return res


class Run:
    def __init__(self, k, c, tree, t, trig):
        self.k, self.c, self.tree, self.t = k, c, tree, t
        self.trig = trig          # called at a random step to do the damage
        self.failed = False       # an I/O error was returned
        self.steps = 0
        self.newino = set()
        self.n = 0

    def eio(self, what):
        self.failed = True
        self.t.add('io_errors')
        self.t.sig(self.c['when'], self.c['how'], what, 'eio')

    async def change(self, what, coro, *, may_eio=False):
        '''Run a modifying call. True if it was done.'''
        before = self.failed
        try:
            r = await coro
        except KErr as exc:
            if self.failed and exc.errno in RO:
                self.t.add('changes_refused')
                self.t.sig(self.c['when'], self.c['how'], what, 'refused')
                if exc.errno == errno.EIO and may_eio:
                    return 'eio'
                return False
            if may_eio and exc.errno == errno.EIO:
                self.eio(what)
                return 'eio'
            raise Violation('unexpected-error:%s' % what, '%s failed with %s (failed before: %s)' % (
                what, exc, before)) from exc
        if before:
            raise Violation('change-accepted', 'after an I/O error because of a lost block, %s was '
                            'still accepted' % what)
        self.t.add('changes_done')
        self.result = r
        return True

    def allowed(self, ino, off, got, where):
        '''Are the bytes *got* possible at *off*?'''
        T = self.tree
        pos = 0
        while pos < len(got):
            b = (off + pos) // T.bs
            n = min(len(got) - pos, (b + 1) * T.bs - off - pos)
            r = off + pos - b * T.bs
            opts = [T.block(ino, b)] + T.alt.get((ino, b), [])
            if not any(o[r:r + n] == got[pos:pos + n] for o in opts):
                raise Violation('wrong-data', '%s: bytes %d..%d of inode %d are not what the file '
                                'holds (block lost: %s)' % (where, off + pos, off + pos + n, ino,
                                                           b in T.bad.get(ino, ())))
            pos += n

    async def read(self, rng, p, ino):
        T = self.tree
        size = len(T.data[ino])
        off = rng.choice([0, rng.randrange(size + 10), rng.randrange(size // T.bs + 1) * T.bs])
        n = rng.choice([1, 100, T.bs, T.bs, 3 * T.bs, size + 10])
        h = await self.k.open(p, os.O_RDONLY)
        bad = T.bad.get(ino, set()) & set(T.blocks(off, n))
        try:
            got = await self.k.read(h, off, n)
        except KErr as exc:
            if exc.errno == errno.EIO and (bad or T.eio_ok(ino) & set(T.blocks(off, n))):
                self.eio('read')
                return
            raise Violation('good-block-unreadable', 'reading bytes %d..%d of inode %d, whose lost '
                            'blocks are %s, failed with %s' % (
                                off, off + n, ino, sorted(T.bad.get(ino, ())), exc)) from exc
        finally:
            await self.k.release(h)
        if ino not in T.loose and len(got) != max(0, min(n, size - off)):
            raise Violation('wrong-length', 'read returned %d bytes' % len(got))
        self.allowed(ino, off, got, 'read')
        self.t.add('reads_judged')
        if bad:
            self.t.add('lost_blocks_served_from_cache')

    async def write(self, rng, p, ino):
        T = self.tree
        size = len(T.data[ino])
        off = rng.choice([0, rng.randrange(size + 10), rng.randrange(size // T.bs + 1) * T.bs])
        data = rng.randbytes(rng.choice([1, 10, T.bs, T.bs, 2 * T.bs + 5]))
        blocks = set(T.blocks(off, len(data)))
        try:
            h = await self.k.open(p, os.O_RDWR)
        except KErr as exc:
            if self.failed and exc.errno in RO:
                self.t.add('changes_refused')
                return
            raise Violation('unexpected-error:open', 'open for writing: %s' % exc) from exc
        for b in blocks:
            T.touched.add((ino, b))
        bad = set(T.bad.get(ino, ())) & blocks
        try:
            r = await self.change('write', self.k.write(h, off, data), may_eio=True)
        finally:
            await self.k.release(h)
        new = bytearray(T.data[ino])
        if len(new) < off + len(data):
            new += bytes(off + len(data) - len(new))
        new[off:off + len(data)] = data
        if r is True:
            T.data[ino] = new
            for b in bad:
                # was in the cache, and is dirty now
                T.bad[ino].discard(b)
            return
        if r == 'eio':
            if not bad and not T.eio_ok(ino) & blocks:
                raise Violation('good-block-unwritable', 'writing %d bytes at %d to inode %d, whose '
                                'lost blocks are %s, failed with EIO' % (
                                    len(data), off, ino, sorted(T.bad.get(ino, ()))))
            for b in blocks:
                x = bytes(new[b * T.bs:(b + 1) * T.bs])
                T.alt.setdefault((ino, b), []).append(x + bytes(T.bs - len(x)))

    async def truncate(self, rng, p, ino):
        T = self.tree
        size = len(T.data[ino])
        n = rng.choice([0, rng.randrange(size + T.bs), rng.randrange(size // T.bs + 2) * T.bs,
                        max(0, size - 1)])
        bad = set(T.bad.get(ino, ()))
        for b in range(n // T.bs, max(size, n) // T.bs + 1) if n != size else ():
            T.touched.add((ino, b))
        r = await self.change('truncate', self.k.setattr(p, dict(size=n)), may_eio=True)
        if r is True:
            d = T.data[ino]
            T.data[ino] = d[:n] + bytes(max(0, n - len(d)))
            if ino in T.bad:
                T.bad[ino] = {b for b in T.bad[ino] if b < n // T.bs}
        elif r == 'eio':
            if n // T.bs not in bad | T.eio_ok(ino) or n % T.bs == 0:
                raise Violation('good-block-unwritable', 'truncating inode %d, whose lost blocks '
                                'are %s, to %d failed with EIO' % (ino, sorted(bad), n))
            T.loose.add(ino)
            for b in range(n // T.bs, max(size, n) // T.bs + 1):
                T.alt.setdefault((ino, b), []).append(bytes(T.bs))

    async def step(self, rng, mine):
        T, k = self.tree, self.k
        self.steps += 1
        names = [p for p in sorted(T.names) if T.names[p] in mine]
        op = rng.choice(['read'] * 8 + ['write'] * 4 + ['truncate'] * 3 +
                        ['create', 'unlink', 'rename', 'chmod', 'xattr', 'mkdir', 'symlink', 'link',
                         'cp', 'stat', 'readdir', 'flush', 'drop', 'fsync', 'lock', 'rmtree'])
        self.n += 1
        name = b'n%d' % self.n
        if op in ('read', 'write', 'truncate', 'chmod', 'xattr', 'fsync', 'stat', 'unlink', 'rename',
                  'link') and not names:
            op = 'create'
        p = rng.choice(names) if names else None
        ino = T.names[p] if names else None
        self.t.sig(self.c['when'], op, self.failed)
        if op in ('read', 'write', 'truncate'):
            await getattr(self, op)(rng, p, ino)
        elif op == 'create':
            data = rng.randbytes(rng.choice([0, 10, T.bs, 2 * T.bs + 1]))
            r = await self.change('create', k.create((name,)))
            if r is True:
                h, a = self.result
                T.names[(name,)] = a.st_ino
                T.data[a.st_ino] = bytearray()
                for b in range(4):
                    T.touched.add((a.st_ino, b))
                mine.add(a.st_ino)
                if data and await self.change('write', k.write(h, 0, data)) is True:
                    T.data[a.st_ino] = bytearray(data)
                    self.t.add('new_files')
                await k.release(h)
        elif op == 'unlink':
            if rng.random() < 0.6:
                return
            if await self.change(op, k.unlink(p)) is True:
                del T.names[p]
                if ino not in T.names.values():
                    T.bad.pop(ino, None)
                    self.t.add('damaged_files_removed')
        elif op == 'rename':
            if await self.change(op, k.rename(p, (name,))) is True:
                T.names[(name,)] = T.names.pop(p)
        elif op == 'link':
            if await self.change(op, k.link(p, (name,))) is True:
                T.names[(name,)] = ino
        elif op == 'chmod':
            await self.change(op, k.setattr(p, dict(mode=rng.choice([0o600, 0o644]))))
        elif op == 'xattr':
            await self.change(op, k.setxattr(p, b'user.x', rng.randbytes(5)))
        elif op == 'mkdir':
            await self.change(op, k.mkdir((name,)))
        elif op == 'symlink':
            await self.change(op, k.symlink((name,), b'x'))
        elif op == 'lock' and self.failed:
            await self.change(op, k.lock_tree(()))
        elif op == 'rmtree' and self.failed:
            await self.change(op, k.rmtree((b'lost+found',)))
        elif op == 'cp' and self.failed:
            a = await k.getattr((b'lost+found',))
            await self.change(op, k.ctrl(b'copy', b'(%d, %d)' % (a.st_ino, a.st_ino)))
        elif op == 'stat':
            a = await k.getattr(p)
            if ino not in T.loose and a.st_size != len(T.data[ino]):
                raise Violation('wrong-size', 'st_size %d instead of %d' % (
                    a.st_size, len(T.data[ino])))
            self.t.add('stats')
        elif op == 'readdir':
            got = {n for n, _ in await k.readdir(())}
            want = {q[0] for q in T.names}
            if self.c['tasks'] == 1 and want - got:
                raise Violation('missing-names', '%r' % sorted(want - got))
        elif op == 'flush':
            await k.flushcache()
        elif op == 'drop':
            await k.dropcache()
        elif op == 'fsync':
            h = await k.open(p, os.O_RDONLY)
            await k.fsync(h)
            await k.release(h)

    async def run(self, seed):
        inos = sorted(self.tree.data)
        nt = self.c['tasks']
        rng = rng_for('p12own', seed)
        rng.shuffle(inos)
        owned = [set(inos[i::nt]) for i in range(nt)]
        at = rng.randrange(5, 25)

        async def task(i):
            rng = rng_for('p12t', seed, i)
            for s in range(40):
                if i == 0 and s == at and self.trig:
                    self.trig()
                await self.step(rng, owned[i])
        if nt == 1:
            await task(0)
            return
        self.k.concurrent = True
        async with trio.open_nursery() as nu:
            for i in range(nt):
                nu.start_soon(task, i)
        self.k.concurrent = False

    async def sweep(self, where, readonly=False):
        '''Read all files completely, block by block.'''
        T, k = self.tree, self.k
        for p, ino in sorted(T.names.items()):
            h = await k.open(p, os.O_RDONLY)
            for b in range((len(T.data[ino]) + T.bs - 1) // T.bs):
                n = min(T.bs, len(T.data[ino]) - b * T.bs)
                try:
                    got = await k.read(h, b * T.bs, n)
                except KErr as exc:
                    if exc.errno == errno.EIO and b in T.eio_ok(ino):
                        self.eio('sweep')
                        continue
                    raise Violation('good-block-unreadable', '%s: block %d of %r (lost: %s): %s' % (
                        where, b, p, sorted(T.bad.get(ino, ())), exc)) from exc
                self.allowed(ino, b * T.bs, got, where)
                self.t.add('blocks_swept')
            await k.release(h)


def tree_of(snap, inos, bs):
    T = Tree(bs)
    for ino, paths in inos.items():
        if snap[paths[0]]['type'] == S_IFREG:
            T.data[ino] = bytearray(snap[paths[0]]['data'])
            for p in paths:
                T.names[p] = ino
            for b in range((len(T.data[ino]) + bs - 1) // bs):
                T.orig[(ino, b)] = T.block(ino, b)
    return T


def must(r, what, codes=(0,)):
    if r.status == 'exit' and (r.code or 0) in codes:
        return
    world.check_result(r) if r.status in ('violation', 'harness', 'timeout') else None
    raise Violation('%s-failed' % what.split()[0], '%s: %r' % (what, r), r.describe())


def remove_objects(w, path):
    '''Run contrib/remove_objects.py.'''
    import s3ql
    script = os.path.join(os.path.dirname(s3ql.__file__), '..', '..', 'contrib',
                          'remove_objects.py')

    def child():
        import importlib.util
        spec = importlib.util.spec_from_file_location('remove_objects', script)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return world.run_main(mod.main, ['--authfile', w.authfile, w.url, path])
    return world.fork_call(child, timeout=60, logpath=w._log('remove'))


def case(c, scratch):
    rng = rng_for('p12', c['seed'])
    t = Tally()
    cfg = c['cfg']
    bs = cfg['block_kib'] * 1024
    w = hist.new_world(scratch, cfg)
    r = hist.session(w, cfg, lambda k, ses: build(k, cfg, rng_for('p12b', c['seed']), bs),
                     seed=c['seed'])
    snap, inos = world.check_result(r)
    tree = tree_of(snap, inos, bs)
    raw = dbcheck.read_objects(w, only='s3ql_data_', raw=True)
    objs = {k: v[0] for k, v in raw.items() if v and v[0] != 'error'}
    hurt = {}
    if c['when'] == 'before':
        hurt.update(damage_now(c, rng, w, objs, tree, t))
    machine = 'm1' if c['other'] else 'm0'
    t.sample(dict(config=cfg, when=c['when'], how=c['how'], tasks=c['tasks']), 1)

    async def body(k, ses):
        tt = Tally()
        hurt2 = {}
        trig = None
        if c['when'] == 'middle':
            def trig():
                hurt2.update(damage_now(c, rng_for('p12d', c['seed']), w, objs, tree, tt))
        run = Run(k, c, tree, tt, trig)
        try:
            await run.run(c['seed'])
        except* Violation as eg:
            e = eg
            while isinstance(e, BaseExceptionGroup):
                e = e.exceptions[0]
            raise e from None
        if rng_for('p12w', c['seed']).random() < 0.6:
            await run.sweep('at the end of the session')
        for h in list(k.handles):
            await k.release(h)
        return tree, tt, hurt2, run.failed

    r = hist.session(w, cfg, body, seed=c['seed'] + 1, machine=machine)
    if r.status != 'exit' or r.code:
        world.check_result(r)
    tree, tt, hurt2, failed = r.value
    t.merge(tt)
    hurt.update(hurt2)
    if not hurt:
        t.add('nothing_to_damage')
        return t
    # what is left of the damage
    lost = {(i, b) for i, bs_ in tree.bad.items() for b in bs_ if i in tree.names.values()}
    t.add('sessions_detecting' if failed else 'sessions_not_detecting')

    async def noop(k, ses):
        return True
    for m in ('m0', 'm1') if failed else (machine,):
        r = hist.session(w, cfg, noop, seed=1, machine=m)
        if failed:
            if r.status in ('violation', 'harness', 'timeout'):
                world.check_result(r)
            if not (r.status == 'exit' and r.code == 30):
                raise Violation('not-flagged', 'after I/O errors because of lost blocks, the next '
                                'mount (%s) is not refused: %r' % (m, r), r.describe())
            t.add('mounts_refused')
        else:
            must(r, 'mount')
    if failed:
        must(w.fsck(machine=machine), 'fsck', (0, 128))
    # find and remove the damaged objects
    for f in ('missing', 'corrupted'):
        if os.path.exists(w.root + '/' + f):
            os.unlink(w.root + '/' + f)
    r = w.verify('--data', machine=machine)
    must(r, 'verify', (0, 46))
    gone = set(damage.index(w.backend_dir))
    listed = []
    if os.path.exists(w.root + '/corrupted'):
        listed = open(w.root + '/corrupted').read().split()
    if set(listed) - {k for k in hurt if hurt[k] == 'corrupt'}:
        raise Violation('verify-blames', 's3ql_verify lists %r as corrupted, damaged were %r' % (
            listed, hurt))
    if listed:
        must(remove_objects(w, w.root + '/corrupted'), 'remove_objects')
    if set(listed) & set(damage.index(w.backend_dir)) or \
            set(damage.index(w.backend_dir)) - gone or \
            gone - set(damage.index(w.backend_dir)) - set(listed):
        raise Violation('remove-objects', 'remove_objects.py did not remove exactly the list')
    t.add('objects_removed', len(listed))
    must(w.fsck('--force', machine=machine), 'fsck', (0, 128))
    must(w.fsck('--force', machine=machine), 'second fsck', (0,))

    async def final(k, ses):
        tt = Tally()
        inos2 = {}
        snap2 = await kern.snapshot(k, (), ino_out=inos2)
        bad = {i for i, b in lost}
        T = tree
        run = Run(k, c, tree, tt, None)
        for ino in sorted(set(T.names.values())):
            paths = sorted(p for p, i in T.names.items() if i == ino)
            now = sorted(inos2.get(ino, []))
            away = bool(now) and all(p[0] == b'lost+found' for p in now)
            if ino in T.maybe and away or ino in bad:
                if any(p[0] != b'lost+found' for p in now) or not now:
                    raise Violation('damaged-file-not-moved', 'file %r lost the blocks %r, but '
                                    'after fsck it is at %r' % (
                                        paths, sorted(b for i, b in lost if i == ino), now))
                tt.add('damaged_files_moved')
                data = snap2[now[0]]['data']
                if ino not in T.loose and len(data) != len(T.data[ino]):
                    raise Violation('wrong-size', 'moved file has %d bytes' % len(data))
                for b in range((min(len(data), len(T.data[ino])) + bs - 1) // bs):
                    if (ino, b) not in lost and b not in T.maybe.get(ino, ()) and (ino not in T.loose or (ino, b) not in T.touched):
                        n = min(bs, len(data) - b * bs, len(T.data[ino]) - b * bs)
                        run.allowed(ino, b * bs, data[b * bs:b * bs + n], 'good block of a moved '
                                    'file')
                        tt.add('good_blocks_of_damaged_files')
            else:
                if now != paths:
                    raise Violation('intact-file-moved', 'file %r lost no block, but after fsck it '
                                    'is at %r (lost: %r)' % (paths, now, sorted(lost)))
                if snap2[now[0]]['data'] != bytes(T.data[ino]):
                    raise Violation('intact-file-changed', 'file %r lost no block, but its '
                                    'contents changed: %s' % (paths, kern._abbr(
                                        bytes(T.data[ino]), snap2[now[0]]['data'])))
                tt.add('intact_files_compared')
        if (b'sym',) not in snap2:
            raise Violation('entry-lost', 'the symbolic link is gone')
        return tt

    t.merge(world.check_result(hist.session(w, cfg, final, seed=c['seed'] + 5, machine=machine)))
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P12', LEVEL, RULE, case, gen, quick_budget=40, thorough_budget=700,
              require=['io_errors', 'changes_refused', 'changes_done', 'reads_judged',
                       'mounts_refused', 'damaged_files_moved', 'intact_files_compared',
                       'objects_delete', 'objects_corrupt', 'objects_removed'], min_cases=15,
              assumptions=['In unencrypted, uncompressed file systems payload damage cannot be seen '
                           'by reading (only s3ql_verify compares checksums), so it is not tried '
                           'there.'])
