'''P03: concurrent requests are linearizable and all complete.'''
import errno
import os
import stat
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import trio

from lib import chaos, core, dbcheck, hist, kern, linear, world
from lib.core import Tally, Violation, rng_for
from lib.treeops import small_batches

LEVEL = 'exploration'
RULE = ('A case is one mount session with a random configuration, a delayed backend and a seeded '
        'scheduler. data: 2-6 tasks read, write and truncate one or two files (unique data per '
        'write) while others flush, drop and evict; the recorded history is checked per block. '
        'names: 2-4 tasks create, link, rename, remove and look up a handful of names; the history '
        'is checked by exhaustive search for a sequential order (Wing-Gong) with the final tree. '
        'mixed: everything at once including copies, recursive removal and metadata uploads. A '
        'watchdog reports any request that never completes. twins: several tasks write the same few '
        'contents to files of their own over a slow storage and a cache of a few blocks and compare '
        'what they read. After unmount: SQL invariants, stored '
        'objects, fsck. distinct: number of overlaps, outcome counters and configuration.')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(rng, delay='slow'),
                   kind=rng.choice(['data', 'data', 'names', 'names', 'mixed', 'twins']),
                   tasks=rng.choice([2, 3, 4, 6]), steps=rng.choice([8, 15, 30]),
                   batch=rng.choice([None, 1, 5]))


async def background(k, rng, stop, t, flush=True):
    while not stop:
        r = rng.random()
        try:
            if r < 0.3:
                await k.flushcache()
            elif r < 0.5:
                await k.dropcache()
            elif r < 0.6:
                await k.ctrl(b'upload-meta')
                t.add('meta_uploads_requested')
            elif r < 0.7:
                await k.stat_counts()
        except kern.KErr as exc:
            raise Violation('background-error', 'a control command failed: %s' % exc) from None
        await trio.sleep(rng.choice([0, 0.001, 0.02, 0.1]))


async def data(k, c, t):
    bs = c['cfg']['block_kib'] * 1024
    rng = rng_for('data', c['seed'])
    nfiles = rng.choice([1, 1, 2])
    recs = [linear.Recorder() for _ in range(nfiles)]
    handles, init = [], []
    for i in range(nfiles):
        h, _ = await k.create((b'f%d' % i,))
        x = rng.randbytes(rng.choice([0, bs, 3 * bs + 5]))
        if x:
            await k.write(h, 0, x)
        init.append(x)
        handles.append(h)
    if rng.random() < 0.5:
        await k.dropcache()
    await k.getattr((b'f0',))
    stop = []
    nwr = [0]

    # like the kernel: writes and truncates of one inode are serialized; the interval of the call
    # starts when it has the lock
    async def task(i):
        r = rng_for('data', c['seed'], i)
        for _ in range(c['steps']):
            f = r.randrange(nfiles)
            rec, h = recs[f], handles[f]
            x = r.random()
            off = r.choice([0, 1, bs - 3, bs, bs + 1, 2 * bs, 2 * bs + 100, 3 * bs - 1])
            ln = r.choice([1, 5, bs // 2, bs, bs, bs + 7, 2 * bs])
            fail = lambda exc: ('err', exc.errno)  # noqa: E731
            if x < 0.4:
                nwr[0] += 1
                d = (b'%04x' % nwr[0]) * (ln // 4 + 1)
                d = d[:ln]
                async with flocks[f]:
                    await rec.call(i, 'write', (off, d), k.write(h, off, d), lambda n: n, fail)
            elif x < 0.5:
                size = r.choice([0, 1, bs - 1, bs, bs + 1, 3 * bs])
                async with flocks[f]:
                    await rec.call(i, 'trunc', (size,), k.ftruncate(h, size), lambda a: a.st_size,
                                   fail)
            elif x < 0.93:
                await rec.call(i, 'read', (off, ln), k.read(h, off, ln), bytes, fail)
            else:
                await rec.call(i, 'size', (), k.getattr_h(h), lambda a: a.st_size, fail)
            if r.random() < 0.3:
                await trio.sleep(r.choice([0, 0.001, 0.01]))

    flocks = [trio.Lock() for _ in range(nfiles)]
    async with trio.open_nursery() as outer:
        outer.start_soon(background, k, rng_for('bg', c['seed']), stop, t)
        async with trio.open_nursery() as n:
            for i in range(c['tasks']):
                n.start_soon(task, i)
        stop.append(1)
    pairs = 0
    for f in range(nfiles):
        ops = recs[f].ops
        for o in ops:
            if isinstance(o.res, tuple):
                raise Violation('unexpected-error', '%s failed with %s' % (
                    o.name, errno.errorcode.get(o.res[1])))
            if o.name == 'write' and o.res != len(o.args[1]) or \
                    o.name == 'trunc' and o.res != o.args[0]:
                raise Violation('result', '%s returned %r' % (o.name, o.res))
        size = (await k.getattr_h(handles[f])).st_size
        final = await k.read(handles[f], 0, size + 10)
        linear.check_file(ops, init[f], bs, final, t)
        pairs += linear.overlaps(ops)
        await k.release(handles[f])
    t.add('overlapping_pairs', pairs)
    t.add('calls', sum(len(r.ops) for r in recs))
    await k.forget_all()
    return pairs


# -- names: state is a frozenset of (path, ident), ident: ('d'|'f'|'l', inode)

def apply_names(st, o):
    tree = dict(st)
    name, res = o.name, o.res
    err = res[1] if res[0] == 'err' else None
    p = o.args[0]
    x = tree.get(p)

    def nlink(ident):
        return sum(1 for v in tree.values() if v == ident)

    if name in ('create', 'mkdir', 'symlink'):
        if x is not None:
            exp = errno.EEXIST
        else:
            exp = None
            if err is None:
                tree[p] = ({'create': 'f', 'mkdir': 'd', 'symlink': 'l'}[name], res[1])
    elif name == 'lookup':
        if x is None:
            exp = errno.ENOENT
        else:
            exp = None
            if err is None and res[1] != x:
                return None
    elif name == 'lookup-dir':
        return st if x is not None and x[0] == 'd' else None
    elif name == 'unlink':
        exp = errno.ENOENT if x is None else errno.EISDIR if x[0] == 'd' else None
        if err is None and x is not None:
            tree.pop(p)
    elif name == 'rmdir':
        exp = errno.ENOENT if x is None else errno.ENOTDIR if x[0] != 'd' else None
        if err is None and x is not None:
            tree.pop(p)
    elif name == 'link':
        # only the second half of link(2): the source has been resolved by its own lookup
        q, ident = o.args
        if q in tree:
            exp = errno.EEXIST
        else:
            exp = None
            if err is None:
                if res[1] != ident[1]:
                    return None
                tree[q] = ident
    elif name == 'rename':
        q = o.args[1]
        y = tree.get(q)
        if x is None:
            exp = errno.ENOENT
        elif p == q or x == y:
            exp = None
            if err is None:
                return st
        elif y is not None and x[0] == 'd' and y[0] != 'd':
            exp = errno.ENOTDIR
        elif y is not None and x[0] != 'd' and y[0] == 'd':
            exp = errno.EISDIR
        else:
            exp = None
            if err is None:
                del tree[p]
                tree[q] = x
        if err in (errno.ENOENT, errno.ENOTDIR, errno.EISDIR, errno.EINVAL) and exp is not None:
            return st
    elif name == 'nlink':
        # by inode, through an open handle
        if res[1] != nlink(p):
            return None
        return st
    else:
        raise AssertionError(name)
    if err != exp:
        return None
    return frozenset(tree.items()) if err is None else st


async def names(k, c, t):
    rng = rng_for('names', c['seed'])
    dirs = [(b'D0',), (b'D1',)]
    for d in dirs:
        await k.mkdir(d)
    paths = [d + (n,) for d in dirs for n in (b'a', b'b', b'c')]
    rec = linear.Recorder()
    rounds = 3
    stop = []
    ntasks = min(c['tasks'], 4)
    total_pairs = nodes = 0

    def typ_mode(mode):
        return {stat.S_IFDIR: 'd', stat.S_IFREG: 'f', stat.S_IFLNK: 'l'}[stat.S_IFMT(mode)]

    def typ(a):
        return typ_mode(a.st_mode)

    def record(start, end, i, name, args, res):
        op = linear.Op(start, name, args, i)
        op.end, op.res = end, res
        rec.ops.append(op)

    async def link(i, p, q):
        # link(2) is not atomic: the source is resolved first, and may lose its name before the new
        # name is made
        start, mid = rec.tick(), None

        def found(ino, mode):
            nonlocal mid
            ident = (typ_mode(mode), ino)
            record(start, rec.tick(), i, 'lookup', (p,), ('ok', ident))
            mid = (rec.tick(), ident)

        try:
            a = await k.link(p, q, found)
            res = ('ok', a.st_ino)
        except kern.KErr as exc:
            res = ('err', exc.errno)
        end = rec.tick()
        if mid:
            record(mid[0], end, i, 'link', (q, mid[1]), res)
        elif res == ('err', errno.EPERM):
            record(start, end, i, 'lookup-dir', (p,), res)
        else:
            record(start, end, i, 'lookup', (p,), res)

    async def task(i, rnd):
        r = rng_for('names', c['seed'], i, rnd)
        hs = []
        for _ in range(r.randrange(3, 8)):
            p = r.choice(paths)
            q = r.choice(paths)
            op = r.choice(['create', 'create', 'mkdir', 'symlink', 'lookup', 'lookup', 'unlink',
                           'unlink', 'rmdir', 'link', 'link', 'rename', 'rename', 'rename'])
            fail = lambda exc: ('err', exc.errno)  # noqa: E731
            if op == 'create':
                x = await rec.call(i, op, (p,), k.create(p, 0o600, os.O_RDWR | os.O_EXCL),
                                   lambda v: ('ok', v[1].st_ino), fail)
                if x:
                    hs.append(x[0])
                    if r.random() < 0.5:
                        await k.write(x[0], 0, b'x' * r.choice([1, 3000]))
            elif op == 'mkdir':
                await rec.call(i, op, (p,), k.mkdir(p), lambda a: ('ok', a.st_ino), fail)
            elif op == 'symlink':
                await rec.call(i, op, (p,), k.symlink(p, b't'), lambda a: ('ok', a.st_ino), fail)
            elif op == 'lookup':
                await rec.call(i, op, (p,), k.getattr(p),
                               lambda a: ('ok', (typ(a), a.st_ino)), fail)
            elif op in ('unlink', 'rmdir'):
                await rec.call(i, op, (p,), getattr(k, op)(p), lambda a: ('ok', None), fail)
            elif op == 'link':
                await link(i, p, q)
            elif op == 'rename':
                await rec.call(i, op, (p, q), k.rename(p, q), lambda a: ('ok', None), fail)
            if r.random() < 0.2:
                await k.forget_random(0.3)
            if r.random() < 0.3:
                await trio.sleep(r.choice([0, 0.001]))
        for h in hs:
            await k.release(h)

    async def tree():
        res = {}
        for d in dirs:
            for name, a in await k.readdir(d):
                a = await k.getattr(d + (name,))
                res[d + (name,)] = (typ(a), a.st_ino, a.st_nlink)
        return res

    state = frozenset()
    k.concurrent = True
    async with trio.open_nursery() as outer:
        outer.start_soon(background, k, rng_for('bg', c['seed']), stop, t)
        for rnd in range(rounds):
            rec.ops = []
            async with trio.open_nursery() as n:
                for i in range(ntasks):
                    n.start_soon(task, i, rnd)
            fin = await tree()
            for p, (ty, ino, nl) in fin.items():
                exp = sum(1 for v in fin.values() if v[1] == ino) if ty != 'd' else 1
                if nl != exp:
                    raise Violation('nlink', '%r has link count %d but %d names' % (p, nl, exp))
            want = frozenset((p, x[:2]) for p, x in fin.items())
            nodes += linear.linearize(rec.ops, state, apply_names, final=lambda s: s == want)
            t.add('histories_linearized')
            t.add('calls', len(rec.ops))
            total_pairs += linear.overlaps(rec.ops)
            state = want
            t.sig(tuple((o.name, o.res[0], o.task) for o in sorted(
                rec.ops, key=lambda o: o.end))[:12])
        stop.append(1)
    t.add('overlapping_pairs', total_pairs)
    t.add('search_nodes', nodes)
    await k.forget_all()
    return total_pairs


async def mixed(k, c, t):
    ch = chaos.Chaos(k, c['seed'], t, bs=c['cfg']['block_kib'] * 1024,
                     weights=dict(upmeta=3, cp=4, rmtree=4, lock=1))
    await ch.setup()
    await ch.run(c['tasks'], c['steps'] * 2)
    t.add('max_parallel', ch.max_par)
    await k.forget_all()
    return ch.max_par


async def twins(k, c, t):
    '''Every task has files of its own, but all of them write the same few blocks at about the same
    time: an object is referred to, released and fetched while its upload is still under way.'''
    bs = c['cfg']['block_kib'] * 1024
    k.concurrent = True
    turn = [0]
    drng = rng_for('twins-delay', c['seed'])
    slow = drng.choice([0.2, 2, 10])
    k.ctl.delay = lambda op, key, phase: (
        drng.choice([-1, slow, slow]) if op == 'write' and key.startswith('s3ql_data_')
        else drng.choice([-1, -1, 0, 0.001]))

    def block(r):
        turn[0] += 1
        n = turn[0] // 6
        return (b'%06d' % r.choice([n, n, n - 1, 0])) * (bs // 6) + b'abcdef'[:bs % 6]

    async def task(i):
        r = rng_for('twins', c['seed'], i)
        mine = {}
        hs = {}
        home = b'T%d' % i
        await k.mkdir((home,))
        for step in range(c['steps'] * 2):
            f = r.choice(b'ab')
            p = (home, b'%c' % f)
            if f not in hs:
                hs[f], _ = await k.create(p)
                mine[f] = {}
            x = r.random()
            b = r.randrange(4)
            if x < 0.5:
                d = block(r)
                await k.write(hs[f], b * bs, d)
                mine[f][b] = d
                t.add('twin_writes')
            elif x < 0.9:
                d = await k.read(hs[f], b * bs, bs)
                n = max(mine[f], default=-1)
                want = mine[f].get(b, b'' if b > n else bytes(bs))
                if d != want:
                    raise Violation('wrong-contents', 'task %d: block %d of its file %c is %r..., '
                                    'written was %r...' % (i, b, f, d[:12], want[:12]))
                t.add('twin_reads')
            elif x < 0.92:
                c2 = (home + b'-%d' % step,)
                await k.cp((home,), c2)
                t.add('twin_copies')
                for g, bl in mine.items():
                    if g not in hs or not bl:
                        continue
                    h2 = await k.open(c2 + (b'%c' % g,), os.O_RDONLY)
                    for q in r.sample(sorted(bl), min(len(bl), 2)):
                        d = await k.read(h2, q * bs, bs)
                        if d != bl[q]:
                            raise Violation('wrong-contents', 'task %d: block %d of the copy of its '
                                            'file %c is %r..., written was %r...' % (
                                                i, q, g, d[:12], bl[q][:12]))
                    await k.release(h2)
                await k.rmtree(c2)
            elif x < 0.96:
                await k.release(hs.pop(f))
                await k.unlink(p)
            else:
                await k.ftruncate(hs[f], b * bs)
                mine[f] = {q: v for q, v in mine[f].items() if q < b}
                if b and b - 1 not in mine[f]:
                    mine[f][b - 1] = bytes(bs)
            if r.random() < 0.3:
                await trio.sleep(r.choice([0, 0.01, 0.1, 1]))
        for h in hs.values():
            await k.release(h)

    stop = []
    async with trio.open_nursery() as outer:
        if drng.random() < 0.5:
            outer.start_soon(background, k, rng_for('bg', c['seed']), stop, t)
        async with trio.open_nursery() as n:
            for i in range(c['tasks']):
                n.start_soon(task, i)
        stop.append(1)
    await k.forget_all()
    return turn[0]


def case(c, scratch):
    cfg = dict(c['cfg'])
    if c['kind'] == 'twins':
        cfg.update(max_entries=rng_for('tw', c['seed']).choice([1, 2, 4, 8]), clock=50)
    t = Tally()
    w = hist.new_world(scratch, cfg)
    fn = dict(data=data, names=names, mixed=mixed, twins=twins)[c['kind']]

    async def body(k, ses):
        x = await fn(k, c, t)
        return x, t

    x, t = world.check_result(hist.session(w, cfg, body, seed=c['seed'],
                                           setup=lambda: small_batches(c['batch'])))
    t.add('sessions_' + c['kind'])
    t.sig(c['kind'], x, c['tasks'], cfg['plain'], cfg['cachesize'], cfg['max_entries'],
          cfg['conns'], sorted((k, min(v, 3)) for k, v in t.counts.items() if k[:3] == 'ok_'))
    dbcheck.check_db(w, 'after unmount')
    dbcheck.check_store(w, 'after unmount', tally=t)
    r = w.fsck('--force')
    if r.code or r.status != 'exit':
        raise Violation('fsck-reports', 'fsck: %r' % r, r.log[-2500:])
    t.sample(dict(kind=c['kind'], tasks=c['tasks'], overlapping=x), 1)
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P03', LEVEL, RULE, case, gen, quick_budget=40, thorough_budget=780,
              require=['reads_overlapping_writes', 'sessions_twins', 'twin_reads', 'histories_linearized', 'sessions_mixed',
                       'overlapping_pairs'], min_cases=15,
              assumptions=['Like the Linux FUSE client, the harness serializes writes and '
                           'truncates per inode and name changes per directory.',
                           'Calls covering several blocks are judged per block; a read '
                           'overlapping a truncate may see zeros.'])
