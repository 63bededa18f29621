'''P21: the cache stays within its limits and accounts for what it holds.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import hashlib
import os
import re
import stat

import trio

from lib import chaos, core, damage, dbcheck, hist, kern, world
from lib.core import Tally, Violation, rng_for
from lib.kern import KErr

LEVEL = 'fault_injection'
RULE = ('A case runs concurrent random calls with many writes, reads, truncates, flushes and drops '
        'on a file system with a small cache over a slow storage, in several mounts with different '
        'limits, with and without keeping the cache, some of them while the storage loses objects. '
        'After every request and every storage operation the cache directory itself is counted and '
        'measured; whenever no request is under way it is compared with the reported usage, the '
        'open file descriptors and the hashes in the database; idle periods must end with '
        'everything stored; a working set within the limits must stay in the cache. '
        'distinct: (limits, tasks, kind, largest overshoot of entries).')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), tasks=rng.choice([1, 2, 4, 8]),
                   steps=rng.choice([10, 30, 60]), nses=rng.choice([1, 2, 3]),
                   kind=rng.choice(['normal', 'normal', 'normal', 'drops', 'lost']),
                   cfg=hist.rand_config(rng, clock=50))


NAME = re.compile(r'^(\d+)-(\d+)$')


class Monitor:
    def __init__(self, path, c, cfg, ntasks, t):
        self.path, self.t = path, t
        self.max_entries = cfg['max_entries']
        self.max_size = cfg['cachesize'] * 1024
        self.bs = cfg['block_kib'] * 1024
        self.n = ntasks
        self.over = 0
        self.armed = True

    def scan(self):
        '''The blocks really there: {(inode, block): size}, and other names.'''
        res, other = {}, []
        with os.scandir(self.path) as it:
            for e in it:
                m = NAME.match(e.name)
                if not m:
                    other.append(e.name)
                    continue
                try:
                    res[int(m.group(1)), int(m.group(2))] = e.stat().st_size
                except FileNotFoundError:
                    pass
        return res, other

    def limits(self, where):
        if not self.armed:
            return
        files, other = self.scan()
        self.t.add('scans')
        over = len(files) - self.max_entries
        self.over = max(self.over, over)
        if over > self.n:
            raise Violation('too-many-blocks', '%s: the cache holds %d blocks (limit %d) with at '
                            'most %d requests at work' % (where, len(files), self.max_entries, self.n),
                            repr(sorted(files))[:500])
        size = sum(files.values())
        if size > self.max_size + self.n * self.bs:
            raise Violation('cache-too-big', '%s: the cache holds %d bytes (limit %d) with at most %d '
                            'requests at work on blocks of %d' % (where, size, self.max_size, self.n,
                                                                  self.bs))
        if over > 0 or size > self.max_size:
            self.t.add('scans_over_limit')
        if len(files) >= self.max_entries or size >= self.max_size - self.bs:
            self.t.add('scans_at_limit')
        if len(other) > self.n:
            raise Violation('stray-files', '%s: %r in the cache directory' % (where, other))

    def fds(self):
        live, dead, total = 0, [], 0
        for fd in os.listdir('/proc/self/fd'):
            try:
                dst = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            total += 1
            if dst.startswith(self.path + '/'):
                if dst.endswith(' (deleted)'):
                    dead.append(dst)
                else:
                    live += 1
        return live, dead, total


def db_hashes(ops):
    return {(i, b): (h, s) for i, b, h, s in ops.db.query(
        'SELECT inode, blockno, hash, phys_size FROM inode_blocks JOIN objects '
        'ON objects.id = inode_blocks.obj_id')}


def sha(path):
    with open(path, 'rb') as fh:
        return hashlib.sha256(fh.read()).digest()


async def accounts(k, mon, where, t):
    '''No request is under way: compare directory, report, descriptors, database.'''
    st = await k.stat_counts()
    files, other = mon.scan()
    live, dead, total = mon.fds()
    t.add('accounts')
    if other:
        raise Violation('stray-files', '%s: %r in the cache directory' % (where, other))
    if (st['cache_cnt'], st['cache_size']) != (len(files), sum(files.values())):
        raise Violation('wrong-usage', '%s: reported %d blocks with %d bytes, there are %d with %d' % (
            where, st['cache_cnt'], st['cache_size'], len(files), sum(files.values())))
    if live != len(files) or dead:
        raise Violation('fd-leak', '%s: %d blocks in the cache, %d open, %d deleted ones open' % (
            where, len(files), live, len(dead)), repr(dead)[:300])
    db = db_hashes(k.ops)
    diff = diffsize = 0
    for key, size in files.items():
        if size == 0 and key not in db:
            continue        # a hole that was read
        if key not in db or db[key][0] != sha('%s/%d-%d' % ((mon.path,) + key)):
            diff += 1
            diffsize += size
    if st['dirty_cnt'] < diff or st['dirty_size'] < diffsize:
        raise Violation('dirty-not-counted', '%s: %d blocks (%d bytes) reported dirty, %d (%d bytes) '
                        'differ from what the database refers to' % (
                            where, st['dirty_cnt'], st['dirty_size'], diff, diffsize))
    if st['dirty_cnt'] > len(files):
        raise Violation('wrong-usage', '%s: more dirty blocks than blocks: %r' % (where, st))
    t.add('dirty_seen', st['dirty_cnt'])
    return st, files, total


def all_stored(k, mon, files, where, t):
    db = db_hashes(k.ops)
    for key, size in files.items():
        if size == 0 and key not in db:
            continue
        if key not in db or db[key][0] != sha('%s/%d-%d' % ((mon.path,) + key)) or db[key][1] < 0:
            raise Violation('not-stored', '%s: cached block %r is not stored (%r)' % (
                where, key, db.get(key) and db[key][1]))
    t.add('blocks_stored', len(files))


async def all_files(k, path=()):
    res = []
    for name, a in await k.readdir(path):
        if name in (b'.', b'..', b'lost+found'):
            continue
        p = path + (name,)
        if stat.S_ISDIR(a.st_mode):
            res += await all_files(k, p)
        elif stat.S_ISREG(a.st_mode):
            res.append((p, a.st_size))
    return res


async def working_set(k, mon, c, rng, t, ctl):
    '''Blocks within the limits stay cached while they are in use.'''
    db = set(db_hashes(k.ops))
    cand, seen = [], set()
    for p, size in await all_files(k):
        a = await k.getattr(p)
        if a.st_ino in seen:
            continue
        seen.add(a.st_ino)
        for b in range((size + mon.bs - 1) // mon.bs):
            if (a.st_ino, b) in db:
                cand.append((p, b, min(mon.bs, size - b * mon.bs)))
    rng.shuffle(cand)
    pick, left = [], mon.max_size
    for p, b, n in cand:
        # the stored block can be longer than the file, never than the block size
        if len(pick) < mon.max_entries and mon.bs <= left:
            pick.append((p, b, n))
            left -= mon.bs
    if not pick:
        return
    hs = {p: await k.open(p, os.O_RDONLY) for p in {x[0] for x in pick}}
    data = {}
    for p, b, n in pick:
        data[p, b] = await k.read(hs[p], b * mon.bs, n)
    before = dict(ctl.counts)
    for _ in range(2):
        rng.shuffle(pick)
        for p, b, n in pick:
            if data[p, b] != await k.read(hs[p], b * mon.bs, n):
                raise Violation('wrong-data', 'two reads of %r block %d differ' % (p, b))
    n = ctl.counts.get('read', 0) - before.get('read', 0)
    if n:
        raise Violation('needless-eviction', '%d blocks within the limits (%d blocks, %d bytes) were '
                        'downloaded %d times while being read again' % (
                            len(pick), mon.max_entries, mon.max_size, n))
    for h in hs.values():
        await k.release(h)
    t.add('working_sets')
    t.add('working_set_blocks', len(pick))


def lose(w, rng, t):
    idx = damage.index(w.backend_dir)
    keys = sorted(x for x in idx if x.startswith('s3ql_data_'))
    for key in rng.sample(keys, min(len(keys), rng.choice([1, 3]))):
        os.unlink(idx[key])
        t.add('lost_objects')


def case(c, scratch):
    t = Tally()
    rng = rng_for('p21', c['seed'])
    cfg = dict(c['cfg'])
    w = hist.new_world(scratch, cfg)
    t.sample(dict(config=cfg, tasks=c['tasks'], kind=c['kind']), 1)
    lost = [False]
    reported = None

    for sno in range(c['nses']):
        seed = c['seed'] * 5 + sno
        if sno:
            cfg.update(cachesize=rng.choice([0, 1, 3, 10, 1000]), max_entries=rng.choice(
                [1, 2, 4, 10, 100]), keep=rng.random() < 0.5)
        path = w.cachepath('m0') + '-cache'
        mon = Monitor(path, c, cfg, c['tasks'], t)
        ctl = world.BackendCtl()

        async def body(k, ses, sno=sno, seed=seed, mon=mon, ctl=ctl):
            r = rng_for('p21b', seed)
            ctl.before_cb = lambda op, key: mon.limits('%s %s' % (op, key))
            ctl.after_cb = lambda op, key, res: mon.limits('after %s %s' % (op, key))
            st, files, total0 = await accounts(k, mon, 'after mounting', t)
            if reported is not None:
                if (st['cache_cnt'], st['cache_size']) != reported[:2]:
                    raise Violation('kept-cache-differs', 'kept: %r, after mounting: %r' % (
                        reported, (st['cache_cnt'], st['cache_size'])))
                if st['dirty_cnt']:
                    raise Violation('kept-cache-dirty', '%d blocks' % st['dirty_cnt'])
                if files:
                    all_stored(k, mon, files, 'kept cache', t)
                    t.add('kept_blocks', len(files))
            if len(files) > mon.max_entries or sum(files.values()) > mon.max_size:
                # Reduced by the first access to a block not cached.
                mon.armed = False
                h, _ = await k.create((b'first',))
                await k.write(h, 0, b'x')
                await k.release(h)
                mon.armed = True
                t.add('shrunk_on_mount')
            real_req = k.req

            async def req(name, *a):
                try:
                    return await real_req(name, *a)
                finally:
                    mon.limits('after %s' % name)
            k.req = req
            wts = dict(write=40, read=20, trunc=8, create=8, cp=1, rmtree=2, flush=2, drop=2)
            if c['kind'] == 'drops':
                wts.update(drop=15, flush=10)
            ok = []
            if c['kind'] == 'lost':
                import errno
                ok = [errno.EIO, errno.EPERM, errno.EROFS]
            ch = chaos.Chaos(k, seed, t, bs=mon.bs, weights=wts, maxblocks=8, ok_errors=ok)
            if not sno:
                await ch.setup()
            rounds = r.choice([1, 2, 3])
            for rnd in range(rounds):
                if c['kind'] == 'lost' and r.random() < 0.7:
                    await k.flushcache()
                    if r.random() < 0.5:
                        await k.dropcache()
                    lose(w, r, t)
                    lost[0] = True
                await ch.run(c['tasks'], max(3, c['steps'] // rounds))
                where = 'after round %d' % rnd
                st, files, _ = await accounts(k, mon, where, t)
                what = r.choice(['idle', 'flush', 'drop', 'drops', 'set', 'set'])
                if what == 'idle' and not lost[0]:
                    n = 0
                    while st['dirty_cnt']:
                        if n > 60:
                            raise Violation('never-uploaded', '%d dirty blocks are still not uploaded '
                                            'after %d idle seconds' % (st['dirty_cnt'], n * 10))
                        n += 1
                        await trio.sleep(10)
                        st, files, _ = await accounts(k, mon, where + ', idle', t)
                    all_stored(k, mon, files, where + ', idle', t)
                    t.add('idles')
                elif what == 'flush':
                    await k.flushcache()
                    st, files, _ = await accounts(k, mon, where + ', flushed', t)
                    if st['dirty_cnt']:
                        raise Violation('dirty-after-flush', '%d blocks' % st['dirty_cnt'])
                    if not lost[0]:
                        all_stored(k, mon, files, where + ', flushed', t)
                elif what in ('drop', 'drops'):
                    if what == 'drop':
                        await k.dropcache()
                    else:
                        async with trio.open_nursery() as nur:
                            for _ in range(3):
                                nur.start_soon(k.dropcache)
                    st, files, total = await accounts(k, mon, where + ', dropped', t)
                    if files:
                        raise Violation('blocks-after-drop', repr(sorted(files))[:300])
                    t.add('drops')
                    if not lost[0]:
                        await working_set(k, mon, c, r, t, ctl)
                elif not lost[0]:
                    await working_set(k, mon, c, r, t, ctl)
            await k.forget_all()
            if r.random() < 0.5:
                await k.dropcache()
                _, files, total = await accounts(k, mon, 'at the end', t)
                if total > total0 + 4:
                    raise Violation('fd-leak', '%d descriptors open after mounting, %d at the end with an '
                                    'empty cache' % (total0, total))
                if not lost[0] and mon.max_entries:
                    await working_set(k, mon, c, r, t, ctl)
            st, files, _ = await accounts(k, mon, 'before unmounting', t)
            mon.armed = False
            return st, mon.over, lost[0], t

        res = hist.session(w, dict(cfg, delay=rng.choice([None, 'slow', 'slow'])), body, seed=seed,
                           ctl=ctl)
        st, over, lost[0], t = world.check_result(res)
        t.sig((cfg['max_entries'], cfg['cachesize'], c['tasks'], c['kind'], max(over, -1)))
        t.add('sessions')
        there = os.path.isdir(path)
        if not cfg['keep']:
            if there:
                raise Violation('cache-left', 'the cache directory is still there: %r' % (
                    os.listdir(path)[:10]))
            reported = None
            t.add('unmounted_without')
        else:
            files, other = mon.scan() if there else ({}, [])
            if other or (len(files), sum(files.values())) != (st['cache_cnt'], st['cache_size']):
                raise Violation('kept-cache-differs', 'reported %d blocks with %d bytes, kept are %d with '
                                '%d bytes, other files: %r' % (
                                    st['cache_cnt'], st['cache_size'], len(files),
                                    sum(files.values()), other))
            reported = (len(files), sum(files.values()))
            t.add('unmounted_with')
            conn = dbcheck.open_copy(w.cachepath('m0') + '.db', w.root + '/dbcopy')
            db = {(i, b): bytes(h) for i, b, h in conn.execute(
                'SELECT inode, blockno, hash FROM inode_blocks JOIN objects ON '
                'objects.id = inode_blocks.obj_id WHERE hash IS NOT NULL')}
            conn.close()
            for key, size in files.items():
                if (size or key in db) and db.get(key) != sha('%s/%d-%d' % ((path,) + key)):
                    raise Violation('kept-cache-dirty', 'block %r is not what is stored' % (key,))
        if lost[0]:
            break       # needs fsck now
    return t


if __name__ == '__main__':
    core.main('P21', LEVEL, RULE, case, gen, quick_budget=30, thorough_budget=500,
              require=dict(scans=3000, scans_at_limit=500, accounts=40, working_sets=10, idles=2,
                           drops=5, unmounted_with=3, unmounted_without=3, lost_objects=3,
                           kept_blocks=5),
              min_cases=10)
