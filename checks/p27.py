'''P27: background tasks store changes, backups and removals on time.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import os
import sqlite3
import time as real_time
import types

import trio
import trio.testing

from lib import core, damage, dbcheck, hist, kern, world
from lib.core import Tally, Violation, rng_for
from lib.kern import KErr

LEVEL = 'fault_injection'
RULE = ('A case is a mount whose clock is under control of the harness: time passes only when no task '
        'can run and no thread is at work, and the time that s3ql reads follows it. Actors with '
        'different habits (rewriting, appending, reading over and over, writing once, truncating, '
        'unlinking, copying) use it for minutes of that time, with different upload delays, backup '
        'intervals, cache sizes and storage latencies. All the time the cache directory, the database '
        'and the stored objects are compared: age of what is not stored yet, things stored before '
        'their time, stored objects no longer referred to, time between backups. '
        'distinct: (actors, delay, cache full or not, latency).')

TICK = 0.25


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), delay=rng.choice([0, 1, 5, 10, 10, 30]),
                   interval=rng.choice([0, 10, 40, 100]), lat=rng.choice([0, 0, 0.05, 0.5]),
                   actors=sorted(rng.choice(list(ACTORS)) for _ in range(rng.choice([2, 3, 5]))),
                   small=rng.random() < 0.25, requests=rng.random() < 0.3, span=rng.choice([150, 300]),
                   cfg=hist.rand_config(rng, clock=50, meta_kib=64, delay=None, keep=False,
                                        block_kib=1))


def slack(c):
    '''What waiting for other transfers may take'''
    return 40 + 200 * c['lat'] if c['lat'] else 15


class Clock:
    '''Seconds that pass only when nothing else can happen.'''

    def __init__(self):
        self.active = 0
        self.base = real_time.time()
        self.clock = None
        self.stop = False
        self.jumped = 0.0

    def install(self):
        '''Before the mount starts: count threads at work, make s3ql's time follow the clock.'''
        orig = self.orig = trio.to_thread.run_sync

        async def run_sync(*a, **kw):
            self.active += 1
            try:
                return await orig(*a, **kw)
            finally:
                self.active -= 1
        trio.to_thread.run_sync = run_sync
        fake = types.SimpleNamespace(**{k: v for k, v in vars(real_time).items()
                                        if not k.startswith('__')})
        fake.time = self.time
        fake.time_ns = lambda: int(self.time() * 1e9)
        fake.monotonic = fake.perf_counter = self.time
        sub = {id(real_time): fake}
        for n in ('time', 'time_ns', 'monotonic', 'perf_counter'):
            sub[id(getattr(real_time, n))] = getattr(fake, n)
        sub[id(orig)] = run_sync
        for name, mod in list(sys.modules.items()):
            if name.split('.')[0] == 's3ql' and mod is not None:
                for k, v in list(vars(mod).items()):
                    if id(v) in sub:
                        setattr(mod, k, sub[id(v)])

    def time(self):
        return self.base + (self.clock.current_time() - self.zero if self.clock else 0)

    def now(self):
        return self.clock.current_time() - self.zero

    def take(self):
        self.clock = trio.lowlevel.current_clock()
        self.zero = self.clock.current_time()
        self.clock.rate = 0

    def give_back(self):
        self.stop = True
        self.clock.rate = 50

    async def tick(self):
        while not self.stop:
            await trio.testing.wait_all_tasks_blocked()
            while self.active:
                await self.orig(real_time.sleep, 0.0003)
                await trio.testing.wait_all_tasks_blocked()
            self.clock.jump(TICK)
            self.jumped += TICK


class Watch:
    def __init__(self, k, clk, c, w, t, ctl):
        self.k, self.clk, self.c, self.w, self.t = k, clk, c, w, t
        self.path = w.cachepath('m0') + '-cache'
        self.mod = {}           # (inode, block) -> time of the last modification
        self.dirty_since = {}
        self.hot = {}           # (inode, block) -> longest time without modification
        self.unref = {}
        self.seqs = []
        self.requests = []      # (time, name of a file created before)
        self.params = []        # times at which the file system parameters were stored
        self.longest = 0
        self.cycle = None
        self.stopping = trio.Event()
        ctl.after_cb = self.stored
        ctl.before_cb = self.storing

    def storing(self, op, key):
        if op == 'write' and key.startswith('s3ql_metadata_') and self.cycle is None:
            self.cycle = self.clk.now()

    def stored(self, op, key, res):
        if op == 'write' and key.startswith('s3ql_params_'):
            self.params.append(self.clk.now())
            self.seqs.append((self.clk.now(), int(key[12:], 16)))
            self.t.add('params_stored')
            self.cycle = None

    def modified(self, ino, off, n, bs=1024):
        now = self.clk.now()
        for b in range(off // bs, (off + n - 1) // bs + 1):
            key = (ino, b)
            if key in self.hot:
                self.hot[key][1] = max(self.hot[key][1], now - self.hot[key][0])
                self.hot[key][0] = now
            self.mod[key] = now

    def scan(self):
        res = {}
        with os.scandir(self.path) as it:
            for e in it:
                a, _, b = e.name.partition('-')
                if a.isdigit() and b.isdigit():
                    res[int(a), int(b)] = e.path
        return res

    def look(self):
        import hashlib
        now = self.clk.now()
        db = {(i, b): (h, s) for i, b, h, s in self.k.ops.db.query(
            'SELECT inode, blockno, hash, phys_size FROM inode_blocks JOIN objects '
            'ON objects.id = inode_blocks.obj_id')}
        there = self.scan()
        self.t.add('looks')
        for key, path in there.items():
            try:
                with open(path, 'rb') as fh:
                    buf = fh.read()
            except FileNotFoundError:
                continue
            if not buf and key not in db:
                continue
            if key in db and db[key][0] == hashlib.sha256(buf).digest() and db[key][1] >= 0:
                if self.dirty_since.pop(key, None) is not None:
                    self.t.add('seen_stored')
                continue
            since = max(self.dirty_since.setdefault(key, now), self.mod.get(key, 0))
            self.longest = max(self.longest, now - since)
            self.t.add('seen_dirty')
            if now - since > self.c['delay'] + 5 + slack(self.c):
                raise Violation('not-uploaded', 'block %r was last modified %.0f seconds ago and is not '
                                'stored, the upload delay is %d seconds' % (
                                    key, now - since, self.c['delay']),
                                'actors %r; ages %r' % (self.c['actors'], sorted(
                                    (round(now - self.mod.get(x, 0)), x) for x in there)))
        for key in list(self.dirty_since):
            if key not in there:
                del self.dirty_since[key]
        for key, (last, gap, since, pressure) in self.hot.items():
            gap = max(gap, now - last)
            if key in db and gap < self.c['delay'] and not pressure and not self.pressure():
                raise Violation('uploaded-early', 'block %r is modified at least every %.1f seconds and '
                                'was uploaded, the upload delay is %d seconds' % (
                                    key, gap, self.c['delay']))
            if key not in db and gap < self.c['delay']:
                self.t.add('hot_not_stored')
        refs = {'s3ql_data_%d' % i for i, in self.k.ops.db.query('SELECT id FROM objects')}
        stored = damage.index(self.w.backend_dir)
        for key in list(self.unref):
            if key not in stored:
                del self.unref[key]
                self.t.add('seen_removed')
        for key in stored:
            if not key.startswith('s3ql_data_'):
                continue
            if key in refs:
                self.unref.pop(key, None)
                continue
            since = self.unref.setdefault(key, now)
            self.t.add('seen_unreferenced')
            if now - since > 5 + slack(self.c):
                raise Violation('not-removed', 'object %s has not been needed for %.0f seconds and is '
                                'still stored' % (key, now - since))
        if self.c['interval']:
            last = self.params[-1] if self.params else 0
            if now - last > self.c['interval'] + 5 + slack(self.c):
                raise Violation('no-backup', 'the last metadata backup ended %.0f seconds ago, the '
                                'interval is %d seconds' % (now - last, self.c['interval']))

    def pressure(self):
        return self.c['small'] or self.c['requests']

    async def run(self):
        while True:
            await trio.sleep(2)
            self.look()


class Stop(Exception):
    pass


class Actor:
    def __init__(self, kind, no, k, watch, seed):
        self.k, self.w = k, watch
        self.rng = rng_for('p27a', seed, no)
        self.kind = kind
        self.name = b'%s%d' % (kind.encode(), no)
        self.no = no

    def data(self, n):
        return self.rng.randbytes(n)

    async def write(self, h, off, data):
        await self.k.write(h, off, data)
        self.w.modified(h.ino, off, len(data))
        self.w.t.add('writes')

    async def run(self):
        try:
            await getattr(self, self.kind)()
        except Stop:
            pass

    async def sleep(self, secs):
        '''Whole calls only: an actor stops while it sleeps'''
        if self.w.stopping.is_set():
            raise Stop
        with trio.move_on_after(secs):
            await self.w.stopping.wait()
            raise Stop

    async def rewrite(self):
        '''One block changed all the time'''
        h, a = await self.k.create((self.name,))
        await self.write(h, 0, self.data(1024))
        gap = self.rng.choice([0.5, 1, 3])
        now = self.w.clk.now()
        self.w.hot[h.ino, 0] = [now, 0, now, False]
        while True:
            await self.sleep(gap)
            await self.write(h, self.rng.randrange(1000), self.data(10))

    async def append(self):
        h, a = await self.k.create((self.name,))
        off = 0
        while True:
            d = self.data(self.rng.choice([10, 300, 1024]))
            await self.write(h, off, d)
            off += len(d)
            if off > 60000:
                await self.k.release(h)
                await self.k.unlink((self.name,))
                h, a = await self.k.create((self.name,))
                off = 0
            await self.sleep(self.rng.choice([0.5, 1, 4]))

    async def readagain(self):
        '''Writes a file and then reads it over and over'''
        h, a = await self.k.create((self.name,))
        n = self.rng.choice([1, 3, 8])
        gap = self.rng.choice([0.3, 1, 2])
        while True:
            for b in range(n):
                await self.write(h, b * 1024, self.data(self.rng.choice([10, 1024])))
            for _ in range(self.rng.choice([20, 300, 1000])):
                await self.k.read(h, self.rng.randrange(n) * 1024, 1024)
                await self.sleep(gap * self.rng.random())

    async def once(self):
        '''Files written once'''
        i = 0
        while True:
            h, a = await self.k.create((self.name + b'-%d' % i,))
            await self.write(h, self.rng.choice([0, 500, 5000]), self.data(self.rng.choice([1, 1024, 4000])))
            await self.k.release(h)
            i += 1
            await self.sleep(self.rng.choice([1, 10, 40]))

    async def trunc(self):
        h, a = await self.k.create((self.name,))
        while True:
            await self.write(h, 0, self.data(3000))
            await self.sleep(self.rng.choice([1, 20]))
            await self.k.ftruncate(h, self.rng.choice([0, 1, 1024, 1500]))
            await self.sleep(self.rng.choice([1, 20]))

    async def unlink(self):
        i = 0
        while True:
            i += 1
            p = (self.name,)
            h, a = await self.k.create(p)
            await self.write(h, 0, self.data(self.rng.choice([1024, 5000])))
            await self.sleep(self.rng.choice([1, 15, 45]))
            if self.rng.random() < 0.5:
                await self.k.release(h)
                h = None
            await self.k.unlink(p)
            if h:
                await self.sleep(self.rng.choice([0, 5]))
                await self.k.release(h)

    async def same(self):
        '''Equal contents in many files, which come and go'''
        d = [bytes([self.no, i]) * 512 for i in range(2)]
        names = []
        i = 0
        while True:
            i += 1
            p = (self.name + b'-%d' % i,)
            h, a = await self.k.create(p)
            await self.write(h, 0, self.rng.choice(d))
            await self.k.release(h)
            names.append(p)
            await self.sleep(self.rng.choice([0, 3, 20]))
            while len(names) > self.rng.choice([0, 1, 4]):
                await self.k.unlink(names.pop(0))

    async def tree(self):
        '''Copies a tree and removes it again'''
        await self.k.mkdir((self.name,))
        for i in range(3):
            h, a = await self.k.create((self.name, b'f%d' % i))
            await self.write(h, 0, self.data(1024))
            await self.k.release(h)
        while True:
            await self.sleep(self.rng.choice([1, 20]))
            dst = (self.name + b'-copy',)
            await self.k.cp((self.name,), dst)
            h = await self.k.open(dst + (b'f0',), os.O_RDWR)
            await self.write(h, 0, self.data(100))
            await self.k.release(h)
            await self.sleep(self.rng.choice([1, 20]))
            await self.k.rmtree(dst)


ACTORS = ('rewrite', 'append', 'readagain', 'once', 'trunc', 'unlink', 'same', 'tree')


def case(c, scratch):
    t = Tally()
    cfg = dict(c['cfg'], cachesize=10 if c['small'] else 100000,
               max_entries=8 if c['small'] else 2000)
    w = hist.new_world(scratch, cfg)
    clk = Clock()
    ctl = world.BackendCtl()
    drng = rng_for('p27d', c['seed'])

    def setup():
        world.install_backend(ctl)
        clk.install()

    box = []

    async def wl(ses):
        k = kern.Kern(ses, rng_for('kern', c['seed']))
        k.concurrent = True
        k.ctl = ctl
        rng = rng_for('p27', c['seed'])
        watch = Watch(k, clk, c, w, t, ctl)
        clk.take()
        if c['lat']:
            ctl.delay = lambda op, key, phase: drng.choice([-1, 0, c['lat'], c['lat'] / 10])
        ctl.virtual = True
        try:
            async with trio.open_nursery() as nur:
                nur.start_soon(clk.tick)
                done = trio.Event()

                async def actors():
                    async with trio.open_nursery() as n2:
                        for i, kind in enumerate(c['actors']):
                            n2.start_soon(Actor(kind, i, k, watch, c['seed']).run)
                    done.set()
                mon = trio.CancelScope()

                async def monitor():
                    with mon:
                        await watch.run()
                nur.start_soon(monitor)
                nur.start_soon(actors)
                end = clk.now() + c['span']
                while clk.now() < end:
                    await trio.sleep(rng.choice([3, 10, 30]))
                    if c['requests']:
                        what = rng.choice(['flush', 'drop', 'backup', 'none'])
                        if what == 'flush':
                            await k.flushcache()
                        elif what == 'drop':
                            await k.dropcache()
                        elif what == 'backup':
                            n = len(watch.params)
                            for _ in range(rng.choice([1, 2, 3])):
                                # some of the requests are made during a backup
                                name = b'mark%d' % len(watch.requests)
                                h, _a = await k.create((name,))
                                await k.release(h)
                                watch.requests.append((clk.now(), name))
                                await k.ctrl(b'upload-meta')
                                await trio.sleep(rng.choice([0, 0, c['lat'] / 2, 2 * c['lat']]))
                            t0 = clk.now()
                            while len(watch.params) < n + 1:
                                if clk.now() - t0 > slack(c):
                                    raise Violation('no-backup-on-request', 'no metadata backup %.0f seconds '
                                                    'after the request' % (clk.now() - t0))
                                await trio.sleep(1)
                            t.add('requested_backups')
                watch.stopping.set()
                await done.wait()
                watch.hot.clear()
                # everything must come to rest now
                t0 = clk.now()
                while True:
                    st = await k.stat_counts()
                    watch.look()
                    if not st['dirty_cnt'] and not watch.dirty_since and not st['removals'] \
                            and not watch.unref:
                        break
                    if clk.now() - t0 > c['delay'] + 5 + slack(c):
                        raise Violation('no-rest', '%.0f seconds after the last request %d blocks are dirty '
                                        'and %d removals are pending' % (
                                            clk.now() - t0, st['dirty_cnt'], st['removals']),
                                        'dirty: %r, not needed: %r' % (watch.dirty_since, watch.unref))
                    await trio.sleep(1)
                t.add('rests')
                mon.cancel()
                ctl.delay = None
                t.add('virtual_seconds', int(clk.jumped))
                if c['interval']:
                    t.add('periodic_spans')
                clk.stop = True
        finally:
            ctl.delay = None
            clk.give_back()
        await k.forget_all()
        reqs = [(x, n) for x, n in watch.requests if x + 2 * slack(c) < end]
        box.append((reqs, watch.seqs))
        t.sig((tuple(sorted(set(c['actors']))), c['delay'], c['small'], c['lat'] > 0))
        t.sample(dict(actors=c['actors'], delay=c['delay'], interval=c['interval'],
                      longest_unstored_seconds=round(watch.longest, 1)), 1)
        return t, box

    r = w.mount(wl, cachesize=cfg['cachesize'], max_entries=cfg['max_entries'], setup=setup,
                clock_rate=50, sched_seed=c['seed'], upload_delay=c['delay'],
                backup_interval=c['interval'], inode_cache_size=cfg['icache'])
    t, box = world.check_result(r)
    judge_requests(w, c, t, *box[0])
    return t


def judge_requests(w, c, t, reqs, seqs):
    '''What was there when a backup was requested is in a backup that was stored soon afterwards.'''
    if not reqs:
        return
    objs = dbcheck.read_objects(w, only='s3ql_metadata_', raw=True)
    params = dbcheck.read_objects(w, only='s3ql_params_', raw=True)
    from s3ql.common import thaw_basic_mapping
    blocks = {}
    for key, v in objs.items():
        a, _, b = key[14:].partition('_')
        blocks.setdefault(int(a, 16), {})[int(b, 16)] = v[0]
    cache = {}

    def names(seq):
        if seq not in cache:
            p = thaw_basic_mapping(params['s3ql_params_%010x' % seq][0])
            path = w.root + '/backup.db'
            with open(path, 'wb') as fh:
                for b, vs in blocks.items():
                    old = [x for x in vs if x <= seq]
                    if old:
                        fh.seek(b * p['metadata_block_size'])
                        fh.write(vs[max(old)])
                fh.truncate(p['db_size'])
            conn = sqlite3.connect(path)
            cache[seq] = {x for x, in conn.execute('SELECT name FROM names')}
            conn.close()
            os.unlink(path)
        return cache[seq]

    for when, name in reqs:
        done = [x for y, x in seqs if when <= y <= when + 2 * slack(c)]
        if done and 's3ql_params_%010x' % done[-1] not in params:
            t.add('expired_backups')
            continue
        if not done or name not in names(done[-1]):
            raise Violation('request-lost', 'a metadata backup was requested after %s had been created; '
                            '%.0f seconds later no backup contains it' % (name.decode(), 2 * slack(c)),
                            'request at %.1f, backups stored at %r' % (when, seqs))
        t.add('requests_judged')


if __name__ == '__main__':
    core.main('P27', LEVEL, RULE, case, gen, quick_budget=30, thorough_budget=500,
              require=dict(virtual_seconds=3000, looks=1000, seen_dirty=1000, seen_stored=200,
                           hot_not_stored=20, params_stored=50, seen_unreferenced=1, rests=15,
                           requested_backups=2, requests_judged=2),
              min_cases=15)
