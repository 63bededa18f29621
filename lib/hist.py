'''Histories: random driver runs split over mount sessions, shared by several checks.'''
from __future__ import annotations

from . import driver, kern, model, world
from .core import Tally, rng_for


def rand_config(rng, **kw):
    c = dict(plain=rng.random() < 0.5, block_kib=rng.choice([1, 1, 1, 2]),
             meta_kib=rng.choice([1, 4, 4, 64]), cachesize=rng.choice([0, 1, 3, 1000]),
             max_entries=rng.choice([1, 2, 4, 100]), icache=rng.choice([8, None]),
             compress=rng.choice(['none', 'zlib-6', 'bzip2-6', 'lzma-2']),
             delay=rng.choice([None, 'slow', 'slow']), clock=rng.choice([None, 50]),
             conns=rng.choice([1, 3, 8]), keep=rng.random() < 0.3)
    c.update(kw)
    return c


def new_world(scratch, c, name='w'):
    w = world.World(scratch + '/' + name, plain=c['plain'], block_kib=c['block_kib'],
                    meta_kib=c['meta_kib'], compress=c['compress'], max_connections=c['conns'])
    w.must_mkfs()
    return w


def delays(seed):
    drng = rng_for('delay', seed)
    return lambda op, key, phase: drng.choice([-1, 0, 0.001, 0.01])


def session(w, c, body, *, seed, machine='m0', setup=None, ctl=None, keep=None, sched=True,
            backup_interval=0, **kw):
    '''One mount session; *body*(kern, ses) is the workload. Returns the Result.'''
    ctl = ctl or world.BackendCtl()

    def su():
        if c['delay'] and ctl.delay is None:
            ctl.delay = delays(seed)
        world.install_backend(ctl)
        if setup:
            setup()

    async def wl(ses):
        k = kern.Kern(ses, rng_for('kern', seed))
        k.ctl = ctl
        ctl.virtual = bool(c['clock'])
        return await body(k, ses)

    return w.mount(wl, machine=machine, cachesize=c['cachesize'], max_entries=c['max_entries'],
                   setup=su, clock_rate=c['clock'], sched_seed=seed if sched else None,
                   upload_delay=0 if c['clock'] else None, inode_cache_size=c['icache'],
                   keep_cache=c['keep'] if keep is None else keep,
                   backup_interval=backup_interval, **kw)


def random_session(w, c, m, *, seed, steps, first=False, profile=None, machine='m0', final=None,
                   compare_first=None, protect=(), **kw):
    '''A session of random calls compared with model *m*. Returns (model, tally).'''
    async def body(k, ses):
        t = Tally()
        d = driver.Driver(k, m, rng_for('drv', seed), t, bs=c['block_kib'] * 1024,
                          profile=profile)
        d.protect = set(protect)
        if first:
            await d.adopt()
        if compare_first:
            d.trace.append(('session', compare_first))
            await d.compare_all(compare_first)
        for i in range(steps):
            await d.step()
        if final is not None:
            await final(d, ses)
        await d.compare_all('tree at the end of the session')
        await d.close_all()
        if d.rng.random() < 0.5:
            await k.forget_all()
        # remember what a later session must see, with the exact times
        for p, n in m.paths():
            a = await k.getattr(p)
            n.atime, n.mtime, n.ctime = a.st_atime_ns, a.st_mtime_ns, a.st_ctime_ns
            n.opens = 0
        t.sample(dict(calls=[str(x) for x in d.trace[:15]]), 1)
        return m, t

    return world.check_result(session(w, c, body, seed=seed, machine=machine, **kw))
