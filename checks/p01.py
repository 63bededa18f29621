'''P01: random system call histories against an in-memory POSIX model.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, world
from lib.core import Tally, rng_for

LEVEL = 'exploration'
RULE = ('A case is a random history of system calls (15-90 calls, offsets at block borders, tiny '
        'block cache, flush/drop/evict/forget at random points, background upload on a fast '
        'virtual clock) run on a real mount session and on an in-memory model; distinct: the '
        'call, its expected outcome and the block/path shape of its arguments.')


def gen(rng, tier):
    i = 0
    while True:
        i += 1
        yield dict(n=i, seed=rng.randrange(2**40), steps=rng.choice([40, 90, 160]),
                   plain=rng.random() < 0.5, block_kib=rng.choice([1, 1, 1, 2]),
                   cachesize=rng.choice([0, 1, 3, 1000]), max_entries=rng.choice([1, 2, 4, 100]),
                   icache=rng.choice([8, None]), compress=rng.choice(['none', 'zlib-6']),
                   delay=rng.choice([None, 'slow']), clock=rng.choice([None, 50]),
                   conns=rng.choice([1, 3, 8]))


def case(c, scratch):
    from lib import driver, kern, model
    t = Tally()
    rng = rng_for('p01', c['seed'])
    w = world.World(scratch + '/w', plain=c['plain'], block_kib=c['block_kib'],
                    compress=c['compress'], max_connections=c['conns'])
    w.must_mkfs()
    m = model.Model()

    def setup():
        ctl = world.BackendCtl()
        if c['delay']:
            drng = rng_for('delay', c['seed'])
            ctl.delay = lambda op, key, phase: drng.choice([-1, 0, 0.001, 0.01])
        world.install_backend(ctl)

    async def wl(ses):
        k = kern.Kern(ses, rng)
        d = driver.Driver(k, m, rng, t, bs=c['block_kib'] * 1024)
        await d.adopt()
        for i in range(c['steps']):
            await d.step()
            if rng.random() < 0.03:
                await d.compare_all()
        await d.compare_all()
        await d.close_all()
        await k.dropcache()
        await d.compare_all('tree after dropping the cache')
        await k.forget_all()
        t.sample(dict(case=c, calls=[str(x) for x in d.trace[:25]]), 1)
        return t

    r = w.mount(wl, cachesize=c['cachesize'], max_entries=c['max_entries'], setup=setup,
                clock_rate=c['clock'], sched_seed=c['seed'], upload_delay=0 if c['clock'] else None,
                inode_cache_size=c['icache'])
    return world.check_result(r)


if __name__ == '__main__':
    world.preimport()
    core.main('P01', LEVEL, RULE, case, gen, quick_budget=25, thorough_budget=600,
              require=['ops', 'errors_expected', 'bytes_read', 'tree_entries_compared'],
              min_cases=20,
              assumptions=['The kernel serialises namespace changes per directory and '
                           'truncation per file, and never sends requests that its own VFS '
                           'checks already refuse.'])
