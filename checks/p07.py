'''P07: the data objects in the backend are exactly the referenced blocks.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import chaos, core, dbcheck, driver, hist, model, world
from lib.core import Tally, Violation, rng_for

LEVEL = 'exploration'
RULE = ('A case is one or two mount sessions: a random sequential history or 2-5 concurrent tasks '
        'on shared files with few distinct block contents (so that deduplication, overwrites and '
        'deletion meet, and requests that release many objects at once), tiny cache, delayed backend, snapshots and tree removal. Monitors: no '
        'object is deleted while a block refers to it, none is stored twice, after each flush '
        'the backend converges to exactly the referenced objects, and after unmount every object '
        'is downloaded, decrypted and hashed. distinct: (session kind, configuration, set of '
        'outcome counters).')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(rng, delay='slow'),
                   kind=rng.choice(['seq', 'par', 'par', 'par']), tasks=rng.choice([2, 3, 5]),
                   steps=rng.choice([20, 50]), rounds=rng.choice([1, 3]),
                   sessions=rng.choice([1, 1, 2]))


class Monitor:
    '''Watches every backend request of a session.'''

    def __init__(self, t):
        self.t = t
        self.ops = None
        self.written = {}
        self.problem = None

    def before(self, op, key):
        if not key.startswith('s3ql_data_') or op not in ('write', 'delete'):
            return
        no = int(key[10:])
        if op == 'write':
            self.t.add('object_writes')
            self.written[no] = self.written.get(no, 0) + 1
            if self.written[no] > 1:
                self.problem = ('object-rewritten', 'object %s is uploaded a second time' % key)
        else:
            self.t.add('object_deletes')
            if self.ops is None:
                return
            n = self.ops.db.get_val('SELECT COUNT(*) FROM inode_blocks WHERE obj_id=?', (no,))
            if n:
                self.problem = ('object-deleted-early',
                                '%s is deleted while %d blocks refer to it' % (key, n))
            n = self.ops.db.get_val('SELECT COUNT(*) FROM objects WHERE id=?', (no,))
            if n:
                self.problem = ('object-deleted-early',
                                '%s is deleted while it is still listed' % key)

    def check(self):
        if self.problem:
            raise Violation(*self.problem)


async def settle(k, mon, backend_dir, t):
    '''After a flush the backend must converge to the referenced objects.'''
    import os

    import trio
    await k.flushcache()
    want = have = None
    for i in range(400):
        mon.check()
        want = {r[0] for r in k.ops.db.query('SELECT DISTINCT obj_id FROM inode_blocks')}
        have = set()
        for d, _, names in os.walk(backend_dir):
            have.update(int(n[10:]) for n in names
                        if n.startswith('s3ql_data_') and n[10:].isdigit())
        if want == have:
            break
        await trio.sleep(0.05)
    else:
        raise Violation('not-settled', 'after a flush: objects stored but not referenced: %s, '
                        'referenced but not stored: %s' % (sorted(have - want)[:5],
                                                          sorted(want - have)[:5]))
    t.add('settled_flushes')
    t.add('objects_listed', len(have))
    h = [r[0] for r in k.ops.db.query('SELECT hash FROM objects')]
    if len(set(h)) != len(h):
        raise Violation('duplicate-hash', 'two objects with the same content')


async def many(k, rng, mon, backend_dir, bs, t):
    '''One request that releases many objects at once'''
    n = rng.choice([30, 60, 90, 250, 500])
    p = (b'many',)
    h, _ = await k.create(p)
    for i in range(0, n, 10):
        await k.write(h, i * bs, rng.randbytes(10 * bs))
    await k.flushcache()
    how = rng.choice(['unlink', 'trunc', 'rewrite'])
    if how == 'trunc':
        await k.ftruncate(h, rng.choice([0, 1, bs + 5]))
    elif how == 'rewrite':
        for i in range(0, n, 10):
            await k.write(h, i * bs, b'Z' * (10 * bs))
    await k.release(h)
    if how == 'unlink' or rng.random() < 0.5:
        await k.unlink(p)
        await k.forget_all()
    else:
        await k.unlink(p)
    mon.check()
    t.add('mass_removals')


def case(c, scratch):
    cfg = c['cfg']
    t = Tally()
    w = hist.new_world(scratch, cfg)
    m = model.Model()
    for i in range(c['sessions']):
        seed = c['seed'] + i
        ctl = world.BackendCtl()
        mon = Monitor(t)
        ctl.before_cb = mon.before


        if c['kind'] == 'seq':
            async def body(k, ses):
                mon.ops = ses.ops
                d = driver.Driver(k, m, rng_for('drv', seed), t, bs=cfg['block_kib'] * 1024,
                                  profile=driver.Profile(cp=3, rmtree=2, write=30, truncate=8))
                if i == 0:
                    await d.adopt()
                for r in range(c['rounds']):
                    for _ in range(c['steps']):
                        await d.step()
                        mon.check()
                    await settle(k, mon, w.backend_dir, t)
                await d.close_all()
                for p, n in m.paths():
                    n.opens = 0
                    n.atime = n.mtime = n.ctime = None
                return m, t
            m, t = world.check_result(hist.session(w, cfg, body, seed=seed, ctl=ctl))
        else:
            async def body(k, ses):
                mon.ops = ses.ops
                many_rng = rng_for('many', seed)
                ch = chaos.Chaos(k, seed, t, bs=cfg['block_kib'] * 1024)
                if i == 0:
                    await ch.setup()
                for r in range(c['rounds']):
                    await ch.run(c['tasks'], c['steps'])
                    if many_rng.random() < 0.4:
                        await many(k, many_rng, mon, w.backend_dir, cfg['block_kib'] * 1024, t)
                    await settle(k, mon, w.backend_dir, t)
                t.add('max_parallel', ch.max_par)
                await k.forget_all()
                return t
            t = world.check_result(hist.session(w, cfg, body, seed=seed, ctl=ctl))
        dbcheck.check_db(w, 'after unmount')
        objs = dbcheck.check_store(w, 'after unmount', tally=t)
        t.sig(c['kind'], c['tasks'], cfg['plain'], cfg['cachesize'], cfg['max_entries'],
              cfg['conns'], sorted((k, min(v, 3)) for k, v in t.counts.items()
                                   if k.startswith(('ok_', 'err_'))), len(objs))
    t.sample(dict(case=c, observed={k: v for k, v in t.counts.items() if 'object' in k}), 1)
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P07', LEVEL, RULE, case, gen, quick_budget=30, thorough_budget=600,
              require=['object_writes', 'object_deletes', 'settled_flushes', 'objects_verified',
                       'ok_write', 'mass_removals'], min_cases=10,
              assumptions=['No backend faults (P12, P17) and no crashes (P04) here.',
                           'Convergence is given 20 s of virtual time.'])
