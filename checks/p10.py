'''P10: snapshot copies are complete, equal and isolated.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import stat

import trio

from lib import chaos, core, dbcheck, driver, hist, kern, model, world
from lib.core import Tally, Violation, rng_for
from lib.treeops import build, small_batches

LEVEL = 'exploration'
RULE = ('A case is a random history full of tree copies (source with unsaved, forgotten, sparse, '
        'hard-linked, special and xattr-carrying files) compared with a model right after each '
        'copy and through all later changes of both sides; or a copy racing with writes, uploads, '
        'evictions, flushes, renames and removals elsewhere, source and copy being compared '
        'afterwards and again at the end. Then unmount, SQL invariants, stored objects, fsck, '
        'remount and comparison. distinct: call shapes / race configuration and outcome.')

PROF = dict(cp=14, write=30, create=12, link=8, mknod=4, symlink=5, setxattr=8, forget=8, mkdir=10,
            rmtree=4, truncate=6, ftruncate=6, dropcache=3, flushcache=2, release=12, unlink=8)


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(rng), steps=rng.choice([50, 90]),
                   kind=rng.choice(['seq', 'seq', 'race', 'race', 'big']),
                   batch=rng.choice([None, 1, 3, 10]))


class NewOnly(chaos.Chaos):
    '''Works in its own directories only.'''


async def race(k, c, t):
    rng = rng_for('race', c['seed'])
    bs = c['cfg']['block_kib'] * 1024
    ch = NewOnly(k, c['seed'], t, bs=bs, weights=dict(flush=8, drop=6, forget=6))
    await ch.setup()
    await k.mkdir((b'S',))
    files = await build(k, rng, t, (b'S',), bs)
    copies = []
    stop = False

    async def other(i):
        n = 0
        while not stop and n < 40:
            n += 1
            await ch.task(100 * i + n, 4)

    async with trio.open_nursery() as nursery:
        for i in range(rng.choice([1, 2, 4])):
            nursery.start_soon(other, i)
        for r in range(c['steps'] // 15):
            if rng.random() < 0.4:
                await k.forget_random(0.7)
            for _ in range(rng.randrange(3)):
                if files:
                    p = rng.choice(files)
                    if rng.random() < 0.7:
                        h = await k.open(p)
                        await k.write(h, rng.choice([0, bs, bs + 5]), rng.randbytes(rng.choice([5, bs])))
                        await k.release(h)
                    else:
                        await k.setattr(p, dict(size=rng.choice([0, 3, bs, 3 * bs])))
            before = await kern.snapshot(k, (b'S',))
            dst = (b'C%d' % r,)
            await k.cp((b'S',), dst)
            t.add('racing_copies')
            got = await kern.snapshot(k, dst)
            df = kern.diff_trees(got, before)
            if df:
                raise Violation('copy-differs', 'copy differs from its source: ' + '; '.join(df))
            now = await kern.snapshot(k, (b'S',))
            df = kern.diff_trees(now, before)
            if df:
                raise Violation('source-changed', 'source changed by copying: ' + '; '.join(df))
            copies.append((dst, before))
            t.add('entries_compared', 2 * len(before))
            if len(copies) > 1 and rng.random() < 0.4:
                x = copies.pop(rng.randrange(len(copies)))
                await k.rmtree(x[0])
            for d, snap in copies:
                df = kern.diff_trees(await kern.snapshot(k, d), snap)
                if df:
                    raise Violation('copy-not-isolated', 'an older copy changed: ' + '; '.join(df))
        stop = True
    copies.append(((b'S',), await kern.snapshot(k, (b'S',))))
    await k.forget_all()
    return copies


async def big(k, c, t):
    '''More entries than one database batch.'''
    rng = rng_for('big', c['seed'])
    await k.mkdir((b'S',))
    await k.mkdir((b'S', b'sub'))
    n = rng.choice([90, 99, 100, 101, 250])
    for i in range(n):
        d = (b'S',) if i % 3 else (b'S', b'sub')
        p = d + (b'f%d' % i,)
        if i % 10 == 0:
            h, _ = await k.create(p)
            await k.write(h, 0, b'%d' % i)
            await k.release(h)
        elif i % 10 == 1 and i > 10:
            await k.link((b'S', b'sub', b'f0'), p)
        else:
            await k.mknod(p, stat.S_IFIFO | 0o600)
    before = await kern.snapshot(k, (b'S',))
    await k.cp((b'S',), (b'C',))
    t.add('big_copies')
    df = kern.diff_trees(await kern.snapshot(k, (b'C',)), before)
    if df:
        raise Violation('copy-differs', 'copy differs from its source: ' + '; '.join(df))
    t.add('entries_compared', 2 * len(before))
    await k.cp((b'C',), (b'C2',))
    await k.rmtree((b'S',))
    await k.forget_all()
    return [((b'C',), before), ((b'C2',), before)]


def case(c, scratch):
    cfg = c['cfg']
    t = Tally()
    w = hist.new_world(scratch, cfg)
    m = model.Model()
    setup = lambda: small_batches(c['batch'])  # noqa: E731
    if c['kind'] == 'seq':
        m, t1 = hist.random_session(w, cfg, m, seed=c['seed'], steps=c['steps'], first=True,
                                    profile=driver.Profile(**PROF), setup=setup,
                                    protect=[(b'lost+found',)])
        t.merge(t1)
        t.add('sequential_copies', t1.counts.get('op_cp', 0))
    else:
        async def body(k, ses):
            res = await (race if c['kind'] == 'race' else big)(k, c, t)
            return res, t
        copies, t = world.check_result(hist.session(w, cfg, body, seed=c['seed'], setup=setup))
        t.sig(c['kind'], c['batch'], cfg['cachesize'], cfg['max_entries'], cfg['conns'],
              len(copies), sorted((k, min(v, 3)) for k, v in t.counts.items() if k[:3] == 'ok_'))
    dbcheck.check_db(w, 'after copies and unmount')
    dbcheck.check_store(w, 'after copies and unmount', tally=t)
    r = w.fsck('--force')
    if r.code or r.status != 'exit':
        raise Violation('fsck-reports', 'fsck after copies: %r' % r, r.log[-2500:])
    if c['kind'] == 'seq':
        m, t1 = hist.random_session(w, cfg, m, seed=c['seed'] + 1, steps=c['steps'] // 3,
                                    profile=driver.Profile(**PROF),
                                    protect=[(b'lost+found',)],
                                    compare_first='tree after unmount, fsck and mount')
        t.merge(t1)
    else:
        async def body(k, ses):
            for d, snap in copies:
                df = kern.diff_trees(await kern.snapshot(k, d), snap)
                if df:
                    raise Violation('copy-lost', 'after remount %r differs: %s' % (
                        d, '; '.join(df)))
        world.check_result(hist.session(w, cfg, body, seed=c['seed'] + 1))
    t.sample(dict(kind=c['kind'], batch=c['batch'], config=cfg), 1)
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P10', LEVEL, RULE, case, gen, quick_budget=32, thorough_budget=600,
              require=['racing_copies', 'big_copies', 'sequential_copies', 'objects_verified'],
              min_cases=10,
              assumptions=['While a copy runs, other requests change other trees only; changes to '
                           'the source during the copy have no defined result.'])
