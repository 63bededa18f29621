'''P08: metadata is consistent after clean use and fsck has nothing to do.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, dbcheck, driver, hist, model, world
from lib.core import Tally, Violation, rng_for

LEVEL = 'exploration'
RULE = ('A case is 1-3 mount sessions of random calls (half of them biased to failing requests, '
        'xattr, rename, copy, lock and recursive removal), each followed by an independent SQL '
        'check of every reference count, reference, size and of reachability on the closed '
        'database, and by fsck --force, which must report nothing and leave every row of every '
        'table unchanged. distinct: call shapes and their expected outcome.')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(rng), n=rng.choice([1, 1, 2]),
                   steps=rng.choice([40, 90, 150]),
                   profile=rng.choice(['std', 'err', 'tree', 'xattr']))


PROFILES = dict(
    std={}, err=dict(unlink=14, rmdir=10, rename=16, link=10, mkdir=10, readdir=1, write=10, cp=2,
                     rmtree=3, forget=8, release=10),
    tree=dict(cp=6, rmtree=5, lock=2, write=14, forget=6, mkdir=8),
    xattr=dict(setxattr=25, removexattr=20, rename=10, unlink=10, create=12, forget=8))


def case(c, scratch):
    cfg = c['cfg']
    t = Tally()
    w = hist.new_world(scratch, cfg)
    m = model.Model()
    for i in range(c['n']):
        m, t1 = hist.random_session(w, cfg, m, seed=c['seed'] + i, steps=c['steps'], first=i == 0,
                                    protect=[(b'lost+found',)],
                                    profile=driver.Profile(**PROFILES[c['profile']]))
        t.merge(t1)
        dbcheck.check_db(w, 'after a clean unmount')
        before = dbcheck.dump(w)
        r = w.fsck('--force')
        if r.status != 'exit':
            world.raise_for(r, 'fsck')
        if r.code:
            raise Violation('fsck-reports', 'fsck after a clean unmount exits with %s' % r.code,
                            r.log[-2500:])
        d = dbcheck.diff_dump(before, dbcheck.dump(w))
        if d:
            raise Violation('fsck-changes', 'fsck of a clean file system changed it: %s' % d[0],
                            '\n'.join(d))
        t.add('fsck_runs')
        t.add('rows_checked', sum(len(x) for x in before.values()))
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P08', LEVEL, RULE, case, gen, quick_budget=28, thorough_budget=600,
              require=['fsck_runs', 'rows_checked', 'errors_expected'], min_cases=10,
              assumptions=['Histories are sequential here; P03 and P11 run the same database '
                           'check after concurrent histories.'])
