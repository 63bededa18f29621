'''P02: clean unmount and mount preserve the tree.'''
import os
import shutil
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, hist, model, world
from lib.core import Tally, Violation, rng_for

LEVEL = 'exploration'
RULE = ('A case is one file system with a random configuration and 2-4 mount sessions of random '
        'calls; before each further session the local state is kept, wiped, replaced by another '
        'machine, or kept with a preserved data cache, and the whole tree (contents, attributes, '
        'nanosecond times, xattrs, link groups, inode numbers) is compared with the model first. '
        'distinct: restart kind x configuration, plus call shapes.')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(rng),
                   steps=rng.choice([25, 60]),
                   starts=[rng.choice(['keep', 'wipe', 'other', 'keepcache', 'newconf'])
                           for _ in range(rng.choice([1, 2, 3]))])


def case(c, scratch):
    cfg = dict(c['cfg'])
    t = Tally()
    w = hist.new_world(scratch, cfg)
    m = model.Model()
    m, t1 = hist.random_session(w, cfg, m, seed=c['seed'], steps=c['steps'], first=True,
                                keep='keepcache' in c['starts'][:1] or cfg['keep'])
    t.merge(t1)
    machine = 'm0'
    rng = rng_for('p02', c['seed'])
    for i, how in enumerate(c['starts']):
        if how == 'wipe':
            shutil.rmtree(w.cachedir(machine))
        elif how == 'other':
            machine = 'm1' if machine == 'm0' else 'm0'
        elif how == 'newconf':
            for key in ('compress', 'cachesize', 'max_entries', 'conns', 'icache', 'clock'):
                cfg[key] = hist.rand_config(rng)[key]
            w.compress, w.max_connections = cfg['compress'], cfg['conns']
        nxt = c['starts'][i + 1] if i + 1 < len(c['starts']) else None
        m, t1 = hist.random_session(
            w, cfg, m, seed=c['seed'] + i + 1, steps=c['steps'] // 2, machine=machine,
            keep=nxt == 'keepcache' or cfg['keep'],
            compare_first='tree after remount (%s)' % how)
        t.merge(t1)
        t.add('remounts')
        t.add('remount_' + how)
        t.sig('remount', how, cfg['plain'], cfg['compress'], cfg['block_kib'], cfg['meta_kib'],
              cfg['keep'], cfg['cachesize'])
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P02', LEVEL, RULE, case, gen, quick_budget=28, thorough_budget=600,
              require=['remounts', 'remount_keep', 'remount_wipe', 'remount_other',
                       'tree_entries_compared'], min_cases=10,
              assumptions=['Only clean unmounts; crashes are P04/P05.'])
