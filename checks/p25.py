'''P25: the ordered index and the per-block locks behave as specified under any use.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import gc
import random

import trio
import trio.testing

from lib import core
from lib.core import Tally, Violation, rng_for

LEVEL = 'exploration'
RULE = ('index: random operation histories with several open iterators (advanced, closed, or '
        'dropped at random) compared with a list-based model after every operation; lock: random '
        'tasks that lock, try to lock, unlock for each other, time out and get cancelled at '
        'seeded random schedules; critical sections, progress of unrelated keys and the final '
        'state are monitored. distinct: (operation, situation) combinations.')


def gen(rng, tier):
    yield dict(seed=rng.randrange(2**40), kind='huge', n=300000)
    while True:
        yield dict(seed=rng.randrange(2**40), kind=rng.choice(['index', 'lock']))


# -------------------------------------------------------------------------------------------


class Odd:
    '''A key whose hash collides with others.'''

    def __init__(self, n, h):
        self.n, self.h = n, h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, Odd) and other.n == self.n

    def __repr__(self):
        return 'Odd(%d)' % self.n


class It:
    def __init__(self, it, model):
        self.it = it
        self.expect = list(model)     # untouched keys, in order
        self.since = 0                # steps since the last change
        self.touched = set()
        self.steps = 0


def index(c, rng, t):
    from s3ql._linked_dict import LinkedDict
    d = LinkedDict()
    order = []          # keys
    vals = {}
    its = []
    keys = [rng.choice([i, 'k%d' % i, (i, i % 3), Odd(i, i % 2), None if i == 5 else -i])
            for i in range(rng.choice([2, 5, 12, 40]))]
    counter = 0
    nops = rng.choice([50, 300, 1000])
    pins = 0

    def touched(key):
        for x in its:
            x.touched.add(key)
            x.since = 0

    def advance(x):
        x.steps += 1
        x.since += 1
        try:
            v = next(x.it)
        except StopIteration:
            left = [k for k in x.expect if k not in x.touched]
            if left:
                raise Violation('entry-skipped', 'iteration ended without the untouched entries %r'
                                % left)
            return False
        except Exception as exc:
            raise Violation('iteration-failed', 'iterator raised %r' % exc) from exc
        if x.since > len(order) + 1:
            raise Violation('endless-iteration', '%d values without any change, although there '
                            'are %d entries' % (x.since, len(order)))
        key = v[0]
        if key not in vals or vals[key] is not v:
            raise Violation('stale-value', 'iterator returned %r, which is not in the mapping' % (
                v,))
        if key not in x.touched:
            left = [k for k in x.expect if k not in x.touched]
            if not left or left[0] != key:
                raise Violation('wrong-order', 'iterator returned the untouched entry %r, expected '
                                '%r' % (key, left[:1]))
            x.expect.remove(key)
        t.add('values_iterated')
        return True

    for no in range(nops):
        op = rng.choice(['set', 'set', 'set', 'over', 'del', 'pop', 'tail', 'tail', 'get', 'miss',
                         'iter', 'adv', 'adv', 'adv', 'close', 'views', 'finish', 'drop'])
        present = bool(order)
        t.sig(op, min(len(order), 3), min(len(its), 3))
        if op == 'set':
            k = rng.choice(keys)
            counter += 1
            v = (k, counter)
            if k not in vals:
                order.append(k)
            else:
                # overwritten in place: no change of order
                pass
            d[k] = v
            vals[k] = v
            touched(k)
        elif op == 'over' and present:
            k = rng.choice(order)
            counter += 1
            vals[k] = d[k] = (k, counter)
            for x in its:
                x.since = 0
        elif op in ('del', 'pop') and present:
            k = rng.choice(order)
            if op == 'del':
                del d[k]
            else:
                v = d.pop(k)
                if v is not vals[k]:
                    raise Violation('wrong-value', 'pop(%r) returned %r' % (k, v))
            order.remove(k)
            del vals[k]
            touched(k)
        elif op == 'tail' and present:
            k = rng.choice(order)
            d.move_to_tail(k)
            order.remove(k)
            order.append(k)
            touched(k)
        elif op == 'get' and present:
            k = rng.choice(order)
            if d[k] is not vals[k] or d.get(k) is not vals[k] or k not in d:
                raise Violation('wrong-value', 'lookup of %r' % (k,))
        elif op == 'miss':
            for k in ('absent', (1, 2, 3)):
                for f in (lambda: d[k], lambda: d.pop(k), lambda: d.__delitem__(k),  # noqa: B023
                          lambda: d.move_to_tail(k)):  # noqa: B023
                    try:
                        f()
                    except KeyError:
                        t.add('missing_keys')
                    else:
                        raise Violation('missing-key-accepted', 'no KeyError for %r' % (k,))
                if d.get(k) is not None or d.get(k, 7) != 7 or k in d:
                    raise Violation('wrong-value', 'get of a missing key')
        elif op == 'iter' and len(its) < 5:
            its.append(It(d.mutable_values(), order))
            # nothing runs before the first value is asked for
            x = its[-1]
            if not advance(x):
                its.remove(x)
            pins += 1
        elif op == 'adv' and its:
            x = rng.choice(its)
            if not advance(x):
                its.remove(x)
        elif op == 'finish' and its:
            x = its.pop(rng.randrange(len(its)))
            while advance(x):
                pass
            t.add('iterations_finished')
        elif op == 'close' and its:
            x = its.pop(rng.randrange(len(its)))
            x.it.close()
        elif op == 'drop' and its:
            its.pop(rng.randrange(len(its)))
            x = None
            gc.collect(0)
        elif op == 'views':
            want = {repr(k): vals[k] for k in vals}
            for name, got in (('iter', [repr(k) for k in d]), ('keys', [repr(k) for k in d.keys()])):
                if sorted(got) != sorted(want):
                    raise Violation('wrong-view', '%s gives %r' % (name, got))
            if sorted(map(repr, d.values())) != sorted(map(repr, vals.values())):
                raise Violation('wrong-view', 'values')
            if sorted((repr(k), repr(v)) for k, v in d.items()) != \
                    sorted((repr(k), repr(v)) for k, v in vals.items()):
                raise Violation('wrong-view', 'items')
        if len(d) != len(order):
            raise Violation('wrong-length', 'len is %d instead of %d after %s' % (
                len(d), len(order), op))
        # without disturbing the other iterators
        if rng.random() < 0.3:
            got = [v for v in d.mutable_values()]
            if len(got) != len(order) or any(g is not vals[k] for g, k in zip(got, order)):
                raise Violation('wrong-order', 'after %s: order is %r instead of %r' % (
                    op, [g[0] for g in got], order))
            t.add('orders_compared')
        t.add('index_operations')
    for x in its:
        while advance(x):
            pass
    its.clear()
    x = None
    if hasattr(d, '_linked_list_length') and d._linked_list_length() != len(order):
        raise Violation('cursor-left', 'placeholders of finished iterations are left in the list')
    while order:
        k = order.pop(0)
        if rng.random() < 0.5:
            del d[k]
        else:
            d.pop(k)
    if len(d) or list(d.mutable_values()):
        raise Violation('wrong-length', 'not empty at the end')
    t.add('indexes')


def huge(c, rng, t):
    '''Many entries: nothing may be recursive; the memory must be given back.'''
    from s3ql._linked_dict import LinkedDict

    class V:
        n = 0

        def __init__(self):
            V.n += 1

        def __del__(self):
            V.n -= 1

    for rep in range(3):
        d = LinkedDict()
        ks = list(range(c['n']))
        rng.shuffle(ks)
        for k in ks:
            d[k] = V()
        its = [d.mutable_values() for _ in range(3)]
        for it in its:
            next(it)
        for k in ks[::2]:
            d.move_to_tail(k)
        if rep == 1:
            for k in ks:
                del d[k]
        if rep == 2:
            its.append(d)
            d.__class__          # keep a cycle: iterators hold the dict
        del d, it
        its = None
        gc.collect()
        if V.n:
            raise Violation('values-leaked', '%d values are kept alive' % V.n)
        t.add('huge_indexes')


# -------------------------------------------------------------------------------------------


def lock(c, rng, t):
    from s3ql.multi_lock import MultiLock
    held = {}            # key -> owner, as the monitor sees it
    giving = {}          # keys handed over to another task for unlocking
    state = dict(owners=0)
    keys = [rng.choice([(i, 0), i, 'x%d' % i]) for i in range(rng.choice([1, 2, 4]))]
    blocked = 'permanently locked'

    def enter(k, who):
        if k in held:
            raise Violation('two-owners', '%r got the lock %r, which is held by %r' % (
                who, k, held[k]))
        held[k] = who
        t.add('locked')

    def leave(k):
        del held[k]

    async def pause(rng):
        r = rng.random()
        if r < 0.5:
            await trio.lowlevel.checkpoint()
        elif r < 0.8:
            await trio.sleep(rng.choice([0, 0.1, 1, 2]))

    async def worker(ml, no, scopes):
        rng = rng_for('p25w', c['seed'], no)
        for step in range(rng.choice([5, 30])):
            k = rng.choice(keys)
            op = rng.choice(['with', 'with', 'acq', 'try', 'hand', 'noerr', 'timeout', 'cancel',
                             'bad'])
            t.sig(op, k in held, len(scopes) > 0)
            who = (no, step)
            if op in ('with', 'timeout', 'cancel'):
                # a time limit hits the wait, the section, or the release
                with trio.CancelScope() as sc:
                    if op == 'timeout':
                        sc.deadline = trio.current_time() + rng.choice([0, 0.1, 0.5, 1, 3])
                    elif op == 'cancel':
                        scopes.append(sc)
                    inside = False
                    try:
                        async with ml(k):
                            enter(k, who)
                            inside = True
                            try:
                                await pause(rng)
                                if rng.random() < 0.1:
                                    sc.cancel()
                                    t.add('cancelled_inside')
                            finally:
                                # the release follows
                                leave(k)
                    finally:
                        if sc in scopes:
                            scopes.remove(sc)
                if sc.cancelled_caught:
                    t.add('cancelled' if inside else 'cancelled_waiting')
            elif op == 'acq':
                await ml.acquire(k)
                enter(k, who)
                await pause(rng)
                leave(k)
                await ml.release(k)
            elif op == 'try':
                free = k not in held
                r = ml.acquire_nowait(k)
                if r is True:
                    enter(k, who)
                    await pause(rng)
                    leave(k)
                    await ml.release(k)
                    t.add('try_succeeded')
                elif r is False:
                    t.add('try_failed', 1)
                    t.add('try_failed_held', not free)
                else:
                    raise Violation('try-result', 'acquire_nowait returned %r' % (r,))
            elif op == 'hand':
                # another task releases the lock
                await ml.acquire(k)
                enter(k, who)

                async def release(k=k):
                    await pause(rng)
                    leave(k)
                    await ml.release(k)
                state['nursery'].start_soon(release)
            elif op == 'noerr':
                await ml.release('never locked', noerror=True)
            elif op == 'bad':
                try:
                    await ml.release('never locked')
                except KeyError:
                    t.add('bad_release_reported')
                else:
                    raise Violation('bad-release', 'releasing a lock that is not held went '
                                    'unnoticed')
            if len(scopes) and rng.random() < 0.3:
                rng.choice(scopes).cancel()
            await pause(rng)

    async def main():
        ml = MultiLock()
        # a lock that is never released must not disturb the others
        await ml.acquire(blocked)
        scopes = []
        with trio.move_on_after(100000) as sc:
            async with trio.open_nursery() as nu:
                state['nursery'] = nu
                for i in range(rng.choice([2, 4, 10])):
                    nu.start_soon(worker, ml, i, scopes)
                waiters = []
                for i in range(3):
                    ws = trio.CancelScope()
                    waiters.append(ws)

                    async def waiter(ws=ws):
                        with ws:
                            await ml.acquire(blocked)
                            raise Violation('two-owners', 'got a lock that was never released')
                    nu.start_soon(waiter)
                while len(nu.child_tasks) > 3:
                    await trio.sleep(1)
                for ws in waiters:
                    ws.cancel()
        if sc.cancelled_caught:
            raise Violation('stuck', 'tasks wait for ever (locks held: %r)' % held)
        for k in keys:
            if not ml.acquire_nowait(k):
                raise Violation('lock-leaked', 'nobody holds %r, but it cannot be locked' % (k,))
            with trio.move_on_after(10) as sc:
                await ml.release(k)
                await ml.acquire(k)
                await ml.release(k)
            if sc.cancelled_caught:
                raise Violation('stuck', 'a free lock cannot be acquired')
        if ml.acquire_nowait(blocked):
            raise Violation('two-owners', 'a held lock was given away')
        await ml.release(blocked)
        if not ml.acquire_nowait(blocked):
            raise Violation('lock-leaked', 'released lock not available')

    import trio._core._run as _run
    _run._r = random.Random(c['seed'])
    try:
        trio.run(main, clock=trio.testing.MockClock(autojump_threshold=0))
    except BaseExceptionGroup as eg:
        e = eg
        while isinstance(e, BaseExceptionGroup):
            e = next((x for x in e.exceptions if not isinstance(x, trio.Cancelled)),
                     e.exceptions[0])
        if isinstance(e, Violation):
            raise e from None
        raise
    t.add('lock_histories')


def case(c, scratch):
    rng = rng_for('p25', c['seed'])
    t = Tally()
    t.sample(c, 1)
    if c['kind'] == 'huge':
        huge(c, rng, t)
        return t
    for i in range(20):
        globals()[c['kind']](dict(c, seed=c['seed'] * 100 + i), rng_for('p25', c['seed'], i), t)
    return t


if __name__ == '__main__':
    import s3ql._linked_dict  # noqa: F401
    import s3ql.multi_lock  # noqa: F401
    core.main('P25', LEVEL, RULE, case, gen, quick_budget=20, thorough_budget=400,
              require=['huge_indexes', 'indexes', 'lock_histories', 'cancelled_waiting', 'cancelled',
                       'cancelled_inside', 'try_succeeded', 'try_failed_held',
                       'iterations_finished', 'orders_compared'], min_cases=30)
